package listener

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/sut"
)

func TestC02_HTTP(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 250, Thorough: 5000,
		Rule: "an HTTP listener with generated batch limits gets generated bodies (from empty to MBs, with and without final newline) from one to eight concurrent clients; the published lines are compared with the posted ones; non-trivial: at least two clients, or two bodies of which one has no final newline, or a body over 64 KB"},
		checkHTTP)
}

// body draws a request body whose lines are all distinct.
func body(t *rapid.T, client, req int, maxSize int) []byte {
	var b bytes.Buffer
	target := min(maxSize, hz.One(t, "size", 1, 1, 100, 100, 300, 2000, 20000, 65000, 66000, 200000, 1000000, 1060000, 2200000))
	style := hz.One(t, "style", "short", "mixed", "long", "odd")
	for i := 0; b.Len() < target || i == 0; i++ {
		n := 0
		if target > 70000 {
			n = 200
		}
		switch style {
		case "mixed":
			n = (i * 7919) % 3000
		case "long":
			n = target
		case "odd":
			b.WriteString([]string{"", "\n", "\r\n", " x \n"}[i%4])
			n = i % 7
		}
		fmt.Fprintf(&b, "m,c=%d,r=%d,l=%d v=", client, req, i)
		b.Write(fill(n+1, uint64(i+n)))
		b.WriteByte('\n')
	}
	out := b.Bytes()
	if hz.Chance(t, 40, "unterminated") {
		out = out[:len(out)-1]
	}
	return out
}

type post struct {
	body  []byte
	pause time.Duration
	query string
}

func httpClient() *http.Client {
	return &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 16}, Timeout: 60 * time.Second}
}

// send posts a body.
func send(hc *http.Client, port int, query string, body []byte, chunked bool) (int, error) {
	var r io.Reader = bytes.NewReader(body)
	if chunked {
		r = io.MultiReader(r) // hides the length
	}
	resp, err := hc.Post(fmt.Sprintf("http://127.0.0.1:%d/write%s", port, query), "text/plain", r)
	if err != nil {
		return 0, err
	}
	io.Copy(io.Discard, resp.Body)
	resp.Body.Close()
	return resp.StatusCode, nil
}

// split returns the lines of a stream of messages, without newlines
// and blank lines. A message may end in the middle of a line only if
// it is as long as possible.
func split(msgs [][]byte) []string {
	var joined []byte
	for _, m := range msgs {
		joined = append(joined, m...)
		if len(m) < maxMsg && m[len(m)-1] != '\n' {
			joined = append(joined, '\n')
		}
	}
	var out []string
	for _, line := range strings.Split(string(joined), "\n") {
		if line != "" {
			out = append(out, line)
		}
	}
	return out
}

func sorted(lines []string) []string {
	out := append([]string(nil), lines...)
	sort.Strings(out)
	return out
}

// compareLines compares published with expected lines. order contains
// lists of lines which must come in that order.
func compareLines(got []string, order [][]string) (complete bool, err error) {
	want := map[string]int{}
	total := 0
	for _, o := range order {
		for _, l := range o {
			want[l]++
			total++
		}
	}
	seen := map[string]int{}
	pos := map[string]int{}
	for i, l := range got {
		seen[l]++
		if want[l] == 0 {
			return false, fmt.Errorf("published line %.200q (%d bytes) was never posted", l, len(l))
		}
		if seen[l] > want[l] {
			return false, fmt.Errorf("line %.200q was published more often than posted", l)
		}
		if want[l] == 1 {
			pos[l] = i
		}
	}
	for _, o := range order {
		last, lastLine := -1, ""
		for _, l := range o {
			p, ok := pos[l]
			if !ok {
				continue
			}
			if p < last {
				return false, fmt.Errorf("line %.100q was published before %.100q", l, lastLine)
			}
			last, lastLine = p, l
		}
	}
	return len(got) == total, nil
}

func checkHTTP(c *hz.C) {
	count := hz.One(c.T, "batch_max_count", 1, 2, 3, 10, 50, 1000)
	size := sizeLimit(c.T, 1<<20, 1<<20, 70000, 130000, 300000)
	age := hz.One(c.T, "batch_max_age", 10*time.Millisecond, 40*time.Millisecond)
	clients := hz.Many(c.T, hz.One(c.T, "clients", 1, 2, 3, 8), 3, "clients", 30, 70)
	chunked := hz.Chance(c.T, 20, "chunked")
	enormous := hz.Chance(c.T, 1, "enormous")
	maxSize := hz.One(c.T, "max size", 300, 300, 3000, 3000, 3000, 70000)
	if hz.Chance(c.T, 4, "huge") {
		maxSize = 3000000
	}
	posts := make([][]post, clients)
	var order [][]string
	unterminated, big, bodies, nonEmpty, bytesPosted := false, false, 0, 0, 0
	for i := range posts {
		for j := hz.Int(c.T, 0, 6, "posts"); j > 0; j-- {
			var p post
			if !hz.Chance(c.T, 4, "empty") {
				p.body = body(c.T, i, j, maxSize)
				if enormous {
					// More than any buffer along the way.
					enormous = false
					p.body = append(append([]byte(nil), p.body...), '\n')
					for k := 0; len(p.body) < 26<<20; k++ {
						p.body = append(p.body, fmt.Sprintf("enormous,c=%d,n=%d s=\"%s\"\n", i, k, fill(900, uint64(k)))...)
					}
				}
			}
			if hz.Chance(c.T, 10, "pause") {
				p.pause = time.Duration(hz.Int(c.T, 1, 30, "ms")) * time.Millisecond
			}
			p.query = hz.One(c.T, "query", "", "?db=x", "?precision=ns", "?db=a&precision=ns&u=v")
			posts[i] = append(posts[i], p)
			bodies++
			if len(p.body) > 0 {
				nonEmpty++
				bytesPosted += len(p.body)
				unterminated = unterminated || p.body[len(p.body)-1] != '\n'
				order = append(order, split([][]byte{p.body, {'\n'}}))
			}
			big = big || len(p.body) > 65536
		}
		if hz.Chance(c.T, 2, "many") {
			// Many small ones on a connection.
			for n := hz.One(c.T, "many", 100, 300); n > 0; n-- {
				b := []byte(fmt.Sprintf("small,c=%d n=%di", i, n))
				posts[i] = append(posts[i], post{body: b})
				bodies++
				nonEmpty++
				bytesPosted += len(b)
				order = append(order, []string{string(b)})
			}
			unterminated = true
		}
	}

	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		conf := sut.Config(sut.NATS(), "listener_http", sut.Unique())
		conf.BatchMaxCount = count
		conf.BatchMaxSize = datasize.ByteSize(size)
		conf.BatchMaxAge = config.NewDuration(age)
		nc := sut.Conn()
		col := sut.Collect(nc, conf.NATSSubject[0])
		defer col.Close()
		m := sut.Watch(nc, conf.NATSSubjectMonitor)
		defer m.Close()
		l := sut.MustStart(conf)
		defer sut.StopLater(l, conf)
		hc := httpClient()
		defer hc.CloseIdleConnections()

		var wg sync.WaitGroup
		errs := make(chan error, bodies)
		for _, ps := range posts {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, p := range ps {
					status, err := send(hc, conf.Port, p.query, p.body, chunked)
					if err != nil {
						errs <- hz.Softf("POST failed: %v", err)
						return
					}
					if status != http.StatusNoContent {
						errs <- fmt.Errorf("POST status is %d", status)
						return
					}
					time.Sleep(p.pause)
				}
			}()
		}
		wg.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}

		total := 0
		for _, o := range order {
			total += len(o)
		}
		lines := func(ms []sut.Msg) []string { return split(sut.By(ms, conf.NATSSubject[0])) }
		col.WaitBytes(wait, bytesPosted)
		// Newlines may be added to bodies.
		col.Wait(wait, func(ms []sut.Msg) bool { return len(lines(ms)) >= total })
		time.Sleep(age / 4)
		col.Fence()
		for _, msg := range col.Msgs() {
			if len(msg.Data) > maxMsg || len(msg.Data) == 0 {
				return fmt.Errorf("a message has %d bytes", len(msg.Data))
			}
		}
		complete, err := compareLines(lines(col.Msgs()), order)
		if err != nil {
			return err
		}
		if !complete {
			return hz.Softf("only %d of %d lines were published", len(lines(col.Msgs())), total)
		}
		if !m.Fresh(wait, "received") {
			return hz.Softf("no metrics")
		}
		if r := m.Get("received"); r != int64(nonEmpty) {
			return fmt.Errorf("received is %d after %d non-empty bodies", r, nonEmpty)
		}
		if m.Get("read_errors") != 0 || m.Get("failed_nats_publish") != 0 {
			return fmt.Errorf("failures were counted: %v", m.All())
		}
		return nil
	})

	c.LabelIf(clients > 1, "concurrent clients")
	c.LabelIf(unterminated, "without final newline")
	c.LabelIf(big, "body over 64 KB")
	if clients > 1 || (bodies > 1 && unterminated) || big {
		var key []interface{}
		for _, ps := range posts {
			for _, p := range ps {
				key = append(key, p.body)
			}
			key = append(key, "")
		}
		c.NonTrivial(append(key, count, size, clients)...)
	}
	c.Sample(func() string {
		s := fmt.Sprintf("count %d size %d age %v:", count, size, age)
		for i, ps := range posts {
			for _, p := range ps {
				s += fmt.Sprintf(" client%d:%d%s", i, len(p.body), p.query)
			}
		}
		return s
	})
}
