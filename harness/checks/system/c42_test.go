package system

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// job is some work for a program, with what must come out of it.
type job struct {
	msgs [][]byte
	want []string // lines, with the subject in front for those published
}

func genJob(t *rapid.T, mode string) *job {
	j := &job{}
	now := time.Now()
	for n := hz.Int(t, 0, 8, "messages"); n > 0; n-- {
		var msg []byte
		for l := hz.Int(t, 1, 6, "lines"); l > 0; l-- {
			id := fmt.Sprintf("%d-%d", n, l)
			var line []byte
			switch {
			case mode == "downsampler":
				// Each series has one value, so that is its average.
				line = fmt.Appendf(nil, "m%s,host=a s=\"x y\",v=%d", id, hz.Int(t, -5, 5, "v"))
				j.want = append(j.want, ".in-archive "+string(line))
				if hz.Chance(t, 30, "bad") {
					line = append(append(line, '\n'), hz.One(t, "what", "m v=", "m,a=b v=\"x", "m v=1 1000", "m v")...)
				}
			case hz.Chance(t, 20, "garbage") && (mode == "filter" || mode == "writer"):
				line = bytes.ReplaceAll(gen.Garbage(t, id), []byte("\n"), []byte("_"))
				if len(line) < 8 { // whether such lines have timestamps is unspecified
					line = append(line, "________"...)
				}
			default:
				line = gen.Line(t, id, gen.Opts{})
				if hz.Chance(t, 30, "timestamp") {
					line = append(line, gen.NearTS(t, now)...)
				}
			}
			line = append(line, '\n')
			msg = append(msg, line...)
			switch mode {
			case "listener", "listener_http":
				j.want = append(j.want, ".in "+string(line))
			case "writer":
				j.want = append(j.want, string(line))
			case "filter":
				if ts, _, ok := ref.Timestamp(line); ok && (ts < now.Add(-5*time.Minute).UnixNano() || ts > now.Add(5*time.Minute).UnixNano()) {
					continue
				}
				if _, sorted, ok := ref.Route(nil, line); ok {
					j.want = append(j.want, ".junk "+string(sorted))
				}
			}
		}
		j.msgs = append(j.msgs, msg)
	}
	sort.Strings(j.want)
	return j
}

func TestC42_Diagnostics(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif-c42-")
	if err != nil {
		hz.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	hz.Check(t, hz.Opts{Quick: 400, Thorough: 10000, Budget: time.Duration(hz.Pick(100, 800)) * time.Second,
		Rule: "a real program with generated diagnostic options gets generated data (some of it malformed); the output must be the model's, the ports it listens on exactly the configured ones, and each of them must serve what it is for; non-trivial: debug, pprof or probes are on"},
		func(c *hz.C) {
			p := genProgram(c.T, hz.One(c.T, "mode", "listener", "listener_http", "filter", "writer", "downsampler", "monitor"))
			j := genJob(c.T, p.mode)
			taken := p.hasPprof && hz.Chance(c.T, 20, "pprof port taken")
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				err := p.diagnose(dir, j, taken, wait)
				if err != nil {
					return fmt.Errorf("%w\nwith a %s and %q", err, p, j.msgs)
				}
				return nil
			})
			c.Label(p.mode)
			c.LabelIf(p.debug, "debug")
			c.LabelIf(p.hasPprof, "pprof")
			c.LabelIf(taken, "pprof port taken")
			if p.debug || p.hasPprof || p.hasProbe {
				c.NonTrivial(fmt.Sprint(p, j.msgs))
			}
			c.Sample(func() string { return fmt.Sprintf("%s: %q", p, j.msgs) })
		})
}

func (p *program) diagnose(dir string, j *job, taken bool, wait time.Duration) error {
	p.install = sut.Unique()
	p.prefix = p.install + ".p"
	rep := watchReports(p.monitor())
	defer rep.close()
	influx := sut.NewInflux(func(n int, r *sut.Request) sut.Outcome {
		if n%3 == 1 {
			return sut.Outcome{Status: 503}
		}
		return sut.Outcome{}
	})
	defer influx.Close()
	switch p.mode {
	case "listener", "listener_http":
		p.extra = "batch_max_count = 3\nbatch_max_age = \"50ms\"\n"
	case "filter":
		p.extra = fmt.Sprintf("nats_subject_junkyard = %q\n", p.prefix+".junk")
	case "writer":
		p.influx = influx.Port
		p.extra = fmt.Sprintf("influxdb_address = \"127.0.0.1\"\ninfluxdb_port = %d\ninfluxdb_dbname = \"db\"\nbatch_max_count = 2\nbatch_max_age = \"50ms\"\nwriter_retry_batches = 20\nwriter_retry_interval = \"5ms\"\n", influx.Port)
	case "downsampler":
		p.extra = "downsample_period = \"500ms\"\n"
	}
	col := sut.Collect(sut.Conn(), p.prefix+".junk", p.subject()+"-archive")
	if strings.HasPrefix(p.mode, "listener") {
		col = sut.Collect(sut.Conn(), p.subject())
	}
	defer col.Close()
	p.occupy = taken
	err := p.start(dir, rep, wait)
	if p.blocker != nil {
		defer p.blocker.Close()
	}
	if p.proc != nil {
		defer p.proc.Kill()
	}
	if err != nil {
		return err
	}

	// Ports.
	var want []string
	switch p.mode {
	case "listener":
		want = append(want, fmt.Sprint("udp ", p.port))
	case "listener_http", "monitor":
		want = append(want, fmt.Sprint("tcp ", p.port))
	}
	if p.hasProbe {
		want = append(want, fmt.Sprint("tcp ", p.probe))
	}
	if p.hasPprof && !taken {
		want = append(want, fmt.Sprint("tcp ", p.pprof))
	}
	sort.Strings(want)
	var have []string
	if !sut.Until(wait, func() bool { have = p.proc.Sockets(); return reflect.DeepEqual(have, want) }) {
		if len(have) > len(want) {
			return fmt.Errorf("the program listens on more than its configured ports (%d instead of %d)", len(have), len(want))
		}
		return hz.Softf("the program does not listen on all its ports (%d instead of %d)", len(have), len(want))
	}
	for _, w := range want {
		var port int
		if n, _ := fmt.Sscanf(w, "tcp %d", &port); n == 0 {
			continue
		}
		for path, at := range map[string]int{"/debug/pprof/cmdline": p.pprof, "/healthz": p.probe, "/readyz": p.probe, "/metrics": map[bool]int{true: p.port}[p.mode == "monitor"]} {
			status, body, err := httpGet(fmt.Sprintf("http://127.0.0.1:%d%s", port, path))
			switch {
			case err != nil:
				return hz.Softf("%s can't be requested", path)
			case port == at && status != 200:
				return hz.Softf("%s answers with status %d", path, status)
			case port != at && status == 200:
				return fmt.Errorf("%s is also served on another port than the one for it: %.100q", path, body)
			}
		}
	}

	// Data.
	var wg sync.WaitGroup
	stop := make(chan struct{})
	if p.hasPprof && !taken {
		// Profiles while it works.
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				for _, what := range []string{"heap", "goroutine?debug=2", "mutex", "trace?seconds=0.02"} {
					select {
					case <-stop:
						return
					default:
					}
					if resp, err := httpClient.Get(fmt.Sprintf("http://127.0.0.1:%d/debug/pprof/%s", p.pprof, what)); err == nil {
						io.Copy(io.Discard, resp.Body)
						resp.Body.Close()
					}
				}
			}
		}()
	}
	defer wg.Wait()
	defer close(stop)
	for _, m := range j.msgs {
		switch p.mode {
		case "listener":
			conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", p.port))
			if err != nil {
				hz.Infra("%v", err)
			}
			conn.Write(m)
			conn.Close()
		case "listener_http":
			resp, err := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", p.port), "", bytes.NewReader(m))
			if err != nil {
				return hz.Softf("a request fails")
			}
			resp.Body.Close()
			if resp.StatusCode != http.StatusNoContent {
				return fmt.Errorf("a write is answered with status %d", resp.StatusCode)
			}
		case "monitor":
		default:
			sut.Publish(sut.Conn(), p.subject(), m)
		}
	}
	sut.Flush(sut.Conn())
	if p.mode == "monitor" {
		return p.diagnoseMonitor(len(j.msgs), wait)
	}
	var got []string
	collect := func() bool {
		got = nil
		if p.mode == "writer" {
			for _, r := range influx.Reqs() {
				if r.Outcome.Ok() {
					got = append(got, strings.SplitAfter(string(r.Body), "\n")...)
				}
			}
		}
		for _, m := range col.Msgs() {
			for _, line := range strings.SplitAfter(string(m.Data), "\n") {
				if line == "" {
					continue
				}
				line = strings.TrimPrefix(m.Subject, p.prefix) + " " + line
				if p.mode == "downsampler" {
					line = line[:strings.LastIndex(line, " ")] // without time
				}
				got = append(got, line)
			}
		}
		out := got[:0]
		for _, g := range got {
			if g != "" {
				out = append(out, g)
			}
		}
		got = out
		sort.Strings(got)
		return len(got) >= len(j.want)
	}
	if p.mode == "downsampler" {
		wait += 2 * time.Second
	}
	if !sut.Until(wait, collect) {
		if p.proc.Exited(0) {
			return fmt.Errorf("the %s exits: %.1000s", p.mode, crash(p.proc.Stderr()))
		}
		return hz.Softf("the output is %q instead of %q", got, j.want)
	}
	time.Sleep(20 * time.Millisecond)
	if collect(); !reflect.DeepEqual(got, j.want) && len(got)+len(j.want) > 0 {
		return fmt.Errorf("the output is %q instead of %q", got, j.want)
	}
	if p.proc.Exited(0) {
		return fmt.Errorf("the %s exits: %.1000s", p.mode, crash(p.proc.Stderr()))
	}
	return nil
}

func (p *program) diagnoseMonitor(n int, wait time.Duration) error {
	want := ""
	for i := 0; i < n; i++ {
		sut.Publish(sut.Conn(), p.monitor(), fmt.Appendf(nil, "m%d{a=\"b\"} %d 1000\n", i, i))
		sut.Publish(sut.Conn(), p.monitor(), []byte("not a metric\n"))
		want += fmt.Sprintf("m%d{a=\"b\"} %d 1000\n", i, i)
	}
	sut.Flush(sut.Conn())
	var body string
	if !sut.Until(wait, func() bool {
		_, body, _ = httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.port))
		return body == want
	}) {
		return hz.Softf("the page is %q instead of %q", body, want)
	}
	return nil
}
