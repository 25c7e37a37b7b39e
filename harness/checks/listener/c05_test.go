package listener

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

func TestC05_Limits(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 250, Thorough: 8000,
		Rule: "sequences of writes (UDP or HTTP) under generated count and size limits; the published messages are compared one by one with a model of the batch; non-trivial: at least two batches are published and at least one of them combines several writes"},
		checkLimits)
}

// drawWrites draws writes, most of which end with a newline.
func drawWrites(c *hz.C, udp bool, size int) [][]byte {
	var out [][]byte
	for i := hz.Int(c.T, 1, 40, "writes"); i > 0; i-- {
		n := hz.One(c.T, "size", 8, 8, 20, 100, 1000, 1000, 8000, 30000, 65000, 65507)
		if room := size - 65536; room > 8 && room < 65000 && hz.Chance(c.T, 30, "exact") {
			n = room + hz.Int(c.T, -1, 1, "d")
		}
		if !udp && hz.Chance(c.T, 5, "big") {
			n = hz.One(c.T, "big", 100000, 500000, 1000000)
		}
		b := append([]byte(fmt.Sprintf("w%d ", i)), fill(max(n-5, 1), uint64(i))...)
		b = append(b[:min(len(b), n-1)], '\n')
		if hz.Chance(c.T, 15, "open") {
			b[len(b)-1] = 'x' // the listener terminates it
		}
		out = append(out, b)
	}
	if hz.Chance(c.T, 5, "many") {
		for n := hz.One(c.T, "many", 150, 400, 1300); n > 0; n-- {
			out = append(out, []byte(fmt.Sprintf("x%d %s\n", n, fill(n*31%70+1, uint64(n)))))
		}
	}
	return out
}

func checkLimits(c *hz.C) {
	udp := hz.Chance(c.T, 60, "udp")
	count := hz.One(c.T, "batch_max_count", 1, 2, 3, 5, 10, 1000, 1000, 100, 255, 257)
	size := sizeLimit(c.T, 1<<20, 1<<20, 65600, 66536, 75536, 131072, 300000, 100, 66000)
	writes := drawWrites(c, udp, size)
	prompt := make([]bool, len(writes))
	for i := range prompt {
		prompt[i] = hz.Chance(c.T, 20, "prompt")
	}

	batches, combined := 0, false
	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		batches, combined = 0, false
		mode := map[bool]string{true: "listener", false: "listener_http"}[udp]
		conf := sut.Config(sut.NATS(), mode, sut.Unique())
		conf.BatchMaxCount = count
		conf.BatchMaxSize = datasize.ByteSize(size)
		nc := sut.Conn()
		col := sut.Collect(nc, conf.NATSSubject[0])
		defer col.Close()
		m := sut.Watch(nc, conf.NATSSubjectMonitor)
		defer m.Close()
		l := sut.MustStart(conf)
		defer sut.StopLater(l, conf)
		u := sut.DialUDP(conf.Port, m)
		defer u.Close()
		hc := httpClient()
		defer hc.CloseIdleConnections()

		var want [][]byte
		var batch []byte
		n, sent := 0, 0
		for i, w := range writes {
			if udp {
				if err := u.Send(w, wait); err != nil {
					return err
				}
			} else if status, err := send(hc, conf.Port, "", w, false); err != nil || status != 204 {
				return hz.Softf("POST failed: %v %d", err, status)
			}
			// A line which isn't terminated is by the listener: for UDP
			// at once, for HTTP when something follows.
			if !udp && len(batch) > 0 && batch[len(batch)-1] != '\n' {
				batch = append(batch, '\n')
			}
			batch = append(batch, w...)
			if udp && batch[len(batch)-1] != '\n' {
				batch = append(batch, '\n')
			}
			n++
			published := false
			if n >= count || size-len(batch) <= 65536 {
				combined = combined || n > 1
				sent++
				published = true
				// A batch of more than 1 MB takes several messages.
				for len(batch) > maxMsg {
					cut := bytes.LastIndexByte(batch[:maxMsg], '\n') + 1
					if cut == 0 {
						cut = maxMsg
					}
					want = append(want, batch[:cut])
					batch = batch[cut:]
				}
				want = append(want, batch)
				batch, n = nil, 0
			}
			if prompt[i] && published {
				if !col.Wait(wait, func(ms []sut.Msg) bool { return len(ms) >= len(want) }) {
					return hz.Softf("after %d writes, %d messages were published, not %d", i+1, len(col.Msgs()), len(want))
				}
			}
		}
		batches = len(want)
		arrived := col.Wait(wait, func(ms []sut.Msg) bool { return len(ms) >= len(want) })
		if udp {
			if err := u.Sync(wait); err != nil {
				return err
			}
			if u.Dropped() > 0 {
				return hz.Softf("the kernel dropped datagrams")
			}
		}
		if !m.Fresh(wait, "sent") {
			return hz.Softf("no metrics")
		}
		col.Fence()
		for i, msg := range col.Msgs() {
			if i >= len(want) {
				return fmt.Errorf("%d messages were published, not %d: %.100q", len(col.Msgs()), len(want), msg.Data)
			}
			if !bytes.Equal(msg.Data, want[i]) {
				return fmt.Errorf("message %d has %d writes and %d bytes, not %d and %d", i, bytes.Count(msg.Data, []byte("\n")), len(msg.Data), bytes.Count(want[i], []byte("\n")), len(want[i]))
			}
		}
		if !arrived {
			return hz.Softf("%d messages were published, not %d", len(col.Msgs()), len(want))
		}
		if s := m.Get("sent"); s != int64(sent) {
			return fmt.Errorf("sent is %d after %d batches", s, sent)
		}
		if r := m.Get("received"); r != int64(len(writes)) {
			return fmt.Errorf("received is %d after %d writes", r, len(writes))
		}
		return nil
	})
	c.LabelIf(udp, "UDP")
	c.LabelIf(!udp, "HTTP")
	c.LabelIf(combined, "several writes in a batch")
	if batches > 1 && combined {
		var lens []int
		for _, w := range writes {
			lens = append(lens, len(w))
		}
		c.NonTrivial(udp, count, size, lens)
	}
	c.Sample(func() string {
		s := fmt.Sprintf("udp %v count %d size %d writes of", udp, count, size)
		for _, w := range writes {
			s += fmt.Sprintf(" %d", len(w))
		}
		return s
	})
}

// A history of the age part: groups of writes which fit into one batch.
type ageRun struct {
	udp    bool
	age    time.Duration
	poke   bool
	groups [][]ageWrite
	gap    []float64 // between groups, in terms of the age
}

type ageWrite struct {
	at float64 // in terms of the age, since the first write of the group
}

func TestC05_Age(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 12, Thorough: 200, Budget: time.Duration(hz.Pick(150, 900)) * time.Second,
		Rule: "twelve listeners at a time with generated maximum ages get groups of writes spread over time; each group must come out as one message, not before the age after the group's first write and soon after it; non-trivial: a group of several writes",
	}, func(c *hz.C) {
		var runs []ageRun
		for i := 0; i < 12; i++ {
			r := ageRun{
				udp:  hz.Chance(c.T, 50, "udp"),
				age:  time.Duration(hz.One(c.T, "age", 150, 300, 500, 1000, 2500)) * time.Millisecond,
				poke: hz.Chance(c.T, 50, "poke"),
			}
			most := 3
			if r.age >= time.Second {
				most = 2
			}
			for g := hz.Int(c.T, 1, most, "groups"); g > 0; g-- {
				var ws []ageWrite
				at := 0.0
				w := hz.Int(c.T, 1, 4, "writes")
				least, step := 0, 25
				if hz.Chance(c.T, 30, "many") {
					w = hz.One(c.T, "many", 6, 12, 20)
					step = 80 / w
					least = hz.One(c.T, "least", step, step, 0)
				}
				for ; w > 0; w-- {
					ws = append(ws, ageWrite{at})
					at += float64(hz.Int(c.T, least, step, "delay")) / 100
				}
				r.groups = append(r.groups, ws)
				r.gap = append(r.gap, float64(hz.One(c.T, "gap", 0, 0, 40, 150))/100)
			}
			runs = append(runs, r)
		}
		hz.Timed(c, 1500*time.Millisecond, func(wait time.Duration) error {
			errs := make([]error, len(runs))
			var wg sync.WaitGroup
			for i, r := range runs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = runAge(r, wait)
				}()
			}
			wg.Wait()
			var soft error
			for _, err := range errs {
				if _, ok := err.(*hz.Soft); ok {
					soft = err
				} else if err != nil {
					return err
				}
			}
			return soft
		})
		several := false
		for _, r := range runs {
			for _, g := range r.groups {
				several = several || len(g) > 1
			}
		}
		if several {
			c.NonTrivial(fmt.Sprint(runs))
		}
		c.Sample(func() string { return fmt.Sprint(runs) })
	})
}

func runAge(r ageRun, wait time.Duration) error {
	mode := map[bool]string{true: "listener", false: "listener_http"}[r.udp]
	conf := sut.Config(sut.NATS(), mode, sut.Unique())
	conf.BatchMaxCount = 1000
	conf.BatchMaxAge = config.NewDuration(r.age)
	nc := sut.Conn()
	col := sut.Collect(nc, conf.NATSSubject[0])
	defer col.Close()
	m := sut.Watch(nc, conf.NATSSubjectMonitor)
	defer m.Close()
	l := sut.MustStart(conf)
	defer sut.StopLater(l, conf)
	u := sut.DialUDP(conf.Port, m)
	defer u.Close()
	hc := httpClient()
	defer hc.CloseIdleConnections()

	for g, ws := range r.groups {
		var want strings.Builder
		first := time.Now()
		var last time.Time
		for i, w := range ws {
			time.Sleep(time.Until(first.Add(time.Duration(w.at * float64(r.age)))))
			line := fmt.Sprintf("g=%d,w=%d x=1\n", g, i)
			want.WriteString(line)
			if r.udp {
				if err := u.Send([]byte(line), wait); err != nil {
					return err
				}
				if i < 3 || i == len(ws)-1 {
					if err := u.Sync(wait); err != nil {
						return err
					}
				}
			} else if status, err := send(hc, conf.Port, "", []byte(line), false); err != nil || status != 204 {
				return hz.Softf("POST failed: %v %d", err, status)
			}
			last = time.Now()
		}
		// If the machine is slow the age may be reached in between.
		slow := last.Sub(first) > r.age*9/10
		limit := r.age + wait
		stop := make(chan struct{})
		if r.poke && r.udp {
			time.Sleep(time.Until(first.Add(r.age)))
			go func() {
				for {
					u2 := []byte(nil)
					u.Send(u2, wait)
					select {
					case <-stop:
						return
					case <-time.After(5 * time.Millisecond):
					}
				}
			}()
			limit = r.age + wait/3
		} else if !r.udp {
			limit = r.age + wait/3
		}
		ok := col.Wait(limit-time.Since(first), func(ms []sut.Msg) bool { return sut.Size(ms) >= want.Len() })
		close(stop)
		if !ok {
			return hz.Softf("a batch of age %v was not sent in time", r.age)
		}
		ms := col.Msgs()
		if ms[0].At.Sub(first) < r.age {
			return fmt.Errorf("a batch was sent before it was %v old", r.age)
		}
		if slow {
			return hz.Softf("the writes took too long")
		}
		if len(ms) != 1 || string(ms[0].Data) != want.String() {
			return fmt.Errorf("writes within the age of a batch were sent as %q, not %q", sut.By(ms, conf.NATSSubject[0]), want.String())
		}
		col.Reset()
		time.Sleep(time.Duration(r.gap[g] * float64(r.age)))
	}
	if s := int64(len(r.groups)); !m.WaitFor(wait, "sent", s) || m.Get("sent") != s {
		return fmt.Errorf("sent is %d after %d batches", m.Get("sent"), s)
	}
	return nil
}
