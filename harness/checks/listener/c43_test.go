package listener

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// limited is a NATS server which refuses messages beyond a size.
type limited struct {
	srv *server.Server
	nc  *nats.Conn
}

var limitedServers = map[int]*limited{}

func limitedNATS(payload int) *limited {
	l := limitedServers[payload]
	if l == nil {
		srv := sut.NewNATSWith(payload)
		l = &limited{srv, sut.Connect(srv)}
		limitedServers[payload] = l
	}
	return l
}

// cutChunks cuts data like messages are which exceed what NATS accepts
// by default.
func cutChunks(data []byte) (out [][]byte) {
	for len(data) > maxMsg {
		cut := bytes.LastIndexByte(data[:maxMsg], '\n') + 1
		if cut == 0 {
			cut = maxMsg
		}
		out = append(out, data[:cut])
		data = data[cut:]
	}
	return append(out, data)
}

func TestC43_Listener(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 400, Thorough: 8000,
		Rule: "sequences of writes (UDP or HTTP) to a listener whose NATS server only accepts messages up to a generated size; the messages which are published must be exactly the batches (or parts of them) which are not larger, and the others must be counted in failed_nats_publish once; non-trivial: some messages are refused, and one which is not follows"},
		func(c *hz.C) {
			udp := hz.Chance(c.T, 50, "udp")
			payload := hz.One(c.T, "max_payload", 8192, 8192, 20000, 65536, 100000, 300000)
			count := hz.One(c.T, "batch_max_count", 1, 1, 2, 3, 7)
			var writes [][]byte
			for n := hz.Int(c.T, 1, 10, "writes"); n > 0; n-- {
				size := hz.One(c.T, "size", 20, 1000, 3000, payload/2, payload-1, payload, payload+1, payload/count, payload/count+1, 2*payload)
				if udp {
					size = min(size, 65000)
				} else if hz.Chance(c.T, 10, "huge") {
					size = hz.One(c.T, "huge size", 1000000, 1<<20, 1<<20+1, 1<<20+5000, 2<<20+100, 2500000)
				}
				line := hz.One(c.T, "line", 20, 100, 1000, 5000)
				var b []byte
				for i := 0; len(b) < size; i++ {
					l := fmt.Appendf(nil, "w%d,l=%d ", n, i)
					l = append(l, fill(line, uint64(i))...)
					l = l[:min(len(l), size-len(b))]
					l[len(l)-1] = '\n'
					b = append(b, l...)
				}
				writes = append(writes, b)
			}
			// At least one complete batch follows.
			for n := 0; n < count || len(writes)%count > 0; n++ {
				writes = append(writes, fmt.Appendf(nil, "last,n=%d x=1\n", n))
			}

			var want [][]byte
			refused := 0
			var batch []byte
			for i, w := range writes {
				batch = append(batch, w...)
				if (i+1)%count > 0 {
					continue
				}
				for _, chunk := range cutChunks(batch) {
					if len(chunk) > payload {
						refused++
					} else {
						want = append(want, chunk)
					}
				}
				batch = nil
			}

			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				nats := limitedNATS(payload)
				mode := map[bool]string{true: "listener", false: "listener_http"}[udp]
				conf := sut.Config(nats.srv, mode, sut.Unique())
				conf.BatchMaxCount = count
				conf.BatchMaxSize = 20 * datasize.MB
				col := sut.Collect(nats.nc, conf.NATSSubject[0])
				defer col.Close()
				m := sut.Watch(nats.nc, conf.NATSSubjectMonitor)
				defer m.Close()
				l := sut.MustStart(conf)
				defer sut.StopLater(l, conf)
				u := sut.DialUDP(conf.Port, m)
				defer u.Close()
				hc := httpClient()
				defer hc.CloseIdleConnections()
				for _, w := range writes {
					if udp {
						if err := u.Send(w, wait); err != nil {
							return err
						}
					} else if status, err := send(hc, conf.Port, "", w, false); err != nil || status != 204 {
						return hz.Softf("POST failed: %v %d", err, status)
					}
				}
				arrived := col.Wait(wait, func(ms []sut.Msg) bool { return len(ms) >= len(want) })
				if udp {
					if err := u.Sync(wait); err != nil {
						return err
					}
					if u.Dropped() > 0 {
						return hz.Softf("the kernel dropped datagrams")
					}
				}
				if !m.Fresh(wait, "sent") {
					return hz.Softf("no metrics")
				}
				col.Fence()
				for i, msg := range col.Msgs() {
					if i >= len(want) {
						return fmt.Errorf("%d messages were published, not %d: %.100q", len(col.Msgs()), len(want), msg.Data)
					}
					if !bytes.Equal(msg.Data, want[i]) {
						return fmt.Errorf("message %d is %.60q of %d bytes, not %.60q of %d", i, msg.Data, len(msg.Data), want[i], len(want[i]))
					}
				}
				if !arrived {
					return hz.Softf("%d messages were published, not %d", len(col.Msgs()), len(want))
				}
				for name, n := range map[string]int{"failed_nats_publish": refused, "received": len(writes), "read_errors": 0} {
					if got := m.Get(name); got != int64(n) {
						return fmt.Errorf("%s is %d, not %d", name, got, n)
					}
				}
				return nil
			})
			c.LabelIf(udp, "UDP")
			c.LabelIf(!udp, "HTTP")
			c.LabelIf(refused > 0, "some refused")
			desc := fmt.Sprintf("udp %v max_payload %d count %d writes of", udp, payload, count)
			for _, w := range writes {
				desc += fmt.Sprintf(" %d", len(w))
			}
			if refused > 0 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return fmt.Sprintf("%s: %d refused, %d published", desc, refused, len(want)) })
		})
}

// A downsampler's life in which it emits several times.
type refusals struct {
	payload int
	line    int   // bytes of a line of output
	rounds  []int // lines
}

func (r refusals) String() string {
	return fmt.Sprintf("max_payload %d, %d bytes per line, lines %d", r.payload, r.line, r.rounds)
}

func TestC43_Downsampler(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 8, Thorough: 120,
		Rule: "eight downsamplers at a time whose NATS servers only accept messages up to a generated size get series for one period after the other; what is emitted up to this size must be published, and the rest counted in failed_nats_publish once per message; non-trivial: something is refused (each downsampler is a case)"},
		func(c *hz.C) {
			var rs []refusals
			for i := 0; i < 8; i++ {
				r := refusals{payload: hz.One(c.T, "max_payload", 8192, 20000, 65536, 300000), line: hz.One(c.T, "line", 100, 500, 2000)}
				refused := false
				for n := hz.Int(c.T, 1, 3, "rounds"); n > 0; n-- {
					fit := r.payload / r.line
					k := hz.One(c.T, "lines", 1, fit/2+1, fit, fit+1, 2*fit+1)
					if hz.Chance(c.T, 25, "large") {
						// The last part is small enough.
						k = hz.One(c.T, "parts", 1, 2)*(maxMsg/r.line) + hz.One(c.T, "rest", 1, fit, fit+1)
					}
					refused = refused || k > fit
					r.rounds = append(r.rounds, k)
				}
				r.rounds = append(r.rounds, 1)
				rs = append(rs, r)
				c.Sub(refused, r.String())
			}
			c.Sample(func() string { return rs[0].String() })
			for _, r := range rs {
				limitedNATS(r.payload)
			}
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(rs))
				var wg sync.WaitGroup
				for i, r := range rs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = r.run(wait)
					}()
				}
				wg.Wait()
				var soft error
				for i, err := range errs {
					if _, ok := err.(*hz.Soft); ok {
						soft = err
					} else if err != nil {
						return fmt.Errorf("%w: %v", err, rs[i])
					}
				}
				return soft
			})
		})
}

func (r refusals) run(wait time.Duration) error {
	nats := limitedNATS(r.payload)
	conf := sut.Config(nats.srv, "downsampler", sut.Unique())
	conf.DownsamplePeriod = config.NewDuration(500 * time.Millisecond)
	out := conf.NATSSubject[0] + conf.DownsampleSuffix
	col := sut.Collect(nats.nc, out)
	defer col.Close()
	m := sut.Watch(nats.nc, conf.NATSSubjectMonitor)
	defer m.Close()
	comp := sut.MustStart(conf)
	defer sut.StopLater(comp, conf)

	refused := 0
	for round, n := range r.rounds {
		ts := time.Now().UnixNano()
		var msg []byte
		for i := 0; i < n; i++ {
			// A line is as long as what it becomes.
			start := len(msg)
			msg = fmt.Appendf(msg, "m,i=%d-%06d,p=", round, i)
			msg = append(msg, bytes.Repeat([]byte{'x'}, r.line-(len(msg)-start)-len(" v=1 \n")-19)...)
			msg = fmt.Appendf(msg, " v=1 %d\n", ts)
			if len(msg)-start != r.line {
				hz.Infra("wrong length %d", len(msg)-start)
			}
			if len(msg)+r.line > r.payload || i == n-1 {
				sut.Publish(nats.nc, conf.NATSSubject[0], msg)
				msg = nil
			}
		}
		sut.Flush(nats.nc)

		// All lines are equally long, so it's clear where it is cut.
		lines := 0
		for left := n; left > 0; {
			k := min(left, maxMsg/r.line)
			if k*r.line > r.payload {
				refused++
			} else {
				lines += k
			}
			left -= k
		}
		arrived := col.WaitBytes(wait, lines*r.line) && m.WaitFor(wait, "failed_nats_publish", int64(refused))
		if !m.Fresh(wait, "failed_nats_publish") {
			return hz.Softf("no metrics")
		}
		col.Fence()
		if m.Get("invalid_timestamps") > 0 {
			return hz.Softf("lines were late")
		}
		got := ref.Lines(bytes.Join(sut.By(col.Msgs(), out), nil))
		seen := map[string]bool{}
		for _, l := range got {
			id, _, _ := bytes.Cut(l, []byte(",p="))
			var a, b int
			if k, _ := fmt.Sscanf(string(id), "m,i=%d-%06d", &a, &b); k != 2 || a != round || b >= n || len(l) != r.line || seen[string(id)] {
				return fmt.Errorf("unexpected line %.100q", l)
			}
			seen[string(id)] = true
		}
		if !arrived {
			return hz.Softf("%d lines were published and failed_nats_publish is %d, not %d and %d, after %d lines", len(got), m.Get("failed_nats_publish"), lines, refused, n)
		}
		if len(got) != lines || m.Get("failed_nats_publish") != int64(refused) {
			return fmt.Errorf("%d lines were published and failed_nats_publish is %d, not %d and %d, after %d lines", len(got), m.Get("failed_nats_publish"), lines, refused, n)
		}
		col.Reset()
	}
	return nil
}
