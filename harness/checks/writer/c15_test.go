package writer

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

const pokeLine = "poke,"

// poke publishes small messages until the batches with everything
// published before must have been sent.
func (r *rig) poke(wait time.Duration, sent *[][]byte, done func([]*sut.Request) bool) bool {
	end := time.Now().Add(wait)
	for {
		if r.influx.Wait(3*time.Millisecond, done) {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		r.pokes++
		p := []byte(fmt.Sprintf("%sn=%d v=1\n", pokeLine, r.pokes))
		*sent = append(*sent, p)
		r.publish(0, p)
	}
}

// drop removes the lines which are pokes.
func dropPokes(b []byte) []byte {
	var out []byte
	for _, l := range ref.Lines(b) {
		if !bytes.HasPrefix(l, []byte(pokeLine)) {
			out = append(out, l...)
		}
	}
	return out
}

func TestC15_Delivery(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 700, Thorough: 20000,
		Rule: "a writer with generated limits, subjects, worker count, database name and credentials gets generated messages; the requests received by a fake InfluxDB are compared with them; non-trivial: at least two requests, and lines from more than one message in one of them or one message cut into several"},
		func(c *hz.C) {
			size := hz.One(c.T, "batch_max_size", 1, 20, 100, 1000, 10000, 70000, 200000, 10<<20)
			count := hz.One(c.T, "batch_max_count", 1, 2, 5, 20, 1000)
			workers := hz.One(c.T, "workers", 1, 1, 2, 3, 8)
			subjects := hz.One(c.T, "subjects", 1, 1, 2, 3)
			maxLine := 1 << 20
			exact := workers == 1 && subjects == 1
			if !exact {
				// Lines which are too long could only be put together
				// again if the order was known.
				maxLine = size
				if size < 100 {
					size, maxLine = 100, 100
				}
			}
			db := hz.One(c.T, "db", "db", "metrics", "a b", "a&b=c", "x%20y", "ü", "a+b", "q?db=other", "#", "a/b", "&precision=s", "100%", ";")
			if hz.Chance(c.T, 30, "any name") {
				db = rapid.StringOfN(rapid.RuneFrom([]rune("ab &=%+?#/;:,ü'.~é日")), 1, 8, -1).Draw(c.T, "name")
			}
			user, pass := "", ""
			if hz.Chance(c.T, 50, "credentials") {
				user = rapid.StringOfN(rapid.RuneFrom([]rune("abc @/%ü")), 1, 6, -1).Draw(c.T, "user")
				pass = rapid.StringOfN(rapid.RuneFrom([]rune("abc: @/%ü")), 0, 6, -1).Draw(c.T, "pass")
			}
			host := hz.One(c.T, "host", "127.0.0.1", "127.0.0.1", "127.0.0.1", "localhost", "localhost", "localhost", "127.0.0.2", "::1", "[::1]", "0:0::0001")
			ip, header := "127.0.0.1", host
			switch {
			case strings.Contains(host, ":"):
				ip, header = "::1", "["+strings.Trim(host, "[]")+"]"
				if !sut.HasIPv6() {
					ip, host, header = "127.0.0.1", "127.0.0.1", "127.0.0.1"
				}
			case host != "localhost":
				ip = host
			}
			var msgs [][]byte
			var where []int
			for n := hz.Int(c.T, 1, 25, "messages"); n > 0; n-- {
				m := message(c.T, n, maxLine)
				if size > 500 && exact && hz.Chance(c.T, 3, "long line") {
					m = []byte(fmt.Sprintf("m,i=%d f=\"%s\"\n", n, text(n, hz.One(c.T, "length", 30000, 200000, 900000))))
				}
				// Not too many requests.
				if most := max(100, size*100); len(m) > most {
					m = m[len(m)-most:]
				}
				msgs = append(msgs, m)
				where = append(where, hz.Int(c.T, 0, subjects-1, "subject"))
			}
			desc := fmt.Sprintf("size %d, count %d, %d workers, db %q, user %q, pass %q; messages of%s bytes on subjects %v", size, count, workers, db, user, pass, lens(msgs), where)
			requests, mixed := 0, false
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				mixed = false
				r := startWith(sut.NewInfluxOn(ip, nil), func(conf *config.Config) {
					conf.BatchMaxSize = datasize.ByteSize(size)
					conf.BatchMaxCount = count
					conf.BatchMaxAge = config.NewDuration(10 * time.Millisecond)
					conf.Workers = workers
					conf.DBName, conf.InfluxDBUser, conf.InfluxDBPass = db, user, pass
					conf.InfluxDBAddress = host
					p := conf.NATSSubject[0]
					for i := 1; i < subjects; i++ {
						conf.NATSSubject = append(conf.NATSSubject, fmt.Sprintf("%s%d", p, i))
					}
				})
				defer r.close()
				var sent [][]byte
				total := 0
				for i, m := range msgs {
					r.publish(where[i], m)
					sent = append(sent, m)
					total += len(m)
				}
				seen, n := 0, 0 // requests and bytes
				delivered := r.poke(wait, &sent, func(reqs []*sut.Request) bool {
					for ; seen < len(reqs); seen++ {
						if exact {
							n += len(reqs[seen].Body)
						} else {
							n += len(dropPokes(reqs[seen].Body))
						}
					}
					return n >= total
				})
				if n := r.m.Get("failed_writes"); !delivered && n > 0 {
					return hz.Softf("failed_writes is %d, and not everything was delivered", n)
				}
				if err := r.settled(wait, map[string]int64{"received": int64(len(sent)), "failed_writes": 0}); err != nil {
					return err
				}
				// Requests are complete when they are counted.
				var reqs []*sut.Request
				end := time.Now().Add(wait)
				for {
					n := len(r.influx.Reqs())
					if !r.m.Fresh(wait, "received") {
						return hz.Softf("no metrics")
					}
					reqs = r.influx.Reqs()
					if n == len(reqs) && r.m.Get("write_requests") == int64(n) {
						break
					}
					if time.Now().After(end) {
						return hz.Softf("write_requests is %d after %d requests", r.m.Get("write_requests"), n)
					}
				}
				requests = len(reqs)
				for _, q := range reqs {
					lines := ref.Lines(q.Body)
					first := fmt.Sprintf("i=%.3s", bytes.TrimPrefix(lines[0], []byte("m,i=")))
					last := fmt.Sprintf("i=%.3s", bytes.TrimPrefix(lines[len(lines)-1], []byte("m,i=")))
					mixed = mixed || first != last
					if err := checkRequest(q, header, r.influx.Port, db, user, pass, size); err != nil {
						return err
					}
				}
				got := sut.Bodies(reqs)
				if exact {
					want := bytes.Join(sent, nil)
					if len(got) > len(want) || !bytes.Equal(got, want[:len(got)]) {
						i := 0
						for i < len(got) && i < len(want) && got[i] == want[i] {
							i++
						}
						return fmt.Errorf("%s: the requests differ from the messages at byte %d: %.200q instead of %.200q", desc, i, got[i:], want[i:])
					}
				} else {
					if err := sameLines(got, sent, subjects > 1 && workers == 1, where); err != nil {
						return fmt.Errorf("%s: %v", desc, err)
					}
				}
				if !delivered {
					return hz.Softf("not everything was delivered")
				}
				return nil
			})
			c.Label("%d workers", workers)
			c.Label("%d subjects", subjects)
			c.LabelIf(exact, "exact order")
			if requests > 1 && (mixed || exact) {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

func checkRequest(q *sut.Request, host string, port int, db, user, pass string, size int) error {
	switch {
	case q.BodyErr != nil:
		return hz.Softf("incomplete request: %v", q.BodyErr)
	case q.Method != "POST" || q.Path != "/write":
		return fmt.Errorf("the request is %s %s", q.Method, q.Path)
	case len(q.Query) != 1 || len(q.Query["db"]) != 1 || q.Query["db"][0] != db:
		return fmt.Errorf("the database %q is given as %q", db, q.RawQuery)
	case q.Host != fmt.Sprintf("%s:%d", host, port):
		return fmt.Errorf("the Host header is wrong: %q for %q", q.Host[:min(len(q.Host), len(host))], host)
	case q.HasAuth != (user != "") || q.HasAuth && (q.User != user || q.Pass != pass):
		return fmt.Errorf("credentials are %v %q %q instead of %q %q", q.HasAuth, q.User, q.Pass, user, pass)
	case len(q.Body) == 0:
		return fmt.Errorf("empty request")
	case len(q.Body) > size:
		return fmt.Errorf("a request has %d bytes, with a maximum of %d", len(q.Body), size)
	case !bytes.HasSuffix(q.Body, []byte("\n")) && (len(q.Body) != size || bytes.Contains(q.Body, []byte("\n"))):
		return fmt.Errorf("a request was cut within a line: %.300q", q.Body)
	}
	return nil
}

// sameLines compares lines irrespective of their order, or, with
// order, with the lines of each subject in order.
func sameLines(got []byte, sent [][]byte, order bool, where []int) error {
	left := map[string]int{}
	subject := map[string]int{}
	for i, m := range sent {
		for _, l := range ref.Lines(m) {
			left[string(l)]++
			if i < len(where) {
				subject[string(l)] = where[i]
			}
		}
	}
	seqs := map[int][]byte{}
	for _, l := range ref.Lines(got) {
		left[string(l)]--
		if left[string(l)] < 0 {
			return fmt.Errorf("the line %.200q is not one of those sent, or was repeated", l)
		}
		s := subject[string(l)]
		seqs[s] = append(seqs[s], l...)
	}
	for _, m := range sent {
		for _, l := range ref.Lines(m) {
			if left[string(l)] > 0 && !bytes.HasPrefix(l, []byte(pokeLine)) {
				return hz.Softf("the line %.200q was not delivered", l)
			}
		}
	}
	if order {
		want := map[int][]byte{}
		for i, m := range sent {
			w := 0
			if i < len(where) {
				w = where[i]
			}
			want[w] = append(want[w], m...)
		}
		for s, g := range seqs {
			if len(g) > len(want[s]) || !bytes.Equal(g, want[s][:len(g)]) {
				return fmt.Errorf("the lines of one subject are out of order: %.300q instead of %.300q", g, want[s])
			}
		}
	}
	return nil
}

// What is published while InfluxDB does not respond waits for it, up to
// the maximum size configured.
func TestC15_Burst(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30, Thorough: 600,
		Rule: "a writer gets thousands of messages while a fake InfluxDB holds its responses back, with their total size below nats_max_pending_size; every line must be delivered once; non-trivial: at least 5000 messages"},
		func(c *hz.C) {
			workers := hz.One(c.T, "workers", 1, 1, 2, 4)
			count := hz.One(c.T, "batch_max_count", 1, 100, 2000, 20000)
			n := hz.One(c.T, "messages", 500, 3000, 10000, 30000, 70000, 150000)
			if hz.Chance(c.T, 10, "lots") {
				n = 600000
			}
			pad := hz.One(c.T, "pad", 0, 0, 30, 200)
			if hz.Chance(c.T, 15, "big") {
				n, pad = 3000, 20000
			}
			if count == 1 {
				n = min(n, 3000*workers)
			}
			if count == 100 {
				n = min(n, 150000)
			}
			subjects := hz.One(c.T, "subjects", 1, 1, 2)
			pending := 200
			for p := 1; p < 200; p *= 2 {
				// The limit is per subject.
				if n*(pad+30) < p<<20 && hz.Chance(c.T, 50, "limit") {
					pending = p
					break
				}
			}
			desc := fmt.Sprintf("%d workers, count %d, %d messages of about %d bytes on %d subjects, at most %d MB", workers, count, n, pad+20, subjects, pending)
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				gate := make(chan struct{})
				r := start(func(int, *sut.Request) sut.Outcome { <-gate; return sut.Outcome{} }, func(conf *config.Config) {
					conf.BatchMaxSize = 10 << 20
					conf.BatchMaxCount = count
					conf.BatchMaxAge = config.NewDuration(20 * time.Millisecond)
					conf.Workers = workers
					conf.NATSMaxPendingSize = datasize.ByteSize(pending) << 20
					p := conf.NATSSubject[0]
					for i := 1; i < subjects; i++ {
						conf.NATSSubject = append(conf.NATSSubject, fmt.Sprintf("%s%d", p, i))
					}
				})
				defer r.close()
				total := 0
				fill := text(n, pad)
				begin := time.Now()
				for i := 0; i < n; i++ {
					m := fmt.Appendf(nil, "m,i=%d f=1%s\n", i, fill)
					total += len(m)
					r.publish(i%subjects, m)
				}
				sut.Flush(sut.Conn())
				if time.Since(begin) > 20*time.Second {
					close(gate)
					return hz.Softf("publishing takes too long")
				}
				// The writer's client gets the rest.
				time.Sleep(100 * time.Millisecond)
				close(gate)
				seen, size := 0, 0
				delivered := r.influx.Wait(wait, func(reqs []*sut.Request) bool {
					for ; seen < len(reqs); seen++ {
						size += len(reqs[seen].Body)
					}
					return size >= total
				})
				had := make([]bool, n)
				for _, q := range r.influx.Reqs() {
					for _, l := range ref.Lines(q.Body) {
						var i int
						if _, err := fmt.Sscanf(string(l[:min(len(l), 20)]), "m,i=%d f=1", &i); err != nil || i < 0 || i >= n || len(l) < pad || string(l) != fmt.Sprintf("m,i=%d f=1%s\n", i, fill) {
							return fmt.Errorf("%s: strange line %.100q", desc, l)
						}
						if had[i] {
							return fmt.Errorf("%s: line %d came twice", desc, i)
						}
						had[i] = true
					}
				}
				if !delivered {
					return hz.Softf("%s: some messages are missing", desc)
				}
				if !r.m.WaitFor(wait, "received", int64(n)) || !r.m.Fresh(wait, "received") {
					return hz.Softf("%s: received is not %d", desc, n)
				}
				for _, subject := range r.conf.NATSSubject {
					if d := r.m.Get("nats_dropped,subject=" + subject); d != 0 {
						return fmt.Errorf("%s: nats_dropped is %d", desc, d)
					}
				}
				return nil
			})
			c.Label("%d messages", n)
			if n >= 5000 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}
