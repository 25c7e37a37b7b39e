package filter

import (
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

func TestC13_Counts(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1100, Thorough: 50000,
		Rule: "a filter with 1 to 6 workers and generated rules, some of which can't be published, gets messages of passing, rejected, outdated and malformed lines; its counters are compared with the true counts; non-trivial: lines of at least three of these categories"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 0, 8)
			setSubjects(c, rules, false)
			badRule := -1
			badJunk := hz.Chance(c.T, 15, "junkyard fails")
			if len(rules) > 0 && hz.Chance(c.T, 25, "rule fails") {
				// Publishing to an empty subject fails.
				badRule = hz.Int(c.T, 0, len(rules)-1, "which")
				rules[badRule].Subject = ""
			}
			workers := hz.One(c.T, "workers", 1, 1, 2, 3, 6)
			type item struct {
				line  []byte
				shift time.Duration
				ts    bool
			}
			var msgs [][]item
			id := 0
			for n := hz.Int(c.T, 1, 8, "messages"); n > 0; n-- {
				var msg []item
				for l := hz.Int(c.T, 1, 10, "lines"); l > 0; l-- {
					id++
					var it item
					switch hz.One(c.T, "kind", "good", "good", "ts", "old", "malformed", "malformed old") {
					case "good":
						it.line = gen.Line(c.T, fmt.Sprint(id), gen.Opts{NoFields: true, Odd: true})
					case "ts":
						it = item{gen.Line(c.T, fmt.Sprint(id), gen.Opts{}), time.Duration(hz.Int(c.T, -300, 300, "s")) * time.Second, true}
					case "old":
						it = item{gen.Line(c.T, fmt.Sprint(id), gen.Opts{}), time.Duration(hz.One(c.T, "h", -1, 1, -1000, 1000)) * time.Hour, true}
					case "malformed":
						it.line = []byte(hz.One(c.T, "bad", "cpu,host v=1", "cpu,=x v=1", "cpu,host= v=1", "cpu, v=1", "cpu,a=b,,c=d v=1", ",", "m,a"))
					case "malformed old":
						it.line = []byte("cpu,host v=1 15")
					}
					msg = append(msg, it)
				}
				msgs = append(msgs, msg)
			}
			switch {
			case hz.Chance(c.T, 1, "many lines"):
				for n := hz.One(c.T, "lines", 150, 300, 3000); len(msgs[0]) < n; {
					msgs[0] = append(msgs[0], msgs[0]...)
				}
			case hz.Chance(c.T, 1, "many messages"):
				for n := hz.One(c.T, "number", 100, 500, 1500); len(msgs) < n; {
					msgs = append(msgs, msgs...)
				}
			}
			seen := map[string]bool{}
			var desc string
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				want := map[string]int64{"passed": 0, "rejected": 0, "processed": 0, "invalid_time": 0, "failed_nats_publish": 0, "nats_dropped": 0}
				for _, r := range rules {
					s := r.Subject
					if s != "" {
						s = "P." + s
					}
					want["triggered,rule="+s] = 0
				}
				start := time.Now()
				var out [][]byte
				for _, msg := range msgs {
					var b []byte
					failed := map[int]bool{}
					for _, it := range msg {
						line := append([]byte(nil), it.line...)
						if it.ts {
							line = append(line, " "+strconv.FormatInt(start.Add(it.shift).UnixNano(), 10)...)
						}
						line = append(line, '\n')
						b = append(b, line...)
						want["processed"]++
						ts, _, ok := ref.Timestamp(line)
						d := time.Unix(0, ts).Sub(start)
						idx, _, parsed := ref.Route(rules, line)
						switch {
						case ok && (d > 10*time.Minute || d < -10*time.Minute):
							want["invalid_time"]++
							seen["old"] = true
						case !parsed:
							seen["malformed"] = true
						case idx < 0:
							want["rejected"]++
							seen["rejected"] = true
							if badJunk && !failed[idx] {
								failed[idx] = true
								want["failed_nats_publish"]++
							}
						default:
							want["passed"]++
							seen["passed"] = true
							s := rules[idx].Subject
							if s != "" {
								s = "P." + s
							}
							want["triggered,rule="+s]++
							if idx == badRule && !failed[idx] {
								failed[idx] = true
								want["failed_nats_publish"]++
							}
						}
					}
					out = append(out, b)
				}
				desc = fmt.Sprintf("%d workers, rules: %s; messages: %.400q", workers, rulesString(rules), out)
				r := startRig(rules, func(conf *config.Config) {
					conf.Workers = workers
					if badJunk {
						conf.NATSSubjectJunkyard = ""
					}
				})
				defer r.close()
				for _, m := range out {
					r.publish(m)
				}
				return r.counts(want, wait)
			})
			for k := range seen {
				c.Label(k)
			}
			c.LabelIf(badRule >= 0, "failing rule")
			c.LabelIf(badJunk, "failing junkyard")
			c.Label("%d workers", workers)
			if len(seen) >= 3 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

// counts waits for the counters to have some values, and checks that
// they stay like that. In the keys, P stands for the rig's prefix.
func (r *rig) counts(want map[string]int64, wait time.Duration) error {
	real := map[string]int64{}
	for k, v := range want {
		if len(k) > 17 && k[:17] == "triggered,rule=P." {
			k = "triggered,rule=" + r.prefix + k[16:]
		}
		real[k] = v
	}
	equal := func(vals map[string]int64) bool {
		for k, v := range real {
			if got, ok := vals[k]; !ok || got != v {
				return false
			}
		}
		return true
	}
	diff := func() string {
		vals := r.m.All()
		s := ""
		for _, k := range sortedKeys(want) {
			rk := k
			if len(k) > 17 && k[:17] == "triggered,rule=P." {
				rk = "triggered,rule=" + r.prefix + k[16:]
			}
			if got, ok := vals[rk]; !ok {
				s += fmt.Sprintf(" %s is not reported;", k)
			} else if got != want[k] {
				s += fmt.Sprintf(" %s is %d, not %d;", k, got, want[k])
			}
		}
		return s
	}
	if !r.m.Wait(wait, equal) {
		return hz.Softf("counters:%s", diff())
	}
	if !r.m.Fresh(wait, "processed") {
		return hz.Softf("no metrics")
	}
	if s := diff(); s != "" {
		return fmt.Errorf("counters:%s", s)
	}
	if len(r.m.Bad()) > 0 {
		return fmt.Errorf("malformed metrics: %.300q", r.m.Bad())
	}
	sum := int64(0)
	for k, v := range r.m.All() {
		if len(k) > 9 && k[:9] == "triggered" {
			sum += v
			if _, ok := real[k]; !ok {
				return fmt.Errorf("there are more triggered counters than rules")
			}
		}
	}
	if sum != want["passed"] {
		return fmt.Errorf("the triggered counters sum up to %d, not to %d", sum, want["passed"])
	}
	return nil
}

// Messages which NATS drops because the filter is too slow.
func TestC13_Dropped(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 300, Thorough: 8000,
		Rule: "a filter whose subscription may hold only a few bytes gets messages of which some must be dropped; processed and dropped messages must add up; non-trivial: both occur"},
		func(c *hz.C) {
			limit := hz.One(c.T, "limit", 60, 100, 1000)
			var sizes []int
			must, fits := 0, 0
			for n := hz.Int(c.T, 1, 20, "messages"); n > 0; n-- {
				s := hz.One(c.T, "size", 20, 40, limit-1, limit+1, 2*limit, 5000)
				sizes = append(sizes, s)
				if s > limit {
					must++
				} else {
					fits++
				}
			}
			slow := hz.Chance(c.T, 30, "slow")
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				r := startRig(nil, func(conf *config.Config) { conf.NATSMaxPendingSize = datasize.ByteSize(limit) })
				defer r.close()
				for _, s := range sizes {
					b := make([]byte, s)
					for i := range b {
						b[i] = 'x'
					}
					copy(b, "m f=")
					b[s-1] = '\n'
					r.publish(b)
					if slow {
						sut.Flush(sut.Conn())
						time.Sleep(time.Millisecond)
					}
				}
				if !r.m.Wait(wait, func(v map[string]int64) bool {
					return v["processed"]+v["nats_dropped"] >= int64(len(sizes)) && v["rejected"] == v["processed"]
				}) || !r.m.Fresh(wait, "processed") {
					return hz.Softf("%d messages were sent, %d lines processed and %d messages dropped", len(sizes), r.m.Get("processed"), r.m.Get("nats_dropped"))
				}
				p, d := r.m.Get("processed"), r.m.Get("nats_dropped")
				if p+d != int64(len(sizes)) || d < int64(must) || p != r.m.Get("rejected") {
					return fmt.Errorf("sizes %v, limit %d: processed %d, rejected %d, nats_dropped %d", sizes, limit, p, r.m.Get("rejected"), d)
				}
				r.col.Fence()
				if n := len(r.col.Msgs()); int64(n) != p {
					return fmt.Errorf("processed %d messages but %d were published", p, n)
				}
				return nil
			})
			if must > 0 && fits > 0 {
				c.NonTrivial(limit, sizes)
			}
			c.Sample(func() string { return fmt.Sprintf("limit %d: %v", limit, sizes) })
		})
}
