package filter

import (
	"errors"
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
)

// Through a running filter. Timestamps stay 20 s away from the
// boundaries, which move while the filter works.
func TestC11_Filter(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 800, Thorough: 25000,
		Rule: "a filter with a generated max_time_delta gets lines with timestamps inside, outside and far outside of the window, of any length; what it publishes and counts as invalid_time is compared with the window; non-trivial: some lines pass and some don't"},
		func(c *hz.C) {
			delta := hz.One(c.T, "delta", time.Minute, 10*time.Minute, time.Hour, 24*time.Hour, 20000*time.Hour, 200*365*24*time.Hour)
			rules := gen.Rules(c.T, 0, 2)
			setSubjects(c, rules, false)
			type item struct {
				line   []byte
				kind   string
				offset time.Duration
				text   string
			}
			var items []item
			for n := hz.Int(c.T, 1, 12, "lines"); n > 0; n-- {
				it := item{line: gen.Line(c.T, fmt.Sprint(n), gen.Opts{Odd: true}), kind: hz.One(c.T, "kind", "none", "near", "in", "out", "out", "extreme", "text")}
				if hz.Chance(c.T, 10, "short") {
					it.line = []byte("m f=1")
				}
				sign := time.Duration(hz.One(c.T, "sign", 1, -1))
				switch it.kind {
				case "near":
					it.offset = sign * time.Duration(hz.Int(c.T, 0, 1000000, "ns"))
				case "in":
					it.offset = sign * (delta - 20*time.Second - time.Duration(hz.Int(c.T, 0, 15000, "ms"))*time.Millisecond)
				case "out":
					it.offset = sign * (delta + 20*time.Second + time.Duration(hz.Int(c.T, 0, 1<<30, "us"))*time.Microsecond)
				case "extreme":
					it.text = hz.One(c.T, "extreme", " 9223372036854775807", " -9223372036854775808", " 0", " 1", " -1", " 1500000000", " 1500000000000", " 99999999999999999")
				case "text":
					it.text = hz.One(c.T, "text", " 1.5", " x", " 12i", " 99999999999999999999", "  ", " -")
				}
				items = append(items, it)
			}
			passed, dropped := 0, 0
			var desc string
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				passed, dropped = 0, 0
				start := time.Now()
				var msg []byte
				for _, it := range items {
					line := append([]byte(nil), it.line...)
					switch {
					case it.text != "":
						line = append(line, it.text...)
					case it.kind != "none":
						line = append(line, " "+strconv.FormatInt(start.Add(it.offset).UnixNano(), 10)...)
					}
					msg = append(append(msg, line...), '\n')
				}
				desc = fmt.Sprintf("delta %v: %.300q", delta, msg)
				drop := func(line []byte) bool {
					ts, _, ok := ref.Timestamp(line)
					if !ok || len(line) < 6 {
						return false
					}
					d := time.Unix(0, ts).Sub(start) // saturates
					return d >= delta || d <= -delta
				}
				for _, l := range ref.Lines(msg) {
					if drop(l) {
						dropped++
					} else {
						passed++
					}
				}
				r := startRig(rules, func(conf *config.Config) { conf.MaxTimeDelta = config.NewDuration(delta) })
				defer r.close()
				err := r.process(rules, [][]byte{msg}, drop, wait)
				if time.Since(start) > 15*time.Second {
					return hz.Softf("too slow")
				}
				if err != nil {
					return err
				}
				if !r.m.WaitFor(wait, "processed", int64(len(items)+1)) {
					return hz.Softf("processed is %d", r.m.Get("processed"))
				}
				if !r.m.Fresh(wait, "invalid_time") {
					return hz.Softf("no metrics")
				}
				if n := r.m.Get("invalid_time"); n != int64(dropped) {
					return fmt.Errorf("invalid_time is %d, not %d: %s", n, dropped, desc)
				}
				return nil
			})
			if passed > 0 && dropped > 0 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

// After idle times: timestamps close to the limits, which only the
// current time tells apart.
func TestC11_Idle(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 6, Thorough: 150,
		Rule: "twelve filters at a time get messages with idle times of up to four seconds in between; each has lines whose timestamps are 0.8 to 1.5 s inside or outside of the limits at that time; non-trivial: some filter was idle for at least two seconds and some lines pass and some don't"},
		func(c *hz.C) {
			type step struct {
				idle    time.Duration
				offsets []time.Duration // from now
			}
			type run struct {
				delta time.Duration
				steps []step
			}
			var runs []run
			in, out, idle := 0, 0, false
			for i := 0; i < 12; i++ {
				r := run{delta: hz.One(c.T, "delta", 10*time.Second, 30*time.Second, time.Minute, 10*time.Minute, time.Hour)}
				total := time.Duration(0)
				for n := hz.Int(c.T, 1, 3, "steps"); n > 0; n-- {
					s := step{idle: time.Duration(hz.One(c.T, "idle", 0, 200, 1100, 2000, 2600, 4000)) * time.Millisecond}
					if total += s.idle; total > 5*time.Second {
						break
					}
					idle = idle || s.idle >= 2*time.Second
					for l := hz.Int(c.T, 1, 5, "lines"); l > 0; l-- {
						sign := time.Duration(hz.One(c.T, "sign", 1, -1))
						m := time.Duration(hz.Int(c.T, 800, 1500, "margin")) * time.Millisecond
						if hz.Chance(c.T, 50, "out") {
							out++
							m = -m
						} else {
							in++
						}
						s.offsets = append(s.offsets, sign*(r.delta-m))
					}
					r.steps = append(r.steps, s)
				}
				runs = append(runs, r)
			}
			one := func(r run, wait time.Duration) error {
				f := startRig(nil, func(conf *config.Config) { conf.MaxTimeDelta = config.NewDuration(r.delta) })
				defer f.close()
				for n, s := range r.steps {
					time.Sleep(s.idle)
					start := time.Now()
					var msg []byte
					drop := map[string]bool{}
					for i, o := range s.offsets {
						line := fmt.Sprintf("m,s=%d,l=%d f=1 %d\n", n, i, start.Add(o).UnixNano())
						msg = append(msg, line...)
						drop[line] = o >= r.delta || o <= -r.delta
					}
					err := f.process(nil, [][]byte{msg}, func(l []byte) bool { return drop[string(l)] }, wait)
					if time.Since(start) > 700*time.Millisecond {
						return hz.Softf("too slow")
					}
					if err != nil {
						return fmt.Errorf("after an idle time of %v, with a max_time_delta of %v and offsets %v: %w", s.idle, r.delta, s.offsets, err)
					}
					f.col.Reset()
				}
				return nil
			}
			hz.Attempts(c, 600*time.Millisecond, func(wait time.Duration) error {
				wait = min(wait, 650*time.Millisecond)
				errs := make(chan error, len(runs))
				for _, r := range runs {
					go func() { errs <- one(r, wait) }()
				}
				var soft error
				for range runs {
					err := <-errs
					if s := (*hz.Soft)(nil); errors.As(err, &s) {
						soft = s
					} else if err != nil {
						return err
					}
				}
				return soft
			})
			if idle && in > 0 && out > 0 {
				c.NonTrivial(fmt.Sprint(runs))
			}
			c.Sample(func() string { return fmt.Sprint(runs) })
		})
}
