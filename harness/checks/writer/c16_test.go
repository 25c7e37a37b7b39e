package writer

import (
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

func TestC16_Limits(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1100, Thorough: 40000,
		Rule: "a writer with generated count and size limits gets generated messages; every request is compared with a model of the limits; non-trivial: at least two batches, one of them of several messages"},
		func(c *hz.C) {
			size := hz.One(c.T, "batch_max_size", 50, 100, 1000, 10000, 100000, 10<<20)
			if hz.Chance(c.T, 50, "any size") {
				size = hz.Int(c.T, 40, 3000, "size")
			}
			count := hz.One(c.T, "batch_max_count", 1, 2, 3, 5, 10, 1000)
			var msgs [][]byte
			for n := hz.Int(c.T, 1, 40, "messages"); n > 0; n-- {
				m := message(c.T, n, 6000)
				switch hz.One(c.T, "adjust", "", "", "at limit", "below", "above") {
				case "at limit", "below", "above":
					// Make a batch reach exactly the limit, or miss it.
					d := map[string]int{"at limit": 0, "below": -1, "above": 1}[hz.One(c.T, "by", "at limit", "below", "above")]
					if size < 20000 {
						m = exactly(n, max(15, size/hz.One(c.T, "fraction", 1, 2, 3)+d))
					}
				}
				msgs = append(msgs, m)
			}
			// The model.
			var want [][]byte
			var cur []byte
			curN, batches, combined := 0, 0, false
			add := func(m []byte) {
				cur = append(cur, m...)
				curN++
				if curN >= count || len(cur) >= size {
					want = append(want, ref.Split(cur, uint64(size))...)
					combined = combined || curN > 1
					batches++
					cur, curN = nil, 0
				}
			}
			for _, m := range msgs {
				add(m)
			}
			// The last message flushes the batch.
			var flush [][]byte
			if size > 1000000 {
				for curN > 0 {
					f := exactly(1000+len(flush), 20)
					flush = append(flush, f)
					add(f)
				}
			} else {
				flush = append(flush, exactly(1000, size))
				add(flush[0])
			}
			desc := fmt.Sprintf("count %d, size %d, messages of%s", count, size, lens(msgs))
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				r := start(nil, func(conf *config.Config) {
					conf.BatchMaxSize = datasize.ByteSize(size)
					conf.BatchMaxCount = count
				})
				defer r.close()
				for _, m := range append(append([][]byte{}, msgs...), flush...) {
					r.publish(0, m)
				}
				r.influx.Wait(wait, func(reqs []*sut.Request) bool { return len(reqs) >= len(want) })
				return compare(desc, r.bodies(), want)
			})
			if batches > 1 && combined {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

// exactly makes a message of n bytes.
func exactly(id, n int) []byte {
	s := fmt.Sprintf("m,i=%d f=", id)
	if len(s)+1 > n {
		s = s[:n-1]
	}
	return []byte(s + text(id, n-1-len(s)) + "\n")
}

type ageRun struct {
	age    time.Duration
	groups [][]int // delays before each message, in percent of the age
	pause  []int   // after each group, ms
}

func TestC16_Age(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 4, Thorough: 120, Budget: time.Duration(hz.Pick(80, 900)) * time.Second,
		Rule: "24 writers at a time with generated maximum ages get groups of messages spread over time; each group must be posted as one request, not before the age after its first message and within little more than a second after it; non-trivial: a group of several messages"},
		func(c *hz.C) {
			var runs []ageRun
			several := false
			for i := 0; i < 24; i++ {
				r := ageRun{age: time.Duration(hz.One(c.T, "age", 100, 300, 600, 1200, 1700, 5000)) * time.Millisecond}
				most := 2
				if r.age > 2*time.Second {
					most = 1
				}
				for g := hz.Int(c.T, 1, most, "groups"); g > 0; g-- {
					var ds []int
					at := 0
					for m := hz.Int(c.T, 1, 5, "messages"); m > 0; m-- {
						d := 0
						if len(ds) > 0 {
							d = hz.Int(c.T, 0, 30, "delay")
						}
						if at+d > 70 {
							break
						}
						at += d
						ds = append(ds, d)
					}
					if at < 70 && hz.Chance(c.T, 40, "late") {
						ds = append(ds, 70-at)
					}
					several = several || len(ds) > 1
					r.groups = append(r.groups, ds)
					r.pause = append(r.pause, hz.One(c.T, "pause", 0, 30, 500))
				}
				runs = append(runs, r)
			}
			hz.Timed(c, time.Second, func(wait time.Duration) error {
				errs := make([]error, len(runs))
				var wg sync.WaitGroup
				for i := range runs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = runs[i].run(wait)
					}()
				}
				wg.Wait()
				var soft error
				for _, err := range errs {
					if _, ok := err.(*hz.Soft); ok {
						soft = err
					} else if err != nil {
						return err
					}
				}
				return soft
			})
			if several {
				c.NonTrivial(fmt.Sprint(runs))
			}
			c.Sample(func() string { return fmt.Sprintf("%+v", runs[:4]) })
		})
}

func (a ageRun) run(slack time.Duration) error {
	r := start(nil, func(conf *config.Config) {
		conf.BatchMaxCount = 1000
		conf.BatchMaxAge = config.NewDuration(a.age)
	})
	defer r.close()
	id := 0
	for g, delays := range a.groups {
		var want []byte
		var first, firstSeen, last time.Time
		for i, d := range delays {
			time.Sleep(a.age * time.Duration(d) / 100)
			id++
			m := exactly(id, 20)
			want = append(want, m...)
			if i == 0 {
				first = time.Now()
			}
			r.publish(0, m)
			sut.Flush(sut.Conn())
			if i == 0 {
				firstSeen = time.Now()
			}
			last = time.Now()
		}
		if last.Sub(first) > a.age*9/10 {
			return hz.Softf("too slow")
		}
		r.influx.Wait(time.Until(firstSeen.Add(a.age+time.Second+slack)), func(reqs []*sut.Request) bool { return len(reqs) > g })
		reqs := r.influx.Reqs()
		if len(reqs) < g+1 {
			return hz.Softf("a batch was not posted more than a second after the maximum age of %v", a.age)
		}
		if at := reqs[g].At; at.Before(first.Add(a.age)) {
			return fmt.Errorf("a batch was posted before the maximum age of %v (%d of %d bytes)", a.age, len(reqs[g].Body), len(want))
		} else if at.After(firstSeen.Add(a.age + time.Second + slack)) {
			return hz.Softf("a batch was posted more than a second after the maximum age of %v", a.age)
		}
		if string(reqs[g].Body) != string(want) {
			// The messages might have been received too late.
			return hz.Softf("a batch has %d bytes, not %d", len(reqs[g].Body), len(want))
		}
		time.Sleep(time.Duration(a.pause[g]) * time.Millisecond)
	}
	if n := len(r.influx.Reqs()); n > len(a.groups) {
		return fmt.Errorf("%d batches were posted, not %d", n, len(a.groups))
	}
	return nil
}
