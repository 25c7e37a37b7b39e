package filter

import (
	"bytes"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/sut"
)

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func TestC14_Parallel(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 350, Thorough: 10000,
		Rule: "1 to 4 filters with 1 to 8 workers each on the same subject, and 1 to 4 concurrent publishers; the published messages must be, as a multiset, those expected for each (message, rule); non-trivial: more than one worker in total and more than 20 messages"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 1, 5)
			setSubjects(c, rules, true)
			filters := hz.One(c.T, "filters", 1, 2, 2, 3, 4)
			workers := hz.One(c.T, "workers", 1, 2, 4, 8)
			publishers := hz.One(c.T, "publishers", 1, 2, 4)
			copies := hz.One(c.T, "copies", 1, 10, 40)
			names := hz.Chance(c.T, 50, "names") // whether the filters have different names
			templates := messages(c, 6, 10, gen.Opts{Odd: true})
			large := 0
			if hz.Chance(c.T, 6, "large") {
				// One message with much output.
				i := hz.Int(c.T, 0, len(templates)-1, "which")
				m := templates[i]
				if m[len(m)-1] != '\n' {
					m = append(m, '\n')
				}
				large = hz.One(c.T, "bytes", 40000, 70000, 140000, 300000, 1000000)
				templates[i] = bytes.Repeat(m, max(large/len(m), 1))
				copies = 1
			}
			desc := fmt.Sprintf("%d filters (different names: %v) x %d workers, %d publishers, %d times %s", filters, names, workers, publishers, copies, msgsString(rules, templates))

			// Each message is made unique by its first line.
			var msgs [][]byte
			want := map[string]int{}
			size := 0
			for i := 0; i < copies; i++ {
				for j, m := range templates {
					u := []byte(fmt.Sprintf("cpu u=%d\n", i*len(templates)+j))
					m = append(u, m...)
					msgs = append(msgs, m)
					for s, outs := range outputs(rules, m, nil) {
						for _, o := range outs {
							want[s+" "+o]++
							size += len(o)
						}
					}
				}
			}
			hz.Attempts(c, 6*time.Second, func(wait time.Duration) error {
				adjust := func(conf *config.Config) { conf.Workers = workers }
				r := startRig(rules, adjust)
				defer r.close()
				for i := 1; i < filters; i++ {
					conf := *r.conf
					if names {
						conf.Name = fmt.Sprintf("%s-%d", conf.Name, i)
					}
					comp := sut.MustStart(&conf)
					defer sut.StopLater(comp, &conf)
				}
				var wg sync.WaitGroup
				for p := 0; p < publishers; p++ {
					wg.Add(1)
					go func(p int) {
						defer wg.Done()
						for i := p; i < len(msgs); i += publishers {
							r.publish(msgs[i])
						}
					}(p)
				}
				wg.Wait()
				arrived := r.col.WaitBytes(wait, size)
				r.col.Fence()
				left := map[string]int{}
				for k, n := range want {
					left[k] = n
				}
				for s, ms := range r.got() {
					for _, m := range ms {
						k := s + " " + m
						left[k]--
						if left[k] < 0 {
							return fmt.Errorf("unexpected or repeated message %.400q on subject %s", m, s)
						}
					}
				}
				for _, k := range sortedKeys(left) {
					if left[k] > 0 {
						if arrived {
							return fmt.Errorf("missing: %.400q", k)
						}
						return hz.Softf("missing: %.400q", k)
					}
				}
				return nil
			})
			c.LabelIf(large > 0, "a large message")
			c.Label("%d filters", filters)
			c.Label("%d workers", workers)
			if filters*workers > 1 && len(msgs) > 20 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}
