package race

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/prometheus"
	"github.com/jumptrading/influx-spout/v2/stats"
	"pgregory.net/rapid"

	"verif/harness/hz"
)

// counters abstracts over the two implementations.
type counters interface {
	get(i int) uint64
	inc(i int) uint64
	max(i int, v uint64) uint64
	snapshot() []uint64
}

type named struct {
	names []string
	s     *stats.Stats
	c     *hz.C
}

func (n named) get(i int) uint64           { return n.s.Get(n.names[i]) }
func (n named) inc(i int) uint64           { return n.s.Inc(n.names[i]) }
func (n named) max(i int, v uint64) uint64 { return n.s.Max(n.names[i], v) }
func (n named) snapshot() []uint64 {
	out := make([]uint64, len(n.names))
	seen := make([]int, len(n.names))
	for _, p := range n.s.Snapshot() {
		for i, name := range n.names {
			if name == p.Name {
				out[i] = p.Value
				seen[i]++
			}
		}
	}
	for i := range seen {
		if seen[i] != 1 {
			return nil // reported by the caller
		}
	}
	return out
}

type anon struct{ s *stats.AnonStats }

func (a anon) get(i int) uint64           { return a.s.Get(i) }
func (a anon) inc(i int) uint64           { return a.s.Inc(i) }
func (a anon) max(i int, v uint64) uint64 { return a.s.Max(i, v) }
func (a anon) snapshot() []uint64         { return a.s.Snapshot() }

func TestC29_Concurrent(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 250, Thorough: 5000,
		Rule: "2 to 8 goroutines with random mixes of increments, maxima and snapshots over 1 to 4 counters (data races are reported, too); non-trivial: at least two goroutines use the same counter"},
		func(c *hz.C) {
			n := hz.Many(c.T, hz.Int(c.T, 1, 4, "counters"), 10, "counters", 9, 33, 100, 300)
			var cs counters
			if rapid.Bool().Draw(c.T, "named") {
				var names []string
				for i := 0; i < n; i++ {
					names = append(names, fmt.Sprint("counter", i))
				}
				cs = named{names, stats.New(names...), c}
			} else {
				cs = anon{stats.NewAnon(n)}
			}
			isMax := make([]bool, n)
			for i := range isMax {
				isMax[i] = hz.Chance(c.T, 35, "max")
			}
			g := hz.Int(c.T, 2, 8, "goroutines")
			per := hz.One(c.T, "operations", 50, 300, 1000, 3000, hz.One(c.T, "any", 1, 10000, 30000))
			// What each goroutine does is a cyclic pattern.
			type step struct {
				counter int
				v       uint64
			}
			patterns := make([][]step, g)
			for i := range patterns {
				patterns[i] = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) step {
					return step{hz.Int(t, 0, n-1, "counter"), hz.One(t, "v", uint64(rapid.IntRange(0, 1000).Draw(t, "small")), rapid.Uint64().Draw(t, "any"))}
				}), 1, 6).Draw(c.T, "pattern")
			}
			snapshots := hz.Int(c.T, 0, 2, "snapshotters")

			start := make(chan struct{})
			stop := make(chan struct{})
			var wg, swg sync.WaitGroup
			var mu sync.Mutex
			var problem string
			report := func(format string, args ...interface{}) {
				mu.Lock()
				if problem == "" {
					problem = fmt.Sprintf(format, args...)
				}
				mu.Unlock()
			}
			returned := make([][][]uint64, g) // per goroutine and counter
			wantInc := make([]uint64, n)
			wantMax := make([]uint64, n)
			for i := 0; i < g; i++ {
				returned[i] = make([][]uint64, n)
				for k := 0; k < per; k++ {
					s := patterns[i][k%len(patterns[i])]
					v := s.v + uint64(k)*s.v%977
					wantInc[s.counter]++
					if v > wantMax[s.counter] {
						wantMax[s.counter] = v
					}
				}
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					<-start
					for k := 0; k < per; k++ {
						s := patterns[i][k%len(patterns[i])]
						if isMax[s.counter] {
							v := s.v + uint64(k)*s.v%977
							before := cs.get(s.counter)
							got := cs.max(s.counter, v)
							after := cs.get(s.counter)
							if got < v || got < before || after < got {
								report("maximum of %d: was %d, returned %d, then %d", v, before, got, after)
							}
						} else {
							returned[i][s.counter] = append(returned[i][s.counter], cs.inc(s.counter))
						}
					}
				}(i)
			}
			for i := 0; i < snapshots; i++ {
				swg.Add(1)
				go func() {
					defer swg.Done()
					<-start
					for {
						lo, hi := make([]uint64, n), make([]uint64, n)
						for k := range lo {
							lo[k] = cs.get(k)
						}
						s := cs.snapshot()
						for k := range hi {
							hi[k] = cs.get(k)
						}
						if len(s) != n {
							report("snapshot doesn't list every counter once: %v", s)
							return
						}
						for k := range s {
							if s[k] < lo[k] || s[k] > hi[k] {
								report("snapshot of counter %d: %d is not between %d and %d", k, s[k], lo[k], hi[k])
							}
						}
						select {
						case <-stop:
							return
						default:
						}
					}
				}()
			}
			close(start)
			wg.Wait()
			close(stop)
			swg.Wait()
			if problem != "" {
				c.Fatalf("%s", problem)
			}
			shared := false
			for k := 0; k < n; k++ {
				users := 0
				if isMax[k] {
					if got := cs.get(k); got != wantMax[k] {
						c.Fatalf("maximum is wrong: got %d, largest value was %d", got, wantMax[k])
					}
					continue
				}
				if got := cs.get(k); got != wantInc[k] {
					c.Fatalf("increments lost or invented: got %d, want %d", got, wantInc[k])
				}
				var all []uint64
				for i := range returned {
					for j, v := range returned[i][k] {
						if j > 0 && v <= returned[i][k][j-1] {
							c.Fatalf("increments went back from %d to %d", returned[i][k][j-1], v)
						}
					}
					if len(returned[i][k]) > 0 {
						users++
					}
					all = append(all, returned[i][k]...)
				}
				sort.Slice(all, func(a, b int) bool { return all[a] < all[b] })
				for j, v := range all {
					if v != uint64(j+1) {
						c.Fatalf("increments returned %d where %d was expected: not distinct", v, j+1)
					}
				}
				shared = shared || users > 1
			}
			c.LabelIf(shared, "shared counter")
			c.LabelIf(snapshots > 0, "concurrent snapshots")
			if shared {
				c.NonTrivial(g, per, fmt.Sprint(patterns), fmt.Sprint(isMax), snapshots)
			}
			c.Sample(func() string {
				return fmt.Sprintf("%d counters (max: %v), %d goroutines with %d operations each, patterns %v, %d snapshotters", n, isMax, g, per, patterns, snapshots)
			})
		})
}

func TestC29_Report(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 3000, Thorough: 100000,
		Rule: "sets of counters with random values, rendered with random labels and times; non-trivial: two or more counters, some not zero"},
		func(c *hz.C) {
			all := []string{"received", "sent", "read_errors", "failed", "a", "nats_dropped"}
			names := rapid.Permutation(all).Draw(c.T, "names")[:hz.Int(c.T, 1, len(all), "n")]
			s := stats.New(names...)
			want := map[string]uint64{}
			for _, n := range names {
				want[n] = 0
				switch hz.One(c.T, "value", "zero", "inc", "max") {
				case "inc":
					for k := hz.Many(c.T, hz.Int(c.T, 1, 20, "incs"), 3, "incs", 128, 256, 1000, 33000, 66000); k > 0; k-- {
						want[n]++
						if got := s.Inc(n); got != want[n] {
							c.Fatalf("Inc returned %d, want %d", got, want[n])
						}
					}
				case "max":
					for k := hz.Int(c.T, 1, 5, "maxs"); k > 0; k-- {
						v := rapid.Uint64Range(0, 1<<62).Draw(c.T, "v")
						if v > want[n] {
							want[n] = v
						}
						if got := s.Max(n, v); got != want[n] {
							c.Fatalf("Max(%d) returned %d, want %d", v, got, want[n])
						}
					}
				}
			}
			ms := rapid.Int64Range(1, 9e12).Draw(c.T, "ms")
			now := time.UnixMilli(ms).Add(time.Duration(hz.Int(c.T, 0, 999999, "ns")))
			stats.SetHostname("the host")
			labels := stats.NewLabels("comp", "name")
			text := `component="comp",host="the host",name="name"`
			if rapid.Bool().Draw(c.T, "extra") {
				labels = labels.With("rule", "x.y")
				text += `,rule="x.y"`
			}
			var wantLines []string
			for n, v := range want {
				wantLines = append(wantLines, fmt.Sprintf("%s{%s} %d %d", n, text, v, ms))
			}
			snap := s.Snapshot()
			got := strings.Split(strings.TrimSuffix(string(stats.SnapshotToPrometheus(snap, now, labels)), "\n"), "\n")
			sort.Strings(got)
			sort.Strings(wantLines)
			if fmt.Sprint(got) != fmt.Sprint(wantLines) {
				c.Fatalf("reported %q, want %q", got, wantLines)
			}
			one := hz.Int(c.T, 0, 1<<30, "single value")
			if got, want := string(stats.CounterToPrometheus("c", one, now, labels)), fmt.Sprintf("c{%s} %d %d", text, one, ms); got != want {
				c.Fatalf("reported %q, want %q", got, want)
			}
			// Rendering has no effect on the labels.
			if got := string((&prometheus.Metric{Name: []byte("m"), Labels: labels}).ToBytes()); got != "m{"+text+"} 0" {
				c.Fatalf("labels became %q", got)
			}
			nonzero := 0
			for _, v := range want {
				if v > 0 {
					nonzero++
				}
			}
			if nonzero > 0 && len(names) > 1 {
				c.NonTrivial(fmt.Sprint(wantLines))
			}
			c.Sample(func() string { return strings.Join(wantLines, "; ") })
		})
}
