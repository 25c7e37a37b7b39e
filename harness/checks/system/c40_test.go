package system

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/sut"
)

// series are the results of one benchmark in one unit, old and new.
type series struct {
	unit     string
	ratio    float64 // of new to old
	n, m     int     // samples, in each
	overlaps bool    // the samples don't differ significantly
	base     float64
}

// significant tells if a difference as large as that is unlikely to be a
// coincidence, by the Mann-Whitney U test: if all of one are larger than
// all of the others, p is 2 divided by the number of ways to choose n of
// n+m.
func (s *series) significant(alpha float64) bool {
	if s.overlaps || s.n == 0 || s.m == 0 {
		return false
	}
	ways := 1.0
	for i := 1; i <= s.n; i++ {
		ways = ways * float64(s.m+i) / float64(i)
	}
	return 2/ways < alpha
}

// worse tells by how many percent it got worse.
func (s *series) worse() float64 {
	d := (s.ratio - 1) * 100
	if s.unit == "MB/s" {
		return -d
	}
	return d
}

// values returns the samples. They are precise enough for no two to be
// the same, in which case p would only be approximate.
func (s *series) values(isNew bool) []string {
	var out []string
	n, f := s.n, 1.0
	if isNew {
		n, f = s.m, s.ratio
	}
	for i := 0; i < n; i++ {
		v := s.base * f * (1 + 0.0001*float64(i))
		if s.overlaps {
			// The same range, and the same median.
			v = s.base * (1 + 0.3*(float64(i)+0.5)/float64(n))
		}
		out = append(out, fmt.Sprintf("%.8f %s", v, s.unit))
	}
	return out
}

type comparison struct {
	names    []string
	all      [][]series // of each benchmark
	alpha    float64
	delta    float64
	defaults bool
	print    bool
	noise    bool
	missing  int // benchmarks at the end which are in one of the files only
}

func genComparison(t *rapid.T) *comparison {
	c := &comparison{alpha: 0.05, delta: 10, defaults: hz.Chance(t, 50, "defaults"), print: hz.Chance(t, 20, "print"), noise: hz.Chance(t, 70, "noise")}
	if !c.defaults {
		c.alpha = hz.One(t, "alpha", 0.05, 0.01, 0.001, 0.2)
		c.delta = hz.One(t, "delta", 10.0, 0.0, 5.0, 25.0, 100.0)
	}
	calm := hz.Chance(t, 50, "calm") // nothing gets much worse
	for k := hz.One(t, "benchmarks", 1, 1, 2, 5); k > 0; k-- {
		c.names = append(c.names, fmt.Sprintf("Benchmark%s%d%s", hz.One(t, "name", "Foo", "Bar", "X"), k, hz.One(t, "suffix", "", "-8", "/sub-8", "/a=b,c")))
		n, m := hz.One(t, "n", 1, 3, 4, 5, 8), hz.One(t, "m", 3, 4, 5, 8)
		var list []series
		units := []string{"ns/op"}
		for _, u := range []string{"MB/s", "B/op", "allocs/op", "lines/op"} {
			if hz.Chance(t, 40, u) {
				units = append(units, u)
			}
		}
		for _, u := range units {
			s := series{unit: u, n: n, m: m, base: hz.One(t, "base", 3.0, 100.0, 12345.0, 2e8)}
			for {
				s.ratio = hz.One(t, "ratio", 1.0, 0.3, 0.7, 0.85, 0.93, 0.97, 1.03, 1.07, 1.15, 1.4, 2.5)
				if !calm || s.worse() < c.delta || c.delta == 0 {
					break
				}
			}
			s.overlaps = s.ratio == 1 || hz.Chance(t, 15, "overlaps")
			list = append(list, s)
		}
		c.all = append(c.all, list)
	}
	c.missing = hz.One(t, "missing", 0, 0, 1, 2)
	return c
}

func (c *comparison) file(isNew bool) string {
	var b strings.Builder
	if c.noise {
		b.WriteString("goos: linux\ngoarch: amd64\npkg: example.com/x\n")
	}
	for i, name := range c.names {
		if i >= len(c.names)-c.missing && isNew == (i%2 == 0) {
			continue
		}
		var columns [][]string
		for _, s := range c.all[i] {
			columns = append(columns, s.values(isNew))
		}
		for r := range columns[0] {
			fmt.Fprintf(&b, "%s\t%d", name, 100+r)
			for _, col := range columns {
				b.WriteString("\t" + col[r])
			}
			b.WriteString("\n")
		}
		if c.noise {
			b.WriteString("some log line 1 ns\n")
		}
	}
	if c.noise {
		b.WriteString("PASS\nok  \texample.com/x\t1.234s\n")
	}
	return b.String()
}

// regression tells if something got significantly worse by more than
// what is allowed.
func (c *comparison) regression() bool {
	for i := range c.names {
		if i >= len(c.names)-c.missing {
			continue
		}
		for _, s := range c.all[i] {
			if s.significant(c.alpha) && s.worse() > c.delta {
				return true
			}
		}
	}
	return false
}

func TestC40_Benchcheck(t *testing.T) {
	dir := t.TempDir()
	hz.Check(t, hz.Opts{Quick: 1500, Thorough: 20000,
		Rule: "generated results of benchmarks (some missing in one file) with samples which overlap or are apart, by generated ratios, in units of which some are better when larger; the exit code must tell if a benchmark in both files got worse by more than the limit, with a p value (computed exactly) below the one given; non-trivial: something changed significantly"},
		func(c *hz.C) {
			cmp := genComparison(c.T)
			old, now := filepath.Join(dir, "old.txt"), filepath.Join(dir, "new.txt")
			os.WriteFile(old, []byte(cmp.file(false)), 0o600)
			os.WriteFile(now, []byte(cmp.file(true)), 0o600)
			args := []string{}
			if !cmp.defaults {
				args = append(args, fmt.Sprintf("-alpha=%g", cmp.alpha), fmt.Sprintf("-max-delta=%g", cmp.delta))
			}
			if cmp.print {
				args = append(args, "-print")
			}
			p := sut.Run("benchcheck", append(args, old, now)...)
			defer p.Kill()
			if !p.Exited(30 * time.Second) {
				c.Fatalf("benchcheck does not end")
			}
			show := func() string {
				return fmt.Sprintf("alpha %g, max-delta %g\nold:\n%s\nnew:\n%s\noutput:\n%s%s", cmp.alpha, cmp.delta, cmp.file(false), cmp.file(true), p.Stdout(), p.Stderr())
			}
			want, text := 0, "No performance regressions found."
			if cmp.regression() {
				want, text = 1, "Performance regression found!"
			}
			if p.Code() != want || !strings.Contains(string(p.Stdout()), text) {
				c.Fatalf("benchcheck exits with %d instead of %d\n%s", p.Code(), want, show())
			}
			if printed := strings.Contains(string(p.Stdout()), "delta"); cmp.print && !printed && len(cmp.names) > cmp.missing || want == 1 && !printed {
				c.Fatalf("the table isn't printed\n%s", show())
			}
			changed := false
			for i := range cmp.all {
				for _, s := range cmp.all[i] {
					changed = changed || i < len(cmp.all)-cmp.missing && s.significant(cmp.alpha)
				}
			}
			c.LabelIf(want == 1, "regression")
			if changed {
				c.NonTrivial(show())
			}
			c.Sample(show)
		})
}
