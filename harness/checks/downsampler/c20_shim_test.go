//go:build !noshim

package downsampler

import (
	"fmt"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/downsampler"
	"verif/harness/hz"
)

// On an assigner with a clock of the check.
func TestC20_Values(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 12000, Thorough: 400000,
		Rule: "generated points of a few series and fields, of all types, with extreme values and some conflicting types, in one period; what is emitted is compared with exact means (big.Float) and latest values; non-trivial: a numeric field with at least three values, or a conflict"},
		func(c *hz.C) {
			base := time.Unix(1500000000, 0)
			now := base
			a := downsampler.VerifNewAssigner(time.Minute, func() time.Time { return now })
			end := base.Truncate(time.Minute).Add(time.Minute)
			m := model{}
			kinds := map[string]kind{}
			var desc string
			nontrivial := false
			large := hz.Chance(c.T, 2, "large")
			for n := hz.One(c.T, "points", 1, 2, 5, 20, 100); n > 0; n-- {
				var batch string
				wantErrs := 0
				var points []point
				for l := hz.One(c.T, "batch", 1, 1, 3); l > 0; l-- {
					points = append(points, genPoint(c.T, kinds))
				}
				if large {
					large = false
					points = enlarge(c.T, points, kinds)
					c.Label("large")
				}
				for _, p := range points {
					line := p.line()
					if len(points) <= 3 && hz.Chance(c.T, 50, "ts") {
						line += fmt.Sprintf(" %d", end.UnixNano()-1-int64(hz.Int(c.T, 0, 59999, "ms"))*1e6)
					}
					batch += line + "\n"
					wantErrs += m.add(p)
				}
				desc += batch
				errs := a.Update([]byte(batch))
				if (len(errs) > 0) != (wantErrs > 0) {
					c.Fatalf("%d errors instead of %d for %.500q: %v", len(errs), wantErrs, batch, errs)
				}
				nontrivial = nontrivial || wantErrs > 0
			}
			var out []byte
			for i := 0; i < 3; i++ {
				now = now.Add(time.Minute)
				out = append(out, a.Bytes()...)
			}
			if err := m.compare(out, end.UnixNano()); err != nil {
				c.Fatalf("%v; after %.1000q", err, desc)
			}
			for _, fs := range m {
				for _, f := range fs {
					c.Label(string(f.kind))
					nontrivial = nontrivial || f.n > 2 && (f.kind == kInt || f.kind == kFloat)
				}
			}
			if nontrivial {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", desc) })
		})
}
