//go:build !noshim

package filter

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
)

// The same relation, on a filter worker without NATS: much faster.
func TestC12_Worker(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 40000, Thorough: 1500000,
		Rule: "as for the running filter, on a filter worker; non-trivial: at least one malformed and one forwarded line"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 0, 5)
			setSubjects(c, rules, false)
			lines, bad := mixedLines(c, 10)
			rs, err := filter.RuleSetFromConfig(&config.Config{Rule: rules})
			if err != nil {
				c.Fatalf("%v", err)
			}
			var out map[string]string
			w, err := filter.VerifNewWorker(math.MaxInt64, rs, junk, func(s string, b []byte) error {
				out[s] += string(b)
				return nil
			})
			if err != nil {
				c.Fatalf("%v", err)
			}
			want := map[string]string{}
			forwarded := 0
			for _, l := range lines {
				out = map[string]string{}
				w.Process(append([]byte(nil), l...))
				if _, ok := ref.Parse(l); !ok && len(out) > 0 {
					c.Fatalf("the malformed line %q gave %q", l, out)
				}
				if len(out) > 1 {
					c.Fatalf("%q went to several subjects: %q", l, out)
				}
				for s, b := range out {
					want[s] += b
					forwarded++
				}
			}
			out = map[string]string{}
			w.Process(bytes.Join(lines, nil))
			if err := sameOutputs(lines, out, want); err != nil {
				c.Fatalf("%v", err)
			}
			if bad > 0 && forwarded > 0 {
				c.NonTrivial(fmt.Sprintf("%s %q", rulesString(rules), lines))
			}
			c.Sample(func() string { return fmt.Sprintf("rules: %s; lines: %.500q", rulesString(rules), lines) })
		})
}
