//go:build !noshim

package filter

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/filter"
	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
)

// With a fake clock, so that the boundaries are tested exactly.
func TestC11_Exact(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 25000, Thorough: 800000,
		Rule: "lines with timestamps within nanoseconds of the window's boundaries, and extreme ones, given to a filter worker at a generated (fake) time; the lines published and counted are compared with big-integer arithmetic; non-trivial: a timestamp within 2 ns of a boundary, or beyond the year 2200 or before 1800"},
		func(c *hz.C) {
			delta := time.Duration(hz.One(c.T, "delta", 1, 2, int64(time.Millisecond), int64(time.Second), int64(10*time.Minute), int64(time.Hour)*24*365*50, math.MaxInt64, math.MaxInt64-1, int64(rapid.Int64Range(1, math.MaxInt64).Draw(c.T, "any delta"))))
			sleep := time.Duration(rapid.Int64Range(0, int64(time.Hour)*24*365*100).Draw(c.T, "sleep"))
			type item struct {
				text   string
				rel    bool
				base   int64 // -1, 0, 1: where, in terms of delta
				offset int64
			}
			var items []item
			for n := hz.Int(c.T, 1, 5, "lines"); n > 0; n-- {
				switch hz.One(c.T, "kind", "edge", "edge", "edge", "none", "extreme", "any", "short") {
				case "edge":
					items = append(items, item{rel: true, base: int64(hz.One(c.T, "base", -1, 1, 0)), offset: int64(hz.Int(c.T, -2, 2, "ns"))})
				case "none":
					items = append(items, item{text: ""})
				case "extreme":
					items = append(items, item{text: hz.One(c.T, "extreme", " 9223372036854775807", " -9223372036854775808", " -9223372036854775807", " 9223372036854775806", " 0", " 1", " -1", " 99999")})
				case "any":
					items = append(items, item{text: fmt.Sprintf(" %d", rapid.Int64().Draw(c.T, "ts"))})
				case "short":
					items = append(items, item{text: fmt.Sprintf(" %d", hz.Int(c.T, -2000000000, 2000000000, "ts"))})
				}
			}
			final := hz.Chance(c.T, 70, "newline")
			nontrivial := false
			var desc string
			rapid.SyncTest(c.T, func(_ *rapid.T) {
				time.Sleep(sleep)
				now := big.NewInt(time.Now().UnixNano())
				var msg, want []byte
				invalid := 0
				for i, it := range items {
					text := it.text
					if it.rel {
						v := new(big.Int).Mul(big.NewInt(it.base), big.NewInt(int64(delta)))
						v.Add(v, now).Add(v, big.NewInt(it.offset))
						if !v.IsInt64() {
							continue
						}
						text = " " + v.String()
						nontrivial = true
					}
					line := []byte(fmt.Sprintf("%s f=%di%s\n", hz.One(c.T, "name", "m", "cpu,host=a"), i, text))
					if i == len(items)-1 && !final {
						line = line[:len(line)-1]
					}
					msg = append(msg, line...)
					ts, _, ok := ref.Timestamp(line)
					if !ok {
						ts = now.Int64()
					}
					diff := new(big.Int).Sub(big.NewInt(ts), now)
					if diff.Abs(diff).Cmp(big.NewInt(int64(delta))) < 0 {
						want = append(want, line...)
					} else {
						invalid++
					}
					if ts > 7258118400e9 || ts < -5364662400e9 {
						nontrivial = true
					}
				}
				var got []byte
				w, err := filter.VerifNewWorker(delta, new(filter.RuleSet), "junk", func(_ string, b []byte) error {
					got = append(got, b...)
					return nil
				})
				if err != nil {
					c.Fatalf("%v", err)
				}
				w.Process(append([]byte(nil), msg...))
				desc = fmt.Sprintf("at %d, delta %d: %q", now, delta, msg)
				if !bytes.Equal(got, want) {
					c.Fatalf("%s: passed %q instead of %q", desc, got, want)
				}
				if n := w.Stat("invalid_time"); n != uint64(invalid) {
					c.Fatalf("%s: invalid_time is %d, not %d", desc, n, invalid)
				}
				c.LabelIf(invalid > 0, "dropped")
				c.LabelIf(len(want) > 0, "passed")
			})
			if nontrivial {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}
