//go:build !noshim

package downsampler

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/downsampler"
	"verif/harness/gen"
	"verif/harness/hz"
)

func sortedLines(b []byte) string {
	lines := strings.SplitAfter(string(b), "\n")
	sort.Strings(lines)
	return strings.Join(lines, "")
}

// On an assigner with a clock of the check.
func TestC23_Metamorphic(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 15000, Thorough: 600000,
		Rule: "generated valid lines, arbitrary bytes and malformed lines (cut, mutated, with broken fields); two assigners, only one of which gets the malformed lines, must emit the same; each malformed line must yield an error; non-trivial: a malformed line of a series which valid lines have too"},
		func(c *hz.C) {
			now := time.Unix(1500000000, 0)
			clock := func() time.Time { return now }
			with := downsampler.VerifNewAssigner(time.Minute, clock)
			without := downsampler.VerifNewAssigner(time.Minute, clock)
			kinds := map[string]kind{}
			m := model{}
			clean := true
			keys := map[string]bool{}
			badKeys := map[string]bool{}
			var log []string
			for n := hz.One(c.T, "updates", 1, 2, 5, 12); n > 0; n-- {
				var a, b []byte
				bad := 0
				for k := hz.One(c.T, "lines", 1, 2, 5); k > 0; k-- {
					var line []byte
					isBad := false
					switch hz.One(c.T, "kind", "point", "point", "point", "malformed", "malformed", "garbage") {
					case "point":
						p := genPoint(c.T, kinds)
						line = []byte(p.line())
						m.add(p)
						keys[p.key] = true
					case "malformed":
						line, isBad = genMalformed(c.T), true
					case "garbage":
						line = bytes.ReplaceAll(gen.Garbage(c.T, "g"), []byte("\n"), nil)
						isBad = malformed(line)
						clean = clean && isBad
					}
					if len(line) == 0 {
						continue
					}
					log = append(log, fmt.Sprintf("%q", line))
					line = append(line, '\n')
					if isBad {
						bad++
						badKeys[string(bytes.SplitN(line, []byte(" "), 2)[0])] = true
					} else {
						b = append(b, line...)
					}
					a = append(a, line...)
				}
				errsA, errsB := with.Update(a), without.Update(b)
				if len(errsA)-len(errsB) < bad {
					c.Fatalf("%d malformed lines yield only %d errors: %v; after %s", bad, len(errsA)-len(errsB), errsA, log)
				}
			}
			var outA, outB []byte
			for i := 0; i < 3; i++ {
				now = now.Add(time.Minute)
				outA = append(outA, with.Bytes()...)
				outB = append(outB, without.Bytes()...)
			}
			if a, b := sortedLines(outA), sortedLines(outB); a != b {
				c.Fatalf("malformed lines change the output from %.1000q to %.1000q; after %s", b, a, log)
			}
			if clean {
				if err := m.compare(outA, time.Unix(1500000000, 0).Truncate(time.Minute).Add(time.Minute).UnixNano()); err != nil {
					c.Fatalf("%v; after %s", err, log)
				}
				c.Label("no arbitrary valid lines")
			}
			for key := range badKeys {
				if keys[key] {
					c.NonTrivial(strings.Join(log, " "))
				}
			}
			c.Sample(func() string { return strings.Join(log, " ") })
		})
}

// Arbitrary bytes, as a whole message.
func TestC23_Bytes(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 20000, Thorough: 1000000,
		Rule: "arbitrary bytes rich in delimiters as messages: nothing may panic, and a valid line must still be processed; non-trivial: at least 10 bytes"},
		func(c *hz.C) {
			now := time.Unix(1500000000, 0)
			a := downsampler.VerifNewAssigner(time.Minute, func() time.Time { return now })
			var all []byte
			for n := hz.Int(c.T, 1, 4, "messages"); n > 0; n-- {
				var msg []byte
				for l := hz.Int(c.T, 1, 3, "lines"); l > 0; l-- {
					msg = append(msg, gen.Garbage(c.T, "g")...)
					msg = append(msg, hz.One(c.T, "end", "\n", "\n", "", "\n\n", " 1500000000000000000\n", " 1500000030000000000")...)
				}
				a.Update(append([]byte(nil), msg...))
				all = append(all, msg...)
			}
			if errs := a.Update([]byte("valid,s=1 f=1i")); len(errs) > 0 {
				c.Fatalf("a valid line is rejected after %q: %v", all, errs)
			}
			var out []byte
			for i := 0; i < 3; i++ {
				now = now.Add(time.Minute)
				out = append(out, a.Bytes()...)
			}
			if n := bytes.Count(append([]byte("\n"), out...), []byte("\nvalid,s=1 f=1i 1500000060000000000\n")); n != 1 {
				c.Fatalf("a valid line's series is emitted %d times after %q", n, all)
			}
			if len(all) >= 10 {
				c.NonTrivial(all)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", all) })
		})
}
