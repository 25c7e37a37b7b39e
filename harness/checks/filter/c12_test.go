package filter

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// mixedLines draws lines of all kinds, many of them malformed. Only
// the last one might lack its newline.
func mixedLines(c *hz.C, max int) (lines [][]byte, bad int) {
	for n := hz.Int(c.T, 2, max, "lines"); n > 0; n-- {
		var l []byte
		if hz.Chance(c.T, 50, "garbage") {
			l = gen.Garbage(c.T, fmt.Sprint(n))
		} else {
			l = gen.Line(c.T, fmt.Sprint(n), gen.Opts{NoFields: true, Odd: true, Big: true})
		}
		if _, ok := ref.Parse(l); !ok {
			bad++
		}
		l = append(l, '\n')
		if n == 1 && hz.Chance(c.T, 20, "unterminated") {
			l = l[:len(l)-1]
		}
		lines = append(lines, l)
	}
	return lines, bad
}

// Through a running filter: all lines in one message, and each line in
// a message of its own.
func TestC12_Filter(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1500, Thorough: 40000,
		Rule: "messages of well-formed lines mixed with arbitrary and mutated bytes; per subject, a message's output must be the concatenation of what its lines give on their own; malformed ones must give nothing; non-trivial: at least one malformed and one forwarded line"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 0, 5)
			setSubjects(c, rules, false)
			lines, bad := mixedLines(c, 15)
			desc := fmt.Sprintf("rules: %s; lines: %.500q", rulesString(rules), lines)
			forwarded := 0
			times := 1
			if hz.Chance(c.T, 4, "many lines") {
				times = min(hz.One(c.T, "times", 20, 200, 2000, 20000), 1+300000/len(bytes.Join(lines, nil)))
			}
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				r := startRig(rules, nil)
				defer r.close()
				var err error
				forwarded, err = r.alone(lines, times, wait)
				return err
			})
			if bad > 0 && forwarded > 0 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

// run sends messages to the filter (with a single worker) and returns
// the output for each subject.
func (r *rig) run(msgs [][]byte, wait time.Duration) (map[string]string, error) {
	r.col.Reset()
	for _, m := range msgs {
		r.publish(m)
	}
	r.publish([]byte(sentinel))
	if !r.col.Wait(wait, func(ms []sut.Msg) bool {
		for i := len(ms) - 1; i >= 0; i-- {
			if string(ms[i].Data) == sentinel {
				return true
			}
		}
		return false
	}) {
		return nil, hz.Softf("the filter does not process a message any more")
	}
	// Subjects are received independently of each other.
	r.col.Fence()
	out := map[string]string{}
	for _, m := range r.col.Msgs() {
		if string(m.Data) != sentinel {
			out[m.Subject[len(r.prefix)+1:]] += string(m.Data)
		}
	}
	return out, nil
}

// alone compares what the lines give on their own with what they give
// in one message, in which all but the last are repeated.
func (r *rig) alone(lines [][]byte, times int, wait time.Duration) (forwarded int, err error) {
	want := map[string]string{}
	for i, l := range lines {
		if i == len(lines)-1 {
			for s, b := range want {
				want[s] = strings.Repeat(b, times)
			}
		}
		out, err := r.run([][]byte{l}, wait)
		if err != nil {
			return 0, fmt.Errorf("after %.300q: %w", l, err)
		}
		if _, ok := ref.Parse(l); !ok && len(out) > 0 {
			return 0, fmt.Errorf("the malformed line %.300q gave %.300q", l, out)
		}
		if len(out) > 1 {
			return 0, fmt.Errorf("%.300q went to several subjects: %.300q", l, out)
		}
		for s, b := range out {
			want[s] += b
			forwarded++
		}
	}
	n := len(lines) - 1
	got, err := r.run([][]byte{append(bytes.Repeat(bytes.Join(lines[:n], nil), times), lines[n]...)}, wait)
	if err != nil {
		return 0, err
	}
	return forwarded, sameOutputs(lines, got, want)
}

func sameOutputs(lines [][]byte, got, want map[string]string) error {
	for s := range got {
		if _, ok := want[s]; !ok {
			want[s] = ""
		}
	}
	for s := range want {
		if got[s] != want[s] {
			return fmt.Errorf("for %.500q, on subject %s, the message gave %.500q but its lines %.500q", lines, s, got[s], want[s])
		}
	}
	return nil
}

// The writer's use of rules.
func TestC12_Lookup(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60000, Thorough: 2000000,
		Rule: "arbitrary bytes and mutated lines given to the exported rule lookup, which must not panic, modify them, or match malformed lines; non-trivial: a line with malformed tags"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 1, 6)
			line := gen.Garbage(c.T, "1")
			if hz.Chance(c.T, 50, "newline") {
				line = append(line, '\n')
			}
			rs, err := filter.RuleSetFromConfig(&config.Config{Rule: rules})
			if err != nil {
				c.Fatalf("%v", err)
			}
			orig := string(line)
			idx := rs.Lookup(line)
			if string(line) != orig {
				c.Fatalf("Lookup modified %q", orig)
			}
			_, ok := ref.Parse(line)
			if !ok && idx != -1 {
				c.Fatalf("the malformed line %q matches %s", orig, gen.RuleString(rules[idx]))
			}
			want := -1
			for i := range rules {
				if want < 0 && ref.Matches(rules[i], line) {
					want = i
				}
			}
			if idx != want {
				c.Fatalf("rules %s: the first to match %q is %d, not %d", rulesString(rules), orig, idx, want)
			}
			c.LabelIf(ok, "well-formed")
			if !ok {
				c.NonTrivial(orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", orig) })
		})
}
