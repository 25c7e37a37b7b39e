package filter

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/filter"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
)

// messages draws messages of well-formed lines.
func messages(c *hz.C, maxMsgs, maxLines int, o gen.Opts) [][]byte {
	now := time.Now()
	var out [][]byte
	id := 0
	for n := hz.Int(c.T, 1, maxMsgs, "messages"); n > 0; n-- {
		var msg []byte
		for l := hz.Int(c.T, 1, maxLines, "lines"); l > 0; l-- {
			id++
			msg = append(msg, gen.Line(c.T, fmt.Sprint(id), o)...)
			msg = append(msg, gen.NearTS(c.T, now)...)
			msg = append(msg, '\n')
		}
		if hz.Chance(c.T, 10, "unterminated") {
			msg = msg[:len(msg)-1]
		}
		out = append(out, msg)
	}
	return gen.Amplify(c.T, out)
}

func msgsString(rules []config.Rule, msgs [][]byte) string {
	return fmt.Sprintf("rules: %s; messages: %.400q", rulesString(rules), msgs)
}

func TestC08_Routing(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 3000, Thorough: 80000,
		Rule: "a filter with generated rules (some sharing subjects) gets messages of generated lines; what it publishes is compared message by message with a reference; non-trivial: at least two subjects get lines"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 0, 12)
			setSubjects(c, rules, true)
			msgs := messages(c, 5, 12, gen.Opts{NoFields: true, Odd: true, Big: true})
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				return process(rules, msgs, nil, nil, wait)
			})
			subjects := map[string]bool{}
			for _, m := range msgs {
				for s := range outputs(rules, m, nil) {
					subjects[s] = true
				}
			}
			c.Label("%d subjects", len(subjects))
			c.Label("%d rules", len(rules))
			if len(subjects) > 1 {
				c.NonTrivial(msgsString(rules, msgs))
			}
			c.Sample(func() string { return msgsString(rules, msgs) })
		})
}

// Large messages: buffers which were large once must not matter.
func TestC08_Large(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60, Thorough: 2000,
		Rule: "as before, with messages of up to 900 KB and long lines; non-trivial: a message of more than 64 KB"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 1, 4)
			setSubjects(c, rules, true)
			var msgs [][]byte
			large := false
			for n := hz.Int(c.T, 1, 4, "messages"); n > 0; n-- {
				base := gen.Line(c.T, "0", gen.Opts{})
				other := gen.Line(c.T, "0", gen.Opts{})
				pad := strings.Repeat("p", hz.One(c.T, "pad", 1, 1, 100, 70000))
				target := hz.One(c.T, "size", 10, 1000, 70000, 200000, 900000)
				var msg []byte
				for i := 0; len(msg) < target; i++ {
					l := base
					if i%3 == 1 {
						l = other
					}
					msg = append(msg, l...)
					msg = append(msg, fmt.Sprintf(",n=%d,p=\"%s\"\n", i, pad[:1+i*7919%len(pad)])...)
				}
				large = large || len(msg) > 65536
				msgs = append(msgs, msg)
			}
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				return process(rules, msgs, nil, nil, wait)
			})
			if large {
				c.NonTrivial(rulesString(rules), fmt.Sprintf("%q", msgs))
			}
			c.Sample(func() string {
				s := rulesString(rules) + "; messages of"
				for _, m := range msgs {
					s += fmt.Sprintf(" %d", len(m))
				}
				return s + " bytes"
			})
		})
}

func TestC09_Rules(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 150000, Thorough: 4000000,
		Rule: "rules of all types against lines with similar names, repeated and unsorted tags and escapes, through the exported rule lookup; each rule's answer is compared with its documented meaning; non-trivial: the line has tags or escapes and a rule matches"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 1, 6)
			line := gen.Line(c.T, "1", gen.Opts{NoFields: true, Odd: true, Big: true})
			if hz.Chance(c.T, 20, "ts") {
				line = append(line, " 1500000000000000000"...)
			}
			if hz.Chance(c.T, 20, "own pattern") {
				// A pattern made of a part of the line.
				u := ref.Unescape(line)
				i := hz.Int(c.T, 0, len(u), "from")
				j := hz.Int(c.T, i, len(u), "to")
				p := regexp.QuoteMeta(strings.ToValidUTF8(string(u[i:j]), "."))
				rules[0] = config.Rule{Rtype: hz.One(c.T, "rx", "regex", "negregex"), Match: hz.One(c.T, "pre", "", "^") + p + hz.One(c.T, "post", "", "$")}
			}
			if hz.Chance(c.T, 80, "newline") {
				line = append(line, '\n')
			}
			orig := string(line)
			matched := false
			// All together, and each rule on its own.
			all, err := filter.RuleSetFromConfig(&config.Config{Rule: rules})
			if err != nil {
				c.Fatalf("%v", err)
			}
			want := -1
			for i, r := range rules {
				m := ref.Matches(r, line)
				matched = matched || m
				if m && want < 0 {
					want = i
				}
				one, err := filter.RuleSetFromConfig(&config.Config{Rule: rules[i : i+1]})
				if err != nil {
					c.Fatalf("%v", err)
				}
				if got := one.Lookup(line) == 0; got != m {
					c.Fatalf("rule %s: match of %q is %v", gen.RuleString(r), orig, got)
				}
				c.Label("%s %v", r.Rtype, m)
			}
			if got := all.Lookup(line); got != want {
				c.Fatalf("rules %s: the first to match %q is %d, not %d", rulesString(rules), orig, got, want)
			}
			if string(line) != orig {
				c.Fatalf("Lookup modified %q", orig)
			}
			if matched && strings.ContainsAny(orig, `,\`) {
				c.NonTrivial(rulesString(rules), orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%s: %q", rulesString(rules), orig) })
		})
}

// In the filter, where tags are sorted before rules are tried.
func TestC09_Filter(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1500, Thorough: 40000,
		Rule: "a filter with one generated rule gets generated lines; it must separate exactly those that match; non-trivial: both some lines match and some don't"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 1, 1)
			setSubjects(c, rules, false)
			msgs := messages(c, 3, 20, gen.Opts{NoFields: true, Odd: true, Big: true})
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				return process(rules, msgs, nil, nil, wait)
			})
			subjects := map[string]bool{}
			for _, m := range msgs {
				for s := range outputs(rules, m, nil) {
					subjects[s] = true
				}
			}
			c.Label(rules[0].Rtype)
			if len(subjects) > 1 {
				c.NonTrivial(msgsString(rules, msgs))
			}
			c.Sample(func() string { return msgsString(rules, msgs) })
		})
}
