package writer

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/spf13/afero"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

func tomlString(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r < ' ':
			fmt.Fprintf(&b, `\u%04X`, r)
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func ruleTOML(r config.Rule) string {
	s := "\n[[rule]]\ntype = " + tomlString(r.Rtype) + "\n"
	if r.Rtype == "tags" {
		var ts []string
		for _, t := range r.Tags {
			ts = append(ts, fmt.Sprintf("[%s, %s]", tomlString(t[0]), tomlString(t[1])))
		}
		s += "tags = [" + strings.Join(ts, ", ") + "]\n"
	} else {
		s += "match = " + tomlString(r.Match) + "\n"
	}
	return s
}

func TestC17_Rules(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1200, Thorough: 60000,
		Rule: "a writer with generated rules, given as a configuration file, gets messages of generated lines (some malformed); what it posts is compared with the matching lines; non-trivial: some lines match and some don't"},
		func(c *hz.C) {
			rules := gen.Rules(c.T, 0, 4)
			// The last rule lets the sentinel through.
			if len(rules) > 0 {
				rules = append(rules, config.Rule{Rtype: "basic", Match: "sentinel"})
			}
			var text string
			for _, r := range rules {
				text += ruleTOML(r)
			}
			count := hz.One(c.T, "count", 1, 1, 3, 20)
			var msgs [][]byte
			id := 0
			for n := hz.Int(c.T, 1, 6, "messages"); n > 0; n-- {
				var msg []byte
				for l := hz.Int(c.T, 1, 8, "lines"); l > 0; l-- {
					id++
					var line []byte
					if hz.Chance(c.T, 25, "garbage") {
						line = gen.Garbage(c.T, fmt.Sprint(id))
					} else {
						line = gen.Line(c.T, fmt.Sprint(id), gen.Opts{NoFields: true, Odd: true, Big: true})
						line = append(line, gen.NearTS(c.T, time.Unix(1500000000, 0))...)
					}
					msg = append(append(msg, line...), '\n')
				}
				msgs = append(msgs, msg)
			}
			msgs = gen.Amplify(c.T, msgs)
			var want []byte
			total, matching := 0, 0
			for _, m := range msgs {
				for _, l := range ref.Lines(m) {
					total++
					match := len(rules) == 0
					for _, r := range rules {
						match = match || ref.Matches(r, l)
					}
					if match {
						matching++
						want = append(want, l...)
					}
				}
			}
			desc := fmt.Sprintf("count %d, %d rules:%s; messages %.500q", count, len(rules), strings.Join(strings.Fields(text), " "), msgs)
			config.Fs = afero.NewMemMapFs()
			text = "mode = \"writer\"\n" + text
			if err := afero.WriteFile(config.Fs, "/w.toml", []byte(text), 0600); err != nil {
				hz.Infra("%v", err)
			}
			conf, err := config.NewConfigFromFile("/w.toml")
			if err != nil {
				c.Fatalf("the configuration is refused: %v: %s", err, text)
			}
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				r := start(nil, func(real *config.Config) {
					real.Rule = conf.Rule
					real.BatchMaxCount = count
				})
				defer r.close()
				for _, m := range msgs {
					r.publish(0, m)
				}
				all := append([]byte(nil), want...)
				// Enough to fill the last batch.
				for i := 0; i < count; i++ {
					s := []byte(fmt.Sprintf("sentinel n=%d\n", i))
					r.publish(0, s)
					all = append(all, s...)
				}
				r.influx.Wait(wait, func(reqs []*sut.Request) bool { return len(sut.Bodies(reqs)) >= len(want) })
				if err := r.settled(wait, map[string]int64{"received": int64(len(msgs) + count)}); err != nil {
					return err
				}
				got := bytes.Join(r.bodies(), nil)
				if !bytes.HasPrefix(all, got) {
					i := 0
					for i < len(got) && i < len(all) && got[i] == all[i] {
						i++
					}
					i = bytes.LastIndexByte(all[:i], '\n') + 1
					return fmt.Errorf("%s: posted %.200q instead of %.200q", desc, got[i:], all[i:])
				}
				if len(got) < len(want) {
					return hz.Softf("%s: only %d of %d bytes were posted", desc, len(got), len(want))
				}
				return nil
			})
			for _, r := range rules {
				c.Label(r.Rtype)
			}
			if matching > 0 && matching < total {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}
