package filter

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// setSubjects gives the rules subjects; some might be shared.
func setSubjects(c *hz.C, rules []config.Rule, share bool) {
	for i := range rules {
		rules[i].Subject = fmt.Sprintf("r%d", i)
		if share && i > 0 && hz.Chance(c.T, 25, "share") {
			rules[i].Subject = rules[hz.Int(c.T, 0, i-1, "with")].Subject
		}
	}
}

const junk = "junk"

// outputs returns what a filter must publish for a message: for each
// subject, the messages (in any order).
func outputs(rules []config.Rule, msg []byte, dropped func(line []byte) bool) map[string][]string {
	per := make([][]byte, len(rules)+1)
	for _, line := range ref.Lines(msg) {
		if dropped != nil && dropped(line) {
			continue
		}
		idx, sorted, ok := ref.Route(rules, line)
		if !ok {
			continue
		}
		if idx < 0 {
			idx = len(rules)
		}
		per[idx] = append(per[idx], sorted...)
	}
	out := map[string][]string{}
	for i, b := range per {
		if len(b) == 0 {
			continue
		}
		subject := junk
		if i < len(rules) {
			subject = rules[i].Subject
		}
		out[subject] = append(out[subject], string(b))
	}
	return out
}

func rulesString(rules []config.Rule) string {
	var s []string
	for _, r := range rules {
		s = append(s, gen.RuleString(r))
	}
	return strings.Join(s, "; ")
}

// rig is a running filter.
type rig struct {
	conf   *config.Config
	prefix string
	col    *sut.Collector
	m      *sut.Metrics
	comp   sut.Component
}

func startRig(rules []config.Rule, adjust func(*config.Config)) *rig {
	r := &rig{prefix: sut.Unique()}
	r.conf = sut.Config(sut.NATS(), "filter", r.prefix)
	subjects := []string{}
	for _, rule := range rules {
		if rule.Subject != "" {
			rule.Subject = r.prefix + "." + rule.Subject
			subjects = append(subjects, rule.Subject)
		}
		r.conf.Rule = append(r.conf.Rule, rule)
	}
	subjects = append(subjects, r.conf.NATSSubjectJunkyard)
	if adjust != nil {
		adjust(r.conf)
	}
	r.col = sut.Collect(sut.Conn(), subjects...)
	r.m = sut.Watch(sut.Conn(), r.conf.NATSSubjectMonitor)
	r.comp = sut.MustStart(r.conf)
	return r
}

func (r *rig) close() {
	r.col.Close()
	r.m.Close()
	sut.StopLater(r.comp, r.conf)
}

func (r *rig) publish(msg []byte) { sut.Publish(sut.Conn(), r.conf.NATSSubject[0], msg) }

// got returns the messages by subject.
func (r *rig) got() map[string][]string {
	out := map[string][]string{}
	for _, m := range r.col.Msgs() {
		s := strings.TrimPrefix(m.Subject, r.prefix+".")
		out[s] = append(out[s], string(m.Data))
	}
	return out
}

// The last message consists of this line. Wherever it goes, the output
// of the messages before it was published before.
const sentinel = "sentinel v=1\n"

// process sends messages to a filter with one worker and compares the
// output.
func process(rules []config.Rule, msgs [][]byte, adjust func(*config.Config), dropped func([]byte) bool, wait time.Duration) error {
	r := startRig(rules, adjust)
	defer r.close()
	return r.process(rules, msgs, dropped, wait)
}

func (r *rig) process(rules []config.Rule, msgs [][]byte, dropped func([]byte) bool, wait time.Duration) error {
	msgs = append(append([][]byte{}, msgs...), []byte(sentinel))
	size := 0
	var want []map[string][]string
	for _, m := range msgs {
		out := outputs(rules, m, dropped)
		want = append(want, out)
		for _, ms := range out {
			for _, s := range ms {
				size += len(s)
			}
		}
		r.publish(m)
	}
	arrived := r.col.WaitBytes(wait, size)
	r.col.Fence()
	got := r.got()
	for i, out := range want {
		for subject, ms := range out {
			g := got[subject]
			n := min(len(g), len(ms))
			if err := sameMessages(g[:n], ms, len(g) < len(ms)); err != nil {
				return fmt.Errorf("for message %d %.300q, %v on subject %s", i, msgs[i], err, subject)
			}
			got[subject] = g[n:]
		}
	}
	for subject, g := range got {
		if len(g) > 0 {
			return fmt.Errorf("unexpected message %.300q on subject %s", g[0], subject)
		}
	}
	if !arrived {
		return hz.Softf("some output is missing")
	}
	return nil
}

func sameMessages(got, want []string, partial bool) error {
	got = append([]string(nil), got...)
	want = append([]string(nil), want...)
	if partial {
		return hz.Softf("got %.300q instead of %.300q", got, want)
	}
	sort.Strings(got)
	sort.Strings(want)
	for i := range want {
		if got[i] != want[i] {
			return fmt.Errorf("got %.600q instead of %.600q", got[i], want[i])
		}
	}
	return nil
}

type sutMsg = sut.Msg

func allData(ms []sut.Msg) [][]byte {
	var out [][]byte
	for _, m := range ms {
		out = append(out, m.Data)
	}
	return out
}
