package downsampler

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"verif/harness/hz"
)

const e2ePeriod = 250 * time.Millisecond

// genWorld generates a downsampler with lines for it.
func genWorld(c *hz.C, subjects int) *world {
	w := &world{subjects: subjects, suffix: hz.One(c.T, "suffix", "-archive", "-archive", "-x", ".ds"), period: e2ePeriod}
	kinds := make([][2]map[string]kind, subjects)
	seen := make([][2]model, subjects)
	for i := range kinds {
		kinds[i] = [2]map[string]kind{{}, {}}
		seen[i] = [2]model{{}, {}}
	}
	for n := hz.One(c.T, "messages", 1, 3, 8, 20); n > 0; n-- {
		m := message{subject: hz.Int(c.T, 0, subjects-1, "subject")}
		for k := hz.One(c.T, "lines", 1, 1, 3, 10); k > 0; k-- {
			period := hz.Int(c.T, 0, 1, "period")
			p := genPoint(c.T, kinds[m.subject][period])
			l := line{text: p.line(), points: []point{p}, period: period}
			l.offset = time.Duration(hz.One(c.T, "offset", 0, 1, int(w.period)-1, hz.Int(c.T, 0, int(w.period)-1, "any")))
			l.conflicts = seen[m.subject][l.period].add(p)
			m.lines = append(m.lines, l)
		}
		w.msgs = append(w.msgs, m)
	}
	return w
}

// addRejected inserts lines outside of the periods.
func addRejected(c *hz.C, w *world) {
	for i := range w.msgs {
		if !hz.Chance(c.T, 30, "rejected") {
			continue
		}
		l := line{text: hz.One(c.T, "line", "cpu f=1i", "cpu f=1", "mem,host=a g=\"x\"", "r f=1i"), period: hz.One(c.T, "period", -2, -3, -1000, 3, 4, 1000)}
		l.offset = time.Duration(hz.One(c.T, "offset", 0, int(w.period)-1))
		insert(c, &w.msgs[i], l)
	}
}

func insert(c *hz.C, m *message, l line) {
	at := hz.Int(c.T, 0, len(m.lines), "at")
	m.lines = append(append(append([]line(nil), m.lines[:at]...), l), m.lines[at:]...)
}

// A running downsampler, in real time.
func TestC20_E2E(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 5, Thorough: 40,
		Rule: "ten running downsamplers at a time, each fed with generated points (as above) of two periods in several messages; the published lines are compared with exact means and latest values; non-trivial: all (each downsampler is a case)"},
		func(c *hz.C) {
			var ws []*world
			for i := 0; i < 10; i++ {
				w := genWorld(c, 1)
				w.values = true
				ws = append(ws, w)
			}
			for _, w := range ws {
				c.Sub(true, w.String())
			}
			c.Sample(func() string { return ws[0].String() })
			runAll(c, ws)
		})
}

// A running downsampler, in real time.
func TestC21_E2E(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 5, Thorough: 40,
		Rule: "ten running downsamplers at a time, fed with lines of the current and the next period (limits included), without timestamps and with timestamps outside of the periods; stamps and times of output are checked; non-trivial: a timestamp on a limit and one outside"},
		func(c *hz.C) {
			var ws []*world
			for i := 0; i < 10; i++ {
				w := genWorld(c, hz.Int(c.T, 1, 2, "subjects"))
				w.period = time.Duration(hz.One(c.T, "period", 200, 250, 333, 250, 400)) * time.Millisecond
				for j := range w.msgs {
					for k := range w.msgs[j].lines {
						w.msgs[j].lines[k].offset = time.Duration(hz.One(c.T, "offset", 0, 0, 1, int(w.period)-1, int(w.period)-1, hz.Int(c.T, 0, int(w.period)-1, "any")))
					}
				}
				addRejected(c, w)
				for j := range w.msgs {
					if hz.Chance(c.T, 30, "none") {
						p := point{key: fmt.Sprintf("untimed,n=%d", j), fields: []field{{"f", kInt, "1i"}}}
						insert(c, &w.msgs[j], line{text: p.line(), points: []point{p}, noTS: true})
					}
				}
				ws = append(ws, w)
			}
			for _, w := range ws {
				c.Sub(true, w.String())
			}
			c.Sample(func() string { return ws[0].String() })
			runAll(c, ws)
		})
}

// Subjects, sizes and metrics.
func TestC22_Subjects(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 5, Thorough: 40,
		Rule: "ten running downsamplers at a time, each with one to four subjects, fed with valid lines, malformed lines and lines outside of the periods; output per subject, its suffix and metrics are compared with a model; non-trivial: at least two subjects with lines"},
		func(c *hz.C) {
			var ws []*world
			for i := 0; i < 10; i++ {
				w := genWorld(c, hz.Int(c.T, 1, 4, "subjects"))
				addRejected(c, w)
				for j := range w.msgs {
					if hz.Chance(c.T, 20, "malformed") {
						insert(c, &w.msgs[j], line{text: hz.One(c.T, "line", "cpu f", "cpu f=", `cpu f="x`, "cpu =1", "cpu f=1i,g", "cpu f=1i,", `cpu f="a"x`), malformed: true})
					}
				}
				used := map[int]bool{}
				for _, m := range w.msgs {
					used[m.subject] = true
				}
				c.Sub(len(used) > 1, w.String())
				ws = append(ws, w)
			}
			c.Sample(func() string { return ws[0].String() })
			runAll(c, ws)
		})
}

// Much output.
func TestC22_Large(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 2, Thorough: 25,
		Rule: "four running downsamplers at a time whose output of a period is around or above 1 MB (some exactly), in lines of generated lengths; messages must be of at most 1 MB, of complete lines, and contain all series once; non-trivial: all (each downsampler is a case)"},
		func(c *hz.C) {
			var ws []*world
			for i := 0; i < 4; i++ {
				w := &world{subjects: hz.Int(c.T, 1, 2, "subjects"), suffix: "-archive", period: time.Second}
				for s := 0; s < w.subjects; s++ {
					w.msgs = append(w.msgs, genLarge(c, s)...)
				}
				ws = append(ws, w)
			}
			for _, w := range ws {
				c.Sub(true, w.String())
			}
			c.Sample(func() string { return ws[0].String() })
			runAll(c, ws)
		})
}

func genLarge(c *hz.C, subject int) []message {
	total := hz.One(c.T, "total", maxMsg-1, maxMsg, maxMsg+1, maxMsg+10, 2*maxMsg, 2*maxMsg+1, 3*maxMsg/2, 5*maxMsg/2)
	shape := hz.One(c.T, "shape", "short", "equal", "mixed", "long")
	const rest = len(" f=1i ") + 19 + len("\n")
	var msgs []message
	m := message{subject: subject}
	size := 0
	for n := 0; total > 0; n++ {
		key := fmt.Sprintf("m%d,t=", n)
		l := 200
		switch shape {
		case "short":
			l = 120 + n%7
		case "mixed":
			l = hz.Int(c.T, 100, 2000, "length")
			if n%50 == 0 {
				l = hz.Int(c.T, 100, 50000, "length")
			}
		case "long":
			l = hz.Int(c.T, 100000, 400000, "length")
		}
		// The last line makes it exact.
		if total < l+200 {
			l = total
		}
		l = max(l, len(key)+1+rest)
		total -= l
		key += strings.Repeat("x", l-rest-len(key))
		p := point{key: key, fields: []field{{"f", kInt, "1i"}}}
		if size+l > maxMsg {
			msgs = append(msgs, m)
			m = message{subject: subject}
			size = 0
		}
		size += l
		m.lines = append(m.lines, line{text: p.line(), points: []point{p}, period: 1})
	}
	return append(msgs, m)
}
