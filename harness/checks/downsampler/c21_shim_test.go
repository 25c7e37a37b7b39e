//go:build !noshim

package downsampler

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/downsampler"
	"pgregory.net/rapid"
	"verif/harness/hz"
)

// history is what is checked of an assigner with a clock of the check.
type history struct {
	c       *hz.C
	a       *downsampler.VerifAssigner
	p       time.Duration
	now     time.Time
	pending map[int64]model // by end of period
	last    int64           // end of the last period emitted
	log     strings.Builder
	seq     int
	behind  bool // Bytes was not called as often as possible since the clock was advanced
	jumps   int
	edges   int
}

func (h *history) logf(format string, args ...interface{}) {
	fmt.Fprintf(&h.log, format+"\n", args...)
}

func (h *history) fail(format string, args ...interface{}) {
	h.c.Fatalf("%s\nperiod %v; history:\n%s", fmt.Sprintf(format, args...), h.p, h.log.String())
}

// bytes calls Bytes once and checks what is emitted.
func (h *history) bytes() int {
	out := h.a.Bytes()
	byEnd := map[int64][]byte{}
	for _, line := range bytes.SplitAfter(out, []byte("\n")) {
		if len(line) == 0 {
			continue
		}
		e, err := parseOutput(bytes.TrimSuffix(line, []byte("\n")))
		if err != nil {
			h.fail("%v", err)
		}
		byEnd[e.ts] = append(byEnd[e.ts], line...)
	}
	var ends []int64
	for end := range byEnd {
		ends = append(ends, end)
	}
	sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
	for _, end := range ends {
		if end <= h.last {
			h.fail("the period ending at %d is emitted after the one ending at %d", end, h.last)
		}
		h.last = end
		if at := time.Unix(0, end).Add(h.p); h.now.Before(at) {
			h.fail("at %d, the period ending at %d is emitted, which is too early", h.now.UnixNano(), end)
		}
		m := h.pending[end]
		if m == nil {
			h.fail("nothing is expected for the period ending at %d: %.300q", end, byEnd[end])
		}
		if err := m.compare(byEnd[end], end); err != nil {
			h.fail("in the period ending at %d: %v", end, err)
		}
		delete(h.pending, end)
	}
	return len(ends)
}

// settle calls Bytes until all is emitted what has to be.
func (h *history) settle(calls int) {
	for i := 0; i < calls; i++ {
		h.bytes()
	}
	for end := range h.pending {
		if !h.now.Before(time.Unix(0, end).Add(h.p)) {
			h.fail("at %d, the period ending at %d was not emitted", h.now.UnixNano(), end)
		}
	}
	h.behind = false
}

func (h *history) end(t time.Time) time.Time { return floor(t, h.p).Add(h.p) }

func (h *history) point() {
	t := h.c.T
	h.seq++
	p := point{key: fmt.Sprintf("s,id=%d", h.seq), fields: []field{{"f", kInt, fmt.Sprintf("%di", h.seq)}}}
	if hz.Chance(t, 40, "shared") {
		p.key = "shared"
		p.fields[0].name = hz.One(t, "name", "f", "g")
	}
	line := p.line()
	now := h.end(h.now) // end of the current period
	ts := h.now
	switch hz.Int(t, 0, 9, "timestamp") {
	case 0: // none
	case 1, 2, 3, 4, 5: // the limits of the periods
		ts = now.Add(time.Duration(hz.Int(t, -4, 3, "periods")) * h.p).Add(time.Duration(hz.One(t, "offset", 0, 0, -1, -1, 1, -1000, 1000)))
		line += fmt.Sprintf(" %d", ts.UnixNano())
		h.edges++
	case 6: // near now
		ts = ts.Add(time.Duration(hz.One(t, "offset", 0, -1, 1, int64(h.p)/2, -int64(h.p)/2, int64(h.p), -int64(h.p))))
		line += fmt.Sprintf(" %d", ts.UnixNano())
	case 7, 8:
		ts = now.Add(time.Duration(rapid.Int64Range(-4*int64(h.p), 3*int64(h.p)).Draw(t, "offset")))
		line += fmt.Sprintf(" %d", ts.UnixNano())
	case 9:
		ts = time.Unix(0, hz.One(t, "any", 0, 1, -1, math.MaxInt64, math.MinInt64, 1500000000, rapid.Int64().Draw(t, "ts")))
		line += fmt.Sprintf(" %d", ts.UnixNano())
	}
	accepted := !ts.Before(now.Add(-2*h.p)) && ts.Before(now.Add(h.p))
	h.logf("at %d: %s", h.now.UnixNano(), line)
	if hz.Chance(t, 80, "newline") {
		line += "\n"
	}
	errs := h.a.Update([]byte(line))
	if h.behind {
		// Which lines are accepted before the periods which are due
		// have been emitted isn't specified.
		accepted = len(errs) == 0
	}
	switch {
	case accepted && len(errs) > 0:
		h.fail("the line %q is rejected: %v", line, errs)
	case !accepted && len(errs) != 1:
		h.fail("%d errors for line %q, which is outside of the periods", len(errs), line)
	case accepted:
		end := h.end(ts).UnixNano()
		m := h.pending[end]
		if m == nil {
			m = model{}
			h.pending[end] = m
		}
		m.add(p)
	}
}

// On an assigner with a clock of the check.
func TestC21_History(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 12000, Thorough: 600000,
		Rule: "generated histories of lines (timestamps at the periods' limits to the nanosecond, none, and extreme ones), steps of the clock (also of several periods) and calls of Bytes, for generated periods and start times, compared with a model; non-trivial: at least three timestamps around a limit and two steps across a limit"},
		func(c *hz.C) {
			h := &history{c: c, pending: map[int64]model{}, last: math.MinInt64}
			h.p = time.Duration(hz.One(c.T, "period", int64(time.Second), int64(time.Minute), int64(time.Minute), int64(time.Hour), int64(10*time.Second), int64(5*time.Minute),
				int64(7*time.Second), int64(90*time.Second), int64(333*time.Millisecond), int64(time.Millisecond), int64(24*time.Hour), int64(7*24*time.Hour), 1000, 7919, rapid.Int64Range(1, int64(30*24*time.Hour)).Draw(c.T, "any")))
			h.now = time.Unix(0, hz.One(c.T, "start", 1500000000e9, 1500000000e9, rapid.Int64Range(86400e9*365, 7e18).Draw(c.T, "any")))
			if hz.Chance(c.T, 40, "aligned") {
				h.now = floor(h.now, h.p).Add(time.Duration(hz.One(c.T, "offset", 0, 0, 1, -1)))
			}
			h.a = downsampler.VerifNewAssigner(h.p, func() time.Time { return h.now })
			h.logf("start at %d", h.now.UnixNano())
			for n := hz.One(c.T, "ops", 3, 10, 25, 60); n > 0; n-- {
				switch hz.One(c.T, "op", "point", "point", "point", "point", "step", "step", "bytes") {
				case "point":
					h.point()
				case "bytes":
					h.logf("at %d: Bytes()", h.now.UnixNano())
					h.bytes()
				case "step":
					before := h.end(h.now)
					switch hz.Int(c.T, 0, 6, "step") {
					case 0:
						h.now = h.now.Add(time.Duration(rapid.Int64Range(0, int64(h.p)).Draw(c.T, "d")))
					case 1, 2:
						h.now = before.Add(time.Duration(hz.One(c.T, "offset", 0, 0, 1, -1)))
					case 3:
						h.now = h.now.Add(h.p)
					case 4:
						h.now = h.now.Add(time.Duration(hz.Int(c.T, 2, 6, "periods")) * h.p)
					case 5:
						h.now = before.Add(time.Duration(hz.Int(c.T, 1, 5, "periods"))*h.p - time.Duration(hz.Int(c.T, 0, 1, "offset")))
					case 6:
						h.now = h.now.Add(time.Duration(rapid.Int64Range(0, 5*int64(h.p)).Draw(c.T, "d")))
					}
					crossed := int(h.end(h.now).Sub(before) / h.p)
					if crossed > 0 {
						h.jumps++
						c.LabelIf(crossed > 1, "several periods at once")
					}
					calls := crossed + 3
					if h.behind || hz.Chance(c.T, 15, "behind") {
						h.logf("step to %d", h.now.UnixNano())
						h.behind = true
						c.Label("lines before what is due was emitted")
						calls = hz.Int(c.T, 0, calls, "calls")
						for i := 0; i < calls; i++ {
							h.bytes()
						}
						if hz.Chance(c.T, 30, "catch up") {
							h.logf("catch up")
							h.settle(400)
						}
						break
					}
					h.logf("step to %d, calling Bytes until nothing is due", h.now.UnixNano())
					h.settle(calls)
				}
			}
			h.logf("finally, wait until all is emitted")
			h.settle(400)
			for i := 0; i < 4; i++ {
				h.now = h.now.Add(h.p)
				h.settle(3)
			}
			if len(h.pending) > 0 {
				h.fail("some periods were never emitted")
			}
			if h.edges > 2 && h.jumps > 1 {
				c.NonTrivial(h.p, h.log.String())
			}
			c.Sample(func() string { return fmt.Sprintf("period %v: %s", h.p, h.log.String()) })
		})
}
