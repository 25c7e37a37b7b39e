package downsampler

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// line is a line sent to a downsampler.
type line struct {
	text      string // without timestamp and newline
	points    []point
	conflicts int
	malformed bool

	period int           // 0: the current one, 1: the next one, others: rejected
	offset time.Duration // from the start of the period
	noTS   bool          // the time of arrival
}

// message is a message sent to a downsampler.
type message struct {
	subject int
	lines   []line
}

// world is a downsampler and what is sent to it.
type world struct {
	subjects int
	suffix   string
	period   time.Duration
	msgs     []message
	values   bool // only the values are of interest
}

func (w *world) String() string {
	var s strings.Builder
	fmt.Fprintf(&s, "%d subjects, suffix %q, period %v", w.subjects, w.suffix, w.period)
	for _, m := range w.msgs {
		fmt.Fprintf(&s, "; to %d:", m.subject)
		for _, l := range m.lines {
			fmt.Fprintf(&s, " %.100q(period %d+%v)", l.text, l.period, l.offset)
			if s.Len() > 2000 {
				return s.String()
			}
		}
	}
	return s.String()
}

const maxMsg = 1 << 20

// run sends everything to a downsampler and checks its output.
func (w *world) run(wait time.Duration) error {
	prefix := sut.Unique()
	conf := sut.Config(sut.NATS(), "downsampler", prefix)
	conf.NATSSubject = nil
	in := map[string]bool{}
	for i := 0; i < w.subjects; i++ {
		s := fmt.Sprintf("%s.s%d", prefix, i)
		conf.NATSSubject = append(conf.NATSSubject, s)
		in[s] = true
	}
	conf.DownsamplePeriod = config.NewDuration(w.period)
	conf.DownsampleSuffix = w.suffix
	conf.NATSSubjectMonitor = "mon" + prefix
	col := sut.Collect(sut.Conn(), prefix+".>")
	defer col.Close()
	m := sut.Watch(sut.Conn(), conf.NATSSubjectMonitor)
	defer m.Close()
	comp := sut.MustStart(conf)
	defer sut.StopLater(comp, conf)

	start := time.Now()
	end := floor(start, w.period).Add(w.period)
	models := make([]map[int64]model, w.subjects)
	untimed := make([]map[string]bool, w.subjects)
	for i := range models {
		models[i] = map[int64]model{}
		untimed[i] = map[string]bool{}
	}
	received, minLines, maxLines, rejected := 0, 0, 0, 0
	for _, msg := range w.msgs {
		var data []byte
		for _, l := range msg.lines {
			data = append(data, l.text...)
			pEnd := end.Add(time.Duration(l.period) * w.period)
			if !l.noTS {
				data = append(data, fmt.Sprintf(" %d", pEnd.Add(l.offset-w.period).UnixNano())...)
			}
			data = append(data, '\n')
			if l.period < 0 || l.period > 1 {
				rejected++
				continue
			}
			if l.malformed {
				minLines++
				maxLines++
				continue
			}
			if l.conflicts > 0 {
				minLines++
				maxLines += l.conflicts
			}
			if l.noTS {
				untimed[msg.subject][l.points[0].key] = true
				continue
			}
			md := models[msg.subject][pEnd.UnixNano()]
			if md == nil {
				md = model{}
				models[msg.subject][pEnd.UnixNano()] = md
			}
			for _, p := range l.points {
				md.add(p)
			}
		}
		sut.Publish(sut.Conn(), conf.NATSSubject[msg.subject], data)
		received++
	}
	if !m.WaitFor(wait, "received", int64(received)) {
		return hz.Softf("only %d of %d messages are reported as received", m.Get("received"), received)
	}
	// What has been received so far belongs to the periods up to this one.
	lastEnd := floor(time.Now(), w.period).Add(w.period)
	if time.Since(start) > w.period {
		return hz.Softf("the messages are not processed soon enough")
	}

	// Wait for the output.
	emittedLines := func(ms []sut.Msg) (n int) {
		for _, msg := range ms {
			if !in[msg.Subject] {
				n += bytes.Count(msg.Data, []byte("\n"))
			}
		}
		return n
	}
	wantLines := 0
	for i := range models {
		for _, md := range models[i] {
			wantLines += len(md)
		}
		wantLines += len(untimed[i])
	}
	arrived := false
	time.Sleep(time.Until(lastEnd.Add(w.period)))
	for next := lastEnd.Add(2 * w.period); ; next = next.Add(w.period) {
		time.Sleep(time.Until(next))
		arrived = col.Wait(wait, func(ms []sut.Msg) bool { return emittedLines(ms) >= wantLines })
		if arrived || time.Since(start) > wait {
			break
		}
	}
	// Nothing else must be emitted.
	time.Sleep(w.period / 4)

	per := make([]map[int64][]byte, w.subjects)
	sizes := map[string]int{}
	for i := range per {
		per[i] = map[int64][]byte{}
	}
	lastTS := map[int]int64{}
	for _, msg := range col.Msgs() {
		if in[msg.Subject] {
			continue
		}
		name := strings.TrimSuffix(strings.TrimPrefix(msg.Subject, prefix+"."), w.suffix)
		var i int
		if n, _ := fmt.Sscanf(name, "s%d", &i); n != 1 || conf.NATSSubject[min(max(i, 0), w.subjects-1)]+w.suffix != msg.Subject {
			return fmt.Errorf("a message is published to an unexpected subject: %.200q", strings.TrimPrefix(msg.Subject, prefix))
		}
		if len(msg.Data) > maxMsg {
			return fmt.Errorf("a message of %d bytes is published", len(msg.Data))
		}
		if !bytes.HasSuffix(msg.Data, []byte("\n")) {
			return fmt.Errorf("a message does not end with a complete line: %.50q...", msg.Data[max(0, len(msg.Data)-50):])
		}
		for _, line := range bytes.Split(msg.Data[:len(msg.Data)-1], []byte("\n")) {
			e, err := parseOutput(line)
			if err != nil {
				return err
			}
			if e.ts < lastTS[i] {
				return fmt.Errorf("periods are emitted out of order")
			}
			lastTS[i] = e.ts
			pEnd := time.Unix(0, e.ts)
			if !floor(pEnd, w.period).Equal(pEnd) {
				return fmt.Errorf("the timestamp of %.200q is not a multiple of the period", line)
			}
			if msg.At.Before(pEnd.Add(w.period)) {
				return fmt.Errorf("output is published before the following period has ended")
			}
			if late := msg.At.Sub(pEnd.Add(w.period)); late > wait/2 {
				return hz.Softf("output is published too late")
			}
			if untimed[i][e.key] {
				if pEnd.Before(end) || pEnd.After(lastEnd) {
					return fmt.Errorf("a line without timestamp is not aggregated into the period of its arrival")
				}
				delete(untimed[i], e.key)
				continue
			}
			per[i][e.ts] = append(append(per[i][e.ts], line...), '\n')
		}
		sizes[fmt.Sprintf("%d %d", i, lastTS[i])] += len(msg.Data)
	}
	for i := range per {
		for ts, md := range models[i] {
			if len(per[i][ts]) == 0 && len(md) > 0 {
				return hz.Softf("a period's output is missing")
			}
			if err := md.compare(per[i][ts], ts); err != nil {
				if !arrived {
					return hz.Softf("subject %d: %v", i, err)
				}
				return fmt.Errorf("subject %d: %v", i, err)
			}
			delete(per[i], ts)
		}
		for _, out := range per[i] {
			return fmt.Errorf("unexpected output: %.300q", out)
		}
		for key := range untimed[i] {
			return hz.Softf("the series %q is missing", key)
		}
	}

	if w.values {
		return nil
	}
	if !m.WaitFor(wait, "sent", int64(len(sizes))) {
		return hz.Softf("sent is %d after the output of %d periods", m.Get("sent"), len(sizes))
	}
	if !m.Fresh(wait, "sent") {
		return hz.Softf("metrics are not reported regularly")
	}
	for key, ok := range map[string]func(int64) bool{
		"received":            func(v int64) bool { return v == int64(received) },
		"sent":                func(v int64) bool { return v == int64(len(sizes)) },
		"invalid_lines":       func(v int64) bool { return int64(minLines) <= v && v <= int64(maxLines) },
		"invalid_timestamps":  func(v int64) bool { return v == int64(rejected) },
		"failed_nats_publish": func(v int64) bool { return v == 0 },
	} {
		if v := m.Get(key); !ok(v) {
			return fmt.Errorf("%s is %d after %d messages, %d periods' output, %d to %d errors and %d rejected timestamps", key, v, received, len(sizes), minLines, maxLines, rejected)
		}
	}
	return nil
}

// runAll runs several downsamplers at the same time.
func runAll(c *hz.C, ws []*world) {
	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		errs := make([]error, len(ws))
		var wg sync.WaitGroup
		for i, w := range ws {
			wg.Add(1)
			go func() {
				defer wg.Done()
				w := *w
				if wait > 3*time.Second {
					// Give the machine more time.
					w.period *= time.Duration(wait / (3 * time.Second))
					w.msgs = append([]message(nil), w.msgs...)
					for i := range w.msgs {
						ls := append([]line(nil), w.msgs[i].lines...)
						for j := range ls {
							ls[j].offset *= time.Duration(wait / (3 * time.Second))
						}
						w.msgs[i].lines = ls
					}
				}
				errs[i] = w.run(wait)
			}()
		}
		wg.Wait()
		var soft error
		for i, err := range errs {
			if err == nil {
				continue
			}
			if _, ok := err.(*hz.Soft); ok {
				soft = err
				continue
			}
			return fmt.Errorf("%v; downsampler with %v", err, ws[i])
		}
		return soft
	})
}
