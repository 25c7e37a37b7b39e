package bus

import (
	"bytes"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// overload is a burst of messages for a component which can't get rid
// of its output for a while.
type overload struct {
	mode     string
	subjects int
	workers  int
	count    int // batch_max_count of writers
	limit    int // nats_max_pending_size
	size     int // bytes per message
	n        int // messages per subject
	unequal  bool
	fields   bool // much to do for a downsampler
}

// afterwards is how many messages follow when the burst is over.
const afterwards = 3

func (o overload) String() string {
	return fmt.Sprintf("a %s with %d subjects, %d workers, batches of %d messages and nats_max_pending_size %d; %d messages of %d bytes per subject (unequal: %v)",
		o.mode, o.subjects, o.workers, o.count, o.limit, o.n, o.size, o.unequal)
}

// message makes a message of several lines, or of one for downsamplers.
func (o *overload) message(subject, i int) []byte {
	var b []byte
	fill := bytes.Repeat([]byte{'x'}, 900)
	if o.mode == "downsampler" {
		b = fmt.Appendf(b, "m,a=%d,i=%d,l=0,p=y", subject, i)
		if o.fields {
			b = append(b, " f=1"...)
			for k := 0; len(b) < o.size-7; k++ {
				b = fmt.Appendf(b, ",%c%c=%di", 'a'+k/26%26, 'a'+k%26, k)
			}
			return append(b, '\n')
		}
		for len(b) < o.size-5 {
			b = append(b, fill[:min(len(fill), o.size-5-len(b))]...)
		}
		return append(b, " f=1\n"...)
	}
	for l := 0; len(b) < o.size; l++ {
		b = fmt.Appendf(b, "m,a=%d,i=%d,l=%d,", subject, i, l)
		pad := min(o.size-len(b), 1000) - len("p= f=1\n")
		b = append(b, "p=y"...)
		b = append(b, fill[:max(0, min(pad-1, len(fill)))]...)
		b = append(b, " f=1\n"...)
	}
	return b
}

func TestC38_Overload(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 50, Thorough: 1000, Budget: time.Duration(hz.Pick(90, 900)) * time.Second,
		Rule: "bursts of messages with a generated total size, around and above what may be pending, for filters, writers and downsamplers whose output is held back meanwhile; afterwards, for each subject, the messages processed (as a whole, once) and those counted in nats_dropped must be all, nothing may be dropped below the limit, and not more may have been kept than the limit allows; non-trivial: something was dropped, or more than half of the limit was used"},
		func(c *hz.C) {
			kind := hz.One(c.T, "kind", "usual", "usual", "usual", "tiny", "busy")
			o := &overload{mode: hz.One(c.T, "mode", "filter", "writer", "downsampler"), workers: hz.One(c.T, "workers", 1, 2, 4), subjects: 1}
			switch kind {
			case "tiny":
				o.mode = hz.One(c.T, "tiny mode", "filter", "writer")
			case "busy":
				o.mode = "downsampler"
			}
			if o.mode != "filter" {
				o.subjects = hz.One(c.T, "subjects", 1, 2, 2)
			}
			o.unequal = o.subjects > 1 && hz.Chance(c.T, 50, "unequal")
			o.count = hz.One(c.T, "count", 1, 10, 100)
			o.limit = hz.One(c.T, "limit", 100<<10, 1<<20, 3<<20, 8<<20)
			o.size = hz.One(c.T, "size", 100, 500, 1000, 1000, 5000, 20000, 40000)
			// The size of the burst in terms of what can be kept.
			kept := o.limit + o.slack()
			percent := hz.One(c.T, "percent", -95, -90, -85, -50, 120, 150, 250)
			if percent < 0 {
				o.n = o.limit / 100 * -percent / o.size
			} else {
				o.n = kept / 100 * percent / o.size
			}
			o.n = min(max(o.n, 1), 120<<20/o.size/o.subjects, 150000)
			o.fields = o.mode == "downsampler" && hz.Chance(c.T, 50, "fields")
			switch kind {
			case "busy":
				// It takes longer to process than to receive.
				o.fields = hz.Chance(c.T, 80, "busy fields")
				o.limit = 8 << 20
				o.size = hz.One(c.T, "busy size", 300, 600, 1000)
				o.n = o.limit / 100 * hz.One(c.T, "busy percent", 70, 95, 95) / o.size
			case "tiny":
				// Many messages, but few bytes.
				o.limit = 64 << 20
				o.size = hz.One(c.T, "tiny size", 60, 100)
				o.subjects = 1
				o.n = hz.One(c.T, "tiny messages", 70000, 150000, 300000)
			}
			dropped := 0
			hz.Attempts(c, 8*time.Second, func(wait time.Duration) (err error) {
				dropped, err = o.run(wait)
				return err
			})
			c.Label(o.mode)
			c.LabelIf(dropped > 0, o.mode+" dropped some")
			c.LabelIf(o.n*o.size < o.limit, "below the limit")
			if dropped > 0 || o.n*o.size*2 > o.limit {
				c.NonTrivial(o.String())
			}
			c.Sample(func() string { return fmt.Sprintf("%v: %d dropped", o, dropped) })
		})
}

// slack is how much, in bytes, may be on its way in addition to what is
// pending.
func (o *overload) slack() int {
	messages := 1024 + 100 + 2*o.workers*o.count // queues between goroutines, and batches
	return messages*o.size*max(1, o.subjects) + 12<<20*max(o.workers, o.subjects)
}

func (o *overload) run(wait time.Duration) (int, error) {
	nc := sut.Conn()
	prefix := sut.Unique()
	link := sut.NewLink(sut.NATS())
	defer link.Close()
	conf := sut.Config(sut.NATS(), o.mode, prefix)
	conf.NATSAddress = link.URL()
	conf.NATSMaxPendingSize = datasize.ByteSize(o.limit)
	conf.Workers = o.workers
	conf.BatchMaxCount = o.count
	conf.BatchMaxSize = 10 << 20
	conf.BatchMaxAge = config.NewDuration(50 * time.Millisecond)
	conf.StatsInterval = config.NewDuration(20 * time.Millisecond)
	conf.DownsamplePeriod = config.NewDuration(100 * time.Millisecond)
	conf.NATSSubject = nil
	outs := []string{}
	for i := 0; i < o.subjects; i++ {
		s := fmt.Sprintf("%s.s%d", prefix, i)
		conf.NATSSubject = append(conf.NATSSubject, s)
		outs = append(outs, s+conf.DownsampleSuffix)
	}
	if o.mode == "filter" {
		outs = []string{conf.NATSSubjectJunkyard}
	}
	gate := make(chan struct{})
	var once sync.Once
	open := func() {
		once.Do(func() {
			close(gate)
			link.Resume()
		})
	}
	influx := sut.NewInflux(func(int, *sut.Request) sut.Outcome { <-gate; return sut.Outcome{} })
	defer influx.Close()
	conf.InfluxDBPort = influx.Port
	var col *sut.Collector
	if o.mode != "writer" {
		col = sut.Collect(nc, outs...)
		defer col.Close()
	}
	m := sut.Watch(nc, conf.NATSSubjectMonitor)
	defer m.Close()
	comp := sut.MustStart(conf)
	defer sut.StopLater(comp, conf)
	defer open()
	if o.mode != "writer" {
		link.Stall()
	}

	// Made before, so that they are published as fast as possible.
	msgs := make([][][]byte, o.subjects)
	for s := range msgs {
		for i := 0; i < o.n+afterwards; i++ {
			msgs[s] = append(msgs[s], o.message(s, i))
		}
	}
	begin := time.Now()
	if o.mode == "downsampler" {
		// A downsampler which can't publish doesn't receive either,
		// which holds up the server and its clients after a while.
		defer time.AfterFunc(time.Second, open).Stop()
	}
	sent := make([]int, o.subjects)
	sentBytes := make([]int, o.subjects)
	full := make([][]int, o.subjects) // lines per message
	for s := range full {
		full[s] = make([]int, o.n+afterwards)
	}
	publish := func(i int) {
		for s := 0; s < o.subjects; s++ {
			if o.unequal && s == 1 && i%3 > 0 {
				continue
			}
			msg := msgs[s][i]
			full[s][i] = bytes.Count(msg, []byte("\n"))
			sut.Publish(nc, conf.NATSSubject[s], msg)
			sent[s]++
			sentBytes[s] += len(msg)
		}
	}
	for i := 0; i < o.n; i++ {
		publish(i)
	}
	sut.Flush(nc)
	if time.Since(begin) > 20*time.Second {
		return 0, hz.Softf("publishing takes too long")
	}
	// The component's client receives the rest.
	time.Sleep(wait / 20)
	open()

	// What was not dropped is processed.
	metric := map[string]string{"filter": "processed", "writer": "received", "downsampler": "received"}[o.mode]
	tally := newTally(o, full)
	seenMsgs, seenReqs := 0, 0
	read := func() {
		if o.mode == "writer" {
			influx.Wait(0, func(reqs []*sut.Request) bool {
				for ; seenReqs < len(reqs); seenReqs++ {
					tally.add(reqs[seenReqs].Body)
				}
				return true
			})
		} else {
			col.Wait(0, func(ms []sut.Msg) bool {
				for ; seenMsgs < len(ms); seenMsgs++ {
					tally.add(ms[seenMsgs].Data)
				}
				return true
			})
		}
	}
	drops := func() (total int, per []int) {
		for _, s := range conf.NATSSubject {
			key := "nats_dropped"
			if o.mode != "filter" {
				key += ",subject=" + s
			}
			d := int(m.Get(key))
			per = append(per, d)
			total += d
		}
		return
	}
	end := time.Now().Add(wait)
	var missing error
	final := -1 // dropped, once all of the burst is through
	for {
		if !m.Fresh(wait, metric) {
			return 0, hz.Softf("no metrics")
		}
		read()
		dropped, per := drops()
		missing = nil
		for s, d := range per {
			if d < 0 || d > sent[s] {
				return 0, fmt.Errorf("nats_dropped is impossible")
			}
		}
		if tally.err != nil {
			return 0, tally.err
		}
		if tally.partial > 0 {
			missing = hz.Softf("a message was processed in part")
		}
		whole := tally.whole
		if o.mode == "downsampler" {
			// Those without a timestamp can be late by now, which
			// is counted too.
			late := int(m.Get("invalid_timestamps"))
			whole = append([]int(nil), whole...)
			for s := range whole {
				n := min(late, max(0, sent[s]-per[s]-whole[s]))
				whole[s] += n
				late -= n
			}
			if late > 0 {
				missing = hz.Softf("more lines are late than are missing")
			}
		}
		for s := range sent {
			if whole[s] > sent[s]-per[s] {
				// The metric might lag behind.
				missing = hz.Softf("more messages are processed than were published and are not counted in nats_dropped")
			} else if whole[s] < sent[s]-per[s] {
				missing = hz.Softf("some messages are neither processed nor counted in nats_dropped")
			}
		}
		if missing == nil {
			for s := range sent {
				// A downsampler doesn't even receive while it can't
				// publish, and the server keeps the messages.
				if o.mode != "downsampler" && whole[s]*o.size > o.limit+o.slack() {
					return 0, fmt.Errorf("far more was kept than the limit")
				}
				if per[s] > 0 && sentBytes[s] <= o.limit {
					return 0, fmt.Errorf("messages were dropped below the limit")
				}
			}
			if final >= 0 {
				if dropped != final {
					return 0, hz.Softf("messages are dropped although nothing is pending any more")
				}
				return dropped, nil
			}
			// It works as before.
			final = dropped
			for i := 0; i < min(afterwards, max(1, o.limit/2/o.size)); i++ {
				publish(o.n + i)
			}
			sut.Flush(nc)
			end = time.Now().Add(wait)
		}
		if time.Now().After(end) {
			return 0, missing
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// tally counts the lines of messages which were processed.
type tally struct {
	o       *overload
	full    [][]int
	got     [][]int
	seen    map[[3]int]bool
	whole   []int // messages per subject
	partial int   // messages of which only some lines came
	err     error
}

func newTally(o *overload, full [][]int) *tally {
	t := &tally{o: o, full: full, seen: map[[3]int]bool{}, whole: make([]int, o.subjects)}
	for range full {
		t.got = append(t.got, make([]int, o.n+afterwards))
	}
	return t
}

func (t *tally) add(data []byte) {
	for _, line := range ref.Lines(data) {
		id, _, _ := bytes.Cut(line, []byte(",p="))
		var s, i, l int
		if _, err := fmt.Sscanf(string(id[:min(len(id), 60)]), "m,a=%d,i=%d,l=%d", &s, &i, &l); err != nil || s < 0 || s >= t.o.subjects || i < 0 || i >= t.o.n+afterwards || t.full[s][i] <= l {
			t.err = fmt.Errorf("unexpected line")
			return
		}
		if t.seen[[3]int{s, i, l}] {
			t.err = fmt.Errorf("a line came more than once")
			return
		}
		t.seen[[3]int{s, i, l}] = true
		t.got[s][i]++
		if t.got[s][i] == 1 {
			t.partial++
		}
		if t.got[s][i] == t.full[s][i] {
			t.partial--
			t.whole[s]++
		}
	}
}
