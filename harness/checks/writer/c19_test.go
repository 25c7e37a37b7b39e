package writer

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// outcomes draws what happens to the first requests.
func outcomes(c *hz.C, max int, hangs bool) []sut.Outcome {
	var out []sut.Outcome
	kinds := []string{"ok", "ok", "ok", "5xx", "5xx", "5xx", "drop", "drop", "4xx", "4xx", "redirect"}
	if hangs {
		kinds = append(kinds, "hang")
	}
	if hz.Chance(c.T, 30, "failing") {
		kinds = []string{"5xx", "drop", "5xx", "ok"}
	}
	for n := hz.Int(c.T, 0, max, "outcomes"); n > 0; n-- {
		var o sut.Outcome
		switch hz.One(c.T, "outcome", kinds...) {
		case "ok":
			o.Status = hz.One(c.T, "status", 204, 200, 202, 299)
		case "5xx":
			o.Status = hz.One(c.T, "status", 500, 502, 503, 504, 599, 304, 300, 399)
		case "4xx":
			o.Status = hz.One(c.T, "status", 400, 401, 404, 413, 429, 499)
		case "redirect":
			// These ask for a GET, which writes nothing.
			o.Status = hz.One(c.T, "status", 301, 302, 303)
			o.Location = hz.One(c.T, "location", "/write?db=db", "/ping", "/", "login?next=%2Fwrite", "//localhost/x")
		case "drop":
			o.Drop = true
		case "hang":
			o.Hang = true
		}
		if !o.Hang && !o.Drop && hz.Chance(c.T, 5, "delay") {
			o.Delay = time.Duration(hz.Int(c.T, 1, 10, "ms")) * time.Millisecond
		}
		out = append(out, o)
	}
	return out
}

func outcomesString(os []sut.Outcome) string {
	var s []string
	for _, o := range os {
		switch {
		case o.Drop:
			s = append(s, "drop")
		case o.Hang:
			s = append(s, "hang")
		case o.Location != "":
			s = append(s, fmt.Sprintf("%d->%s", o.Status, o.Location))
		default:
			s = append(s, fmt.Sprint(o.Status))
		}
	}
	return strings.Join(s, " ")
}

func failed(o sut.Outcome) bool { return !o.Ok() }

type c19Case struct {
	size, count, workers int
	retries              int
	interval             time.Duration
	msgs                 [][]byte
	pauses               []int
	want                 [][]byte // chunks
	outs                 []sut.Outcome
	hangs                bool
	overflow             bool
}

func TestC19_Faults(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 450, Thorough: 25000, Budget: time.Duration(hz.Pick(80, 900)) * time.Second,
		Rule: "a writer gets generated messages while a fake InfluxDB answers with a generated sequence of successes, errors, dropped connections and hangs; the requests are compared with the batches; non-trivial: at least two failures and one success, and at least three batches"},
		func(c *hz.C) {
			k := c19Case{
				size:     hz.One(c.T, "batch_max_size", 100, 300, 1000, 10<<20),
				count:    hz.One(c.T, "batch_max_count", 1, 1, 2, 3),
				workers:  1,
				interval: time.Duration(hz.One(c.T, "interval", 2, 4, 8)) * time.Millisecond,
				retries:  200,
				hangs:    hz.Chance(c.T, 10, "hangs"),
			}
			if hz.Chance(c.T, 20, "no retries") {
				k.retries = 0
			} else if hz.Chance(c.T, 20, "overflow") {
				k.overflow = true
				k.retries = hz.Int(c.T, 1, 3, "retries")
			}
			if k.count == 1 && hz.Chance(c.T, 40, "workers") {
				k.workers = hz.Int(c.T, 2, 4, "workers")
			}
			var cur []byte
			n := 0
			for i, total := 1, k.count*hz.Int(c.T, 1, 15, "batches"); i <= total; i++ {
				// No line is as long as a batch, so that chunks are unique.
				m := message(c.T, i, 90)
				k.msgs = append(k.msgs, m)
				k.pauses = append(k.pauses, hz.One(c.T, "pause", 0, 0, 0, 0, 1, 5))
				cur = append(cur, m...)
				n++
				if n >= k.count || len(cur) >= k.size {
					k.want = append(k.want, ref.Split(cur, uint64(k.size))...)
					cur, n = nil, 0
				}
			}
			k.outs = outcomes(c, 30, k.hangs)
			desc := fmt.Sprintf("size %d, count %d, %d workers, %d retry batches, interval %v; messages of%s; outcomes %s", k.size, k.count, k.workers, k.retries, k.interval, lens(k.msgs), outcomesString(k.outs))
			failures, oks := 0, 0
			hz.Attempts(c, 4*time.Second, func(wait time.Duration) error {
				var err error
				failures, oks, err = k.run(wait)
				if err != nil {
					return fmt.Errorf("%w: %s", err, desc)
				}
				return nil
			})
			c.LabelIf(k.retries == 0, "no retries")
			c.LabelIf(k.overflow, "small queue")
			c.LabelIf(k.workers > 1, "several workers")
			c.LabelIf(k.hangs, "hangs")
			if failures > 1 && oks > 0 && len(k.want) > 2 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

func (k c19Case) run(wait time.Duration) (failures, oks int, err error) {
	r := start(func(n int, _ *sut.Request) sut.Outcome {
		if n < len(k.outs) {
			return k.outs[n]
		}
		return sut.Outcome{}
	}, func(conf *config.Config) {
		conf.BatchMaxSize = datasize.ByteSize(k.size)
		conf.BatchMaxCount = k.count
		conf.Workers = k.workers
		conf.WriterRetryBatches = k.retries
		conf.WriterRetryInterval = config.NewDuration(k.interval)
		conf.WriterRetryTimeout = config.NewDuration(10 * time.Minute)
		if k.hangs {
			conf.WriteTimeout = config.NewDuration(wait / 60)
		}
	})
	defer r.close()
	for i, m := range k.msgs {
		r.publish(0, m)
		if k.pauses[i] > 0 {
			sut.Flush(sut.Conn())
			time.Sleep(time.Duration(k.pauses[i]) * time.Millisecond)
		}
	}

	index := map[string]int{}
	for i, w := range k.want {
		index[string(w)] = i
	}
	// What there is to say about a sequence of requests.
	type state struct {
		attempts   int
		accepted   bool
		refused    bool // in the first attempt
		gone       bool // refused later
		overlapped bool
	}
	final := func(reqs []*sut.Request) ([]state, error) {
		st := make([]state, len(k.want))
		for n, q := range reqs {
			i, ok := index[string(q.Body)]
			if !ok {
				return nil, fmt.Errorf("request %d is none of the batches: %.300q", n, q.Body)
			}
			s := &st[i]
			switch {
			case s.accepted:
				return nil, fmt.Errorf("request %d repeats a batch that was accepted: %.200q", n, q.Body)
			case s.gone:
				return nil, fmt.Errorf("request %d repeats a batch that was refused for good when retried: %.200q", n, q.Body)
			case s.attempts > 0 && k.retries == 0:
				return nil, fmt.Errorf("request %d repeats a batch, with retries disabled: %.200q", n, q.Body)
			}
			s.attempts++
			switch {
			case q.Outcome.Ok():
				s.accepted = true
			case q.Outcome.Permanent():
				if s.attempts > 1 {
					s.gone = true
				} else {
					s.refused = true
				}
			}
		}
		return st, nil
	}
	settled := func(reqs []*sut.Request) bool {
		st, err := final(reqs)
		if err != nil {
			return true
		}
		for _, s := range st {
			switch {
			case s.attempts == 0:
				return false
			case k.retries > 0 && !k.overflow && !s.accepted && !s.refused && !s.gone:
				return false
			}
		}
		return true
	}
	done := r.influx.Wait(wait, settled)
	// What was refused at once might be tried again.
	if k.retries > 0 {
		time.Sleep(3 * k.interval)
	}
	if _, err := final(r.influx.Reqs()); err != nil {
		return 0, 0, err
	}
	if !done {
		return 0, 0, hz.Softf("not all batches were written")
	}

	// The counters agree with the requests, once all is quiet.
	end := time.Now().Add(wait)
	var reqs []*sut.Request
	for {
		reqs = r.influx.Reqs()
		failures = 0
		for _, q := range reqs {
			if failed(q.Outcome) {
				failures++
			}
		}
		if !r.m.Fresh(wait, "received") {
			return 0, 0, hz.Softf("no metrics")
		}
		if r.m.Get("received") == int64(len(k.msgs)) && r.m.Get("write_requests") == int64(len(reqs)) && r.m.Get("failed_writes") == int64(failures) && len(r.influx.Reqs()) == len(reqs) {
			break
		}
		if time.Now().After(end) {
			return 0, 0, hz.Softf("after %d messages, %d requests and %d failures, received is %d, write_requests is %d and failed_writes is %d",
				len(k.msgs), len(reqs), failures, r.m.Get("received"), r.m.Get("write_requests"), r.m.Get("failed_writes"))
		}
	}
	if _, err := final(reqs); err != nil {
		return 0, 0, err
	}
	if k.workers == 1 {
		// New data is written in order.
		var firsts [][]byte
		seen := map[string]bool{}
		for _, q := range reqs {
			if !seen[string(q.Body)] {
				seen[string(q.Body)] = true
				firsts = append(firsts, q.Body)
			}
		}
		if !bytes.Equal(bytes.Join(firsts, nil), bytes.Join(k.want, nil)) {
			return 0, 0, fmt.Errorf("the batches were not written in order")
		}
	}
	return failures, len(reqs) - failures, nil
}
