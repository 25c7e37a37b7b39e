package writer

import (
	"fmt"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// Through a running writer, in real time: coarser, but including how
// batches are handed over.
func TestC18_Writer(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60, Thorough: 3000,
		Rule: "a writer with generated retry settings gets batches while a fake InfluxDB refuses everything for some time; the times and bodies of the requests are checked; non-trivial: at least two batches waiting and three retries"},
		func(c *hz.C) {
			interval := time.Duration(hz.One(c.T, "interval", 20, 40)) * time.Millisecond
			limit := hz.One(c.T, "batches", 1, 2, 3, 10)
			n := hz.Int(c.T, 1, 6, "n")
			failing := hz.Int(c.T, 0, 8, "failing")
			ttl := interval * time.Duration(hz.One(c.T, "ttl", 4, 6, 1000, 1000))
			var msgs [][]byte
			for i := 0; i < n; i++ {
				msgs = append(msgs, exactly(i, 15+i))
			}
			desc := fmt.Sprintf("interval %v, at most %d, timeout %v, %d batches, then %d failures", interval, limit, ttl, n, failing)
			retries := 0
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				var err error
				// Slower each time.
				f := wait / (3 * time.Second)
				retries, err = retryWriter(f*interval, f*ttl, limit, failing, msgs, wait)
				if err != nil {
					return fmt.Errorf("%w: %s", err, desc)
				}
				return nil
			})
			c.LabelIf(n > limit, "overflow")
			if n > 1 && retries > 2 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

func retryWriter(interval, ttl time.Duration, limit, failing int, msgs [][]byte, wait time.Duration) (int, error) {
	r := start(func(n int, _ *sut.Request) sut.Outcome {
		if n < len(msgs)+failing {
			return sut.Outcome{Status: 503}
		}
		return sut.Outcome{}
	}, func(conf *config.Config) {
		conf.BatchMaxCount = 1
		conf.WriterRetryBatches = limit
		conf.WriterRetryInterval = config.NewDuration(interval)
		conf.WriterRetryTimeout = config.NewDuration(ttl)
	})
	defer r.close()
	for _, m := range msgs {
		r.publish(0, m)
	}
	// The first len(msgs) requests are the first attempts if the
	// machine is not too slow.
	if !r.influx.Wait(wait, func(reqs []*sut.Request) bool { return len(reqs) >= len(msgs) }) {
		return 0, hz.Softf("only %d batches were written", len(r.influx.Reqs()))
	}
	reqs := r.influx.Reqs()
	for i, m := range msgs {
		if string(reqs[i].Body) != string(m) {
			return 0, hz.Softf("request %d is %q, not %q", i, reqs[i].Body, m)
		}
	}
	kept := msgs[max(0, len(msgs)-limit):]
	want := len(kept)
	long := ttl > 100*interval
	timeout := wait
	if !long {
		timeout = min(wait, ttl+4*interval)
	}
	r.influx.Wait(timeout, func(reqs []*sut.Request) bool { return long && len(reqs) >= len(msgs)+failing+want })
	time.Sleep(2 * interval)
	all := r.influx.Reqs()
	retried := all[len(msgs):]
	if long && len(retried) != failing+want {
		// Hard if there are too many.
		if len(retried) > failing+want {
			return 0, hz.Softf("%d retries were made to get %d batches accepted after %d failures", len(retried), want, failing)
		}
		return 0, hz.Softf("only %d retries were made, not %d", len(retried), failing+want)
	}
	accepted := map[string]bool{}
	last := reqs[len(msgs)-1]
	for i, q := range retried {
		found := false
		for _, m := range kept {
			found = found || string(m) == string(q.Body)
		}
		switch {
		case !found:
			return 0, hz.Softf("retry %d offers %q, which is not waiting", i, q.Body)
		case accepted[string(q.Body)]:
			return 0, fmt.Errorf("retry %d offers %q again, which was accepted", i, q.Body)
		case i > 0 && q.At.Sub(retried[i-1].At) < interval/2:
			return 0, hz.Softf("retry %d is made %v after the previous one", i, "less than half an interval")
		case !long && q.At.Sub(last.Done) > ttl+interval*3/4+200*time.Millisecond:
			return 0, hz.Softf("retry %d is made long after the timeout", i)
		}
		if q.Outcome.Ok() {
			accepted[string(q.Body)] = true
		}
	}
	if long {
		// Round-robin: all failures count towards everyone in turn.
		for i, q := range retried[:failing] {
			if string(q.Body) != string(kept[i%len(kept)]) {
				return 0, hz.Softf("retry %d offers %q instead of %q", i, q.Body, kept[i%len(kept)])
			}
		}
	}
	return len(retried), nil
}
