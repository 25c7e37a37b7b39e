//go:build !noshim

package writer

import (
	"fmt"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/writer"
	"pgregory.net/rapid"
	"verif/harness/hz"
)

type retryEvent struct {
	after time.Duration
	size  int
}

type retryOutcome struct {
	failed, permanent bool
	takes             time.Duration
}

type retryBatch struct {
	id     int
	data   string
	added  time.Duration // when it was handed over
	queued time.Duration
}

// The worker under a fake clock, against a model of the queue.
func TestC18_Model(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30000, Thorough: 1000000,
		Rule: "generated histories of hand-overs and database outcomes (accepted, refused, failing, slow) under a fake clock; every attempt's time and batch are compared with a model of the queue; non-trivial: an overflow, a timeout or a permanent failure with at least two batches waiting"},
		func(c *hz.C) {
			interval := time.Duration(hz.One(c.T, "interval", 1, 10, 100, 1000)) * time.Second
			timeout := interval * time.Duration(hz.One(c.T, "timeout", 1, 2, 3, 5, 10, 100, 1000)) / time.Duration(hz.One(c.T, "div", 1, 1, 2))
			timeout += 333333 // so that attempts never happen at exactly this time
			limit := hz.One(c.T, "batches", 1, 1, 2, 3, 5, 10, 50)
			var events []retryEvent
			for n := hz.Many(c.T, hz.Int(c.T, 1, 14, "batches"), 5, "batches", 30, 60, 80); n > 0; n-- {
				d := time.Duration(hz.Int(c.T, 0, hz.One(c.T, "scale", 0, 10, 30, 120, 1200, 6000), "tenths")) * interval / 10
				events = append(events, retryEvent{d, hz.Int(c.T, 0, 20, "size")})
			}
			var outcomes []retryOutcome
			mostly := hz.One(c.T, "mostly", "ok", "fail", "fail", "mixed")
			for n := max(40, 2*len(events)); n > 0; n-- {
				kind := mostly
				if kind == "mixed" || hz.Chance(c.T, 15, "other") {
					kind = hz.One(c.T, "outcome", "ok", "fail", "fail", "permanent")
				}
				o := retryOutcome{failed: kind != "ok", permanent: kind == "permanent"}
				if hz.Chance(c.T, 15, "slow") {
					o.takes = interval * time.Duration(hz.Int(c.T, 1, 35, "tenths")) / 10
				}
				outcomes = append(outcomes, o)
			}
			desc := fmt.Sprintf("interval %v, timeout %v, at most %d; %v; outcomes %v", interval, timeout, limit, events, outcomes)
			interesting := false
			rapid.SyncTest(c.T, func(_ *rapid.T) {
				runRetry(c, desc, interval, timeout, limit, events, outcomes, &interesting)
			})
			if interesting {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

func runRetry(c *hz.C, desc string, interval, timeout time.Duration, limit int, events []retryEvent, outcomes []retryOutcome, interesting *bool) {
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }

	// The model. Times never coincide exactly, see below.
	var queue []*retryBatch
	var dead []string // why batches are not offered any more
	dead = make([]string, len(events))
	byData := map[string]*retryBatch{}
	expire := func(t time.Duration) {
		var left []*retryBatch
		for _, b := range queue {
			if t > b.queued+timeout {
				dead[b.id] = "timed out"
				*interesting = *interesting || len(queue) > 1
				continue
			}
			left = append(left, b)
		}
		queue = left
	}
	attempts, failures := 0, 0
	var busy bool
	var lastStart, idle time.Duration = -1 << 62, 0 // idle: since when something waits for an attempt
	var failure string
	fail := func(f string, args ...interface{}) {
		if failure == "" {
			failure = fmt.Sprintf(f, args...)
		}
	}

	write := func(data []byte) (bool, bool) {
		t := now()
		attempts++
		expire(t)
		b := byData[string(data)]
		switch {
		case busy:
			fail("two attempts at the same time")
		case b == nil:
			fail("attempt %d at %v offers %q, which was never handed over", attempts, t, data)
		case dead[b.id] != "":
			fail("attempt %d at %v offers batch %d, which %s", attempts, t, b.id, dead[b.id])
		case t-lastStart < interval:
			fail("attempt %d at %v is less than the interval after the previous one at %v", attempts, t, lastStart)
		case len(queue) == 0:
			fail("attempt %d at %v offers batch %d, which is not waiting", attempts, t, b.id)
		case queue[0] != b:
			fail("attempt %d at %v offers batch %d instead of batch %d", attempts, t, b.id, queue[0].id)
		case t-idle > interval:
			fail("attempt %d at %v is more than the interval after %v", attempts, t, idle)
		}
		lastStart = t
		busy = true
		o := retryOutcome{}
		if attempts <= len(outcomes) {
			o = outcomes[attempts-1]
		}
		time.Sleep(o.takes)
		t = now()
		busy = false
		idle = t
		if o.failed {
			failures++
		}
		if b != nil && len(queue) > 0 && queue[0] == b {
			queue = queue[1:]
			switch {
			case !o.failed:
				dead[b.id] = "was accepted"
			case o.permanent:
				dead[b.id] = "was refused"
				*interesting = *interesting || len(queue) > 0
			default:
				queue = append(queue, b)
			}
		}
		return o.failed, o.permanent
	}

	w := writer.VerifNewRetry(limit, interval, timeout, write)
	reported := 0
	stopped := make(chan struct{})
	go func() {
		for {
			select {
			case <-w.Errors():
				reported++
			case <-stopped:
				return
			}
		}
	}()

	for i, e := range events {
		// An odd offset keeps hand-overs apart from each other, from
		// attempts and timeouts.
		time.Sleep(e.after + 7001)
		b := &retryBatch{id: i, data: fmt.Sprintf("%d:%s", i, text(i, e.size)), added: now()}
		byData[b.data] = b
		buf := []byte(b.data)
		w.Add(buf)
		// It was received at this moment.
		t := now()
		b.queued = t
		expire(t)
		if len(queue) == 0 && idle < t {
			idle = t
		}
		if len(queue) >= limit {
			oldest := 0
			for j := range queue {
				if queue[j].queued < queue[oldest].queued {
					oldest = j
				}
			}
			dead[queue[oldest].id] = "was discarded"
			*interesting = true
			queue = append(queue[:oldest:oldest], queue[oldest+1:]...)
		}
		queue = append(queue, b)
	}
	// Until everything was accepted or has timed out.
	for i := 0; i < 300; i++ {
		time.Sleep(interval + 1<<20)
		if t := now(); !busy {
			expire(t)
			if len(queue) == 0 {
				break
			}
			if t-idle > 2*interval {
				fail("no attempt after %v though %d batches are waiting", idle, len(queue))
				break
			}
		}
	}
	if failure == "" && attempts < 200 && len(queue) > 0 {
		fail("%d batches are left", len(queue))
	}
	before := attempts
	time.Sleep(10 * interval)
	if attempts > before && len(queue) == 0 {
		fail("an attempt with nothing waiting")
	}
	w.Stop()
	time.Sleep(time.Second)
	if failure == "" && reported != failures {
		fail("%d failures were reported instead of %d", reported, failures)
	}
	close(stopped)
	if failure != "" {
		c.Fatalf("%s: %s", failure, desc)
	}
	c.LabelIf(*interesting, "interesting")
}
