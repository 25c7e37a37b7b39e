package filter

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/stats"
)

// VerifWorker gives the checks access to a filter worker.
type VerifWorker struct {
	w  *worker
	st *stats.Stats
}

type verifConn struct {
	natsConn
	publish func(string, []byte) error
}

func (c *verifConn) Publish(subject string, data []byte) error { return c.publish(subject, data) }
func (c *verifConn) Close()                                    {}

// VerifNewWorker creates a worker which publishes through a function.
func VerifNewWorker(delta time.Duration, rules *RuleSet, junk string, publish func(string, []byte) error) (*VerifWorker, error) {
	st := initStats()
	w, err := newWorker(delta, rules, st, stats.NewAnon(rules.Count()), false, func() (natsConn, error) {
		return &verifConn{publish: publish}, nil
	}, junk)
	return &VerifWorker{w, st}, err
}

// Process processes a message.
func (v *VerifWorker) Process(msg []byte) { v.w.processBatch(msg) }

// Stat returns the value of a counter.
func (v *VerifWorker) Stat(name string) uint64 { return v.st.Get(name) }
