package writer

import (
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
)

// VerifRetry gives the checks access to a retry worker.
type VerifRetry struct {
	w  *retryWorker
	in chan []byte
}

type verifDB struct {
	write func([]byte) (failed, permanent bool)
}

func (d *verifDB) Write(b []byte) error {
	if failed, permanent := d.write(b); failed {
		return newClientError("failed", permanent)
	}
	return nil
}

// VerifNewRetry creates a retry worker.
func VerifNewRetry(batches int, interval, timeout time.Duration, write func([]byte) (failed, permanent bool)) *VerifRetry {
	v := &VerifRetry{in: make(chan []byte)}
	v.w = newRetryWorker(v.in, &verifDB{write}, &config.Config{
		WriterRetryBatches:  batches,
		WriterRetryInterval: config.NewDuration(interval),
		WriterRetryTimeout:  config.NewDuration(timeout),
	})
	return v
}

// Add hands a batch over.
func (v *VerifRetry) Add(b []byte) { v.in <- b }

// Stop stops the worker.
func (v *VerifRetry) Stop() { v.w.Stop() }

// Errors returns where errors are reported.
func (v *VerifRetry) Errors() <-chan error { return v.w.WriteErrors() }
