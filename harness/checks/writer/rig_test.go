package writer

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/sut"
)

// rig is a running writer and its database.
type rig struct {
	conf   *config.Config
	influx *sut.Influx
	m      *sut.Metrics
	comp   sut.Component
	pokes  int
}

func start(decide func(n int, r *sut.Request) sut.Outcome, adjust func(*config.Config)) *rig {
	return startWith(sut.NewInflux(decide), adjust)
}

// startWith starts a writer for a database.
func startWith(influx *sut.Influx, adjust func(*config.Config)) *rig {
	r := &rig{influx: influx}
	r.conf = sut.Config(sut.NATS(), "writer", sut.Unique())
	r.conf.InfluxDBPort = r.influx.Port
	r.conf.BatchMaxSize = 10 << 20
	adjust(r.conf)
	r.m = sut.Watch(sut.Conn(), r.conf.NATSSubjectMonitor)
	r.comp = sut.MustStart(r.conf)
	return r
}

func (r *rig) close() {
	r.m.Close()
	r.influx.Close()
	sut.StopLater(r.comp, r.conf)
}

func (r *rig) publish(subject int, msg []byte) {
	sut.Publish(sut.Conn(), r.conf.NATSSubject[subject], msg)
}

// bodies returns the bodies of the requests so far.
func (r *rig) bodies() [][]byte {
	var out [][]byte
	for _, q := range r.influx.Reqs() {
		out = append(out, q.Body)
	}
	return out
}

// text makes n bytes which depend on id.
func text(id, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteByte(byte('a' + (i*7+i/26+id*3)%26))
	}
	return b.String()
}

// message draws a message of unique lines.
func message(t *rapid.T, id int, maxLine int) []byte {
	var msg []byte
	n := hz.One(t, "lines", 1, 1, 1, 2, 3, 5, 10, 25)
	for l := 0; l < n; l++ {
		line := fmt.Sprintf("m,i=%d,l=%d f=\"", id, l)
		pad := hz.One(t, "pad", 0, 0, 1, 1, 10, 10, 60, 60, 500, 500, 5000)
		if pad > maxLine-len(line)-2 {
			pad = max(0, maxLine-len(line)-2)
		}
		msg = append(msg, line+text(id, pad)+"\"\n"...)
	}
	return msg
}

func lens(bs [][]byte) string {
	s := ""
	for i, b := range bs {
		if i == 40 {
			return s + " ..."
		}
		s += fmt.Sprintf(" %d", len(b))
	}
	return s
}

// compare compares sequences of bodies.
func compare(what string, got, want [][]byte) error {
	for i, g := range got {
		if i >= len(want) {
			return fmt.Errorf("%s: there were %d requests instead of %d; one has %.300q", what, len(got), len(want), g)
		}
		if !bytes.Equal(g, want[i]) {
			return fmt.Errorf("%s: request %d has %d bytes %.300q instead of %d bytes %.300q", what, i, len(g), g, len(want[i]), want[i])
		}
	}
	if len(got) < len(want) {
		return hz.Softf("%s: there were %d requests instead of %d", what, len(got), len(want))
	}
	return nil
}

// settled waits for counters to have some values and to stay there.
func (r *rig) settled(wait time.Duration, want map[string]int64) error {
	equal := func(v map[string]int64) bool {
		for k, n := range want {
			if got, ok := v[k]; !ok || got != n {
				return false
			}
		}
		return true
	}
	ok := r.m.Wait(wait, equal) && r.m.Fresh(wait, "received")
	for _, k := range []string{"received", "write_requests", "failed_writes"} {
		if n, listed := want[k]; listed && r.m.Get(k) != n {
			return hz.Softf("%s is %d, not %d", k, r.m.Get(k), n)
		}
	}
	if !ok {
		return hz.Softf("the metrics are not %v", want)
	}
	return nil
}
