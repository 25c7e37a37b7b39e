package sut

import (
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"

	"verif/harness/hz"
)

// Metrics follows the metrics components publish.
type Metrics struct {
	sub  *nats.Subscription
	mu   sync.Mutex
	cond *sync.Cond
	vals map[string]int64
	n    map[string]int
	bad  []string
}

var metricRx = regexp.MustCompile(`^([A-Za-z0-9_]+)\{(.*)\} (-?[0-9]+) ([0-9]+)$`)

// Watch follows the metrics on a subject. Metrics are identified by
// their name and, after a comma each, the labels other than component,
// name and host.
func Watch(nc *nats.Conn, subject string) *Metrics {
	m := &Metrics{vals: map[string]int64{}, n: map[string]int{}}
	m.cond = sync.NewCond(&m.mu)
	var err error
	m.sub, err = nc.Subscribe(subject, func(msg *nats.Msg) {
		m.mu.Lock()
		defer m.mu.Unlock()
		for _, line := range strings.Split(strings.TrimSuffix(string(msg.Data), "\n"), "\n") {
			g := metricRx.FindStringSubmatch(line)
			if g == nil {
				m.bad = append(m.bad, line)
				continue
			}
			v, _ := strconv.ParseInt(g[3], 10, 64)
			key := g[1] + extraLabels(g[2])
			m.vals[key] = v
			m.n[key]++
		}
		m.cond.Broadcast()
	})
	if err != nil {
		hz.Infra("subscribe: %v", err)
	}
	m.sub.SetPendingLimits(-1, -1)
	Flush(nc)
	return m
}

var labelRx = regexp.MustCompile(`([A-Za-z0-9_]+)="([^"]*)"`)

func extraLabels(s string) string {
	var out []string
	for _, g := range labelRx.FindAllStringSubmatch(s, -1) {
		switch g[1] {
		case "component", "name", "host", "influxdb_address", "influxdb_port", "influxdb_dbname":
		default:
			out = append(out, ","+g[1]+"="+g[2])
		}
	}
	sort.Strings(out)
	return strings.Join(out, "")
}

// Close stops following.
func (m *Metrics) Close() { m.sub.Unsubscribe() }

// Get returns the latest value of a metric, or -1.
func (m *Metrics) Get(key string) int64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	if v, ok := m.vals[key]; ok {
		return v
	}
	return -1
}

// Bad returns lines that are not metrics.
func (m *Metrics) Bad() []string {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.bad
}

// All returns the latest values.
func (m *Metrics) All() map[string]int64 {
	m.mu.Lock()
	defer m.mu.Unlock()
	out := map[string]int64{}
	for k, v := range m.vals {
		out[k] = v
	}
	return out
}

// Wait waits until f is true for the latest values.
func (m *Metrics) Wait(d time.Duration, f func(map[string]int64) bool) bool {
	expired := false
	t := time.AfterFunc(d, func() {
		m.mu.Lock()
		expired = true
		m.cond.Broadcast()
		m.mu.Unlock()
	})
	defer t.Stop()
	m.mu.Lock()
	defer m.mu.Unlock()
	for !f(m.vals) {
		if expired {
			return false
		}
		m.cond.Wait()
	}
	return true
}

// WaitFor waits until a metric is at least v.
func (m *Metrics) WaitFor(d time.Duration, key string, v int64) bool {
	return m.Wait(d, func(vals map[string]int64) bool { return vals[key] >= v })
}

// Fresh waits until a metric was reported twice more, so that the
// values seen afterwards describe a moment after the call.
func (m *Metrics) Fresh(d time.Duration, key string) bool {
	m.mu.Lock()
	n := m.n[key]
	m.mu.Unlock()
	return m.Wait(d, func(map[string]int64) bool { return m.n[key] >= n+2 })
}
