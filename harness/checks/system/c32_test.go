package system

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/jumptrading/influx-spout/v2/probes"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/sut"
)

func probeURL(port int, path string) string {
	return fmt.Sprintf("http://127.0.0.1:%d/%s", port, path)
}

// probeState is a state of a probes listener.
type probeState struct{ alive, ready bool }

func (s probeState) of(path string) bool {
	if path == "healthz" {
		return s.alive
	}
	return s.ready
}

func status(ok bool) int {
	if ok {
		return 200
	}
	return 503
}

// Sequences of state changes.
func TestC32_States(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1000, Thorough: 20000,
		Rule: "generated sequences of SetAlive, SetReady and requests on a probes listener, from its start to its close, with other clients polling at the same time; sequential requests must answer the model's state, concurrent ones a state which existed while they lasted; non-trivial: both states change and are requested"},
		func(c *hz.C) {
			type op struct {
				what string
				v    bool
			}
			var ops []op
			changed := map[string]bool{}
			requests := 0
			for n := hz.One(c.T, "ops", 1, 4, 10, 25); n > 0; n-- {
				o := op{hz.One(c.T, "op", "alive", "ready", "healthz", "readyz", "alive", "ready", "healthz", "readyz", "pause"), rapid.Bool().Draw(c.T, "v")}
				ops = append(ops, o)
				changed[o.what] = true
				if o.what == "healthz" || o.what == "readyz" {
					requests++
				}
			}
			pollers := hz.Int(c.T, 0, 3, "pollers")
			pausing := time.Duration(hz.Int(c.T, 0, 3, "pause")) * time.Millisecond
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				port := sut.FreePort()
				p := probes.Listen(port)
				closed := false
				defer func() {
					if !closed {
						p.Close()
					}
				}()
				// Until it listens.
				up := sut.Until(wait, func() bool { _, _, err := httpGet(probeURL(port, "healthz")); return err == nil })
				if !up {
					return hz.Softf("the probes are not served")
				}

				// The states so far, and when they were set at the earliest.
				var mu sync.Mutex
				type change struct {
					state         probeState
					before, after time.Time
				}
				history := []change{{state: probeState{alive: true}}}
				now := probeState{alive: true}
				set := func(s probeState, f func()) {
					mu.Lock()
					history = append(history, change{state: s, before: time.Now(), after: time.Now().Add(time.Hour)})
					i := len(history) - 1
					mu.Unlock()
					f()
					mu.Lock()
					history[i].after = time.Now()
					mu.Unlock()
					now = s
				}
				// possible tells whether a state existed between two times.
				possible := func(path string, code int, from, to time.Time) bool {
					mu.Lock()
					defer mu.Unlock()
					for i, h := range history {
						ended := i+1 < len(history) && history[i+1].after.Before(from)
						if !ended && !h.before.After(to) && code == status(h.state.of(path)) {
							return true
						}
					}
					return false
				}
				stop := make(chan struct{})
				errs := make([]error, pollers)
				var wg sync.WaitGroup
				for i := 0; i < pollers; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						path := []string{"healthz", "readyz"}[i%2]
						for {
							select {
							case <-stop:
								return
							default:
							}
							from := time.Now()
							code, _, err := httpGet(probeURL(port, path))
							to := time.Now()
							if err != nil {
								errs[i] = hz.Softf("a probe fails")
								return
							}
							if !possible(path, code, from, to) {
								errs[i] = fmt.Errorf("/%s answers %d at a time when it should not", path, code)
								return
							}
						}
					}()
				}
				var failed error
				for _, o := range ops {
					switch o.what {
					case "alive":
						set(probeState{o.v, now.ready}, func() { p.SetAlive(o.v) })
					case "ready":
						set(probeState{now.alive, o.v}, func() { p.SetReady(o.v) })
					case "pause":
						time.Sleep(pausing)
					default:
						code, _, err := httpGet(probeURL(port, o.what))
						if err != nil {
							failed = hz.Softf("a probe fails")
						} else if code != status(now.of(o.what)) {
							failed = fmt.Errorf("/%s answers %d after %v", o.what, code, ops)
						}
					}
					if failed != nil {
						break
					}
				}
				for _, path := range []string{"healthz", "readyz"} {
					if failed != nil {
						break
					}
					code, _, err := httpGet(probeURL(port, path))
					if err != nil {
						failed = hz.Softf("a probe fails")
					} else if code != status(now.of(path)) {
						failed = fmt.Errorf("/%s answers %d after %v", path, code, ops)
					}
				}
				close(stop)
				wg.Wait()
				for _, err := range append(errs, failed) {
					if err != nil {
						return err
					}
				}
				p.Close()
				closed = true
				if !tcpFree(port) {
					return hz.Softf("the port is not free after Close")
				}
				return nil
			})
			if changed["alive"] && changed["ready"] && requests > 1 {
				c.NonTrivial(fmt.Sprint(ops, pollers))
			}
			c.Sample(func() string { return fmt.Sprint(ops) })
		})
}

// tcpFree tells whether a port can be bound now.
func tcpFree(port int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
	if err != nil {
		return false
	}
	l.Close()
	return true
}

// Starts and closes.
func TestC32_Close(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 2000, Thorough: 40000,
		Rule: "probes listeners closed a generated time after their start, with connections which are idle, half-way through a request or busy; Close must return soon and leave the port free, and ports of 0 or less must do nothing; non-trivial: closed within a millisecond or with a connection open"},
		func(c *hz.C) {
			port := hz.One(c.T, "port", 1, 1, 1, 0, -1)
			delay := time.Duration(hz.One(c.T, "delay", 0, 0, 1, 20, 100, 1000, 5000)) * time.Microsecond
			var conns []string
			for n := hz.Int(c.T, 0, 3, "connections"); n > 0; n-- {
				conns = append(conns, hz.One(c.T, "connection", "", "GET /rea", "GET /readyz HTTP/1.1\r\nHost: x\r\n", "GET /healthz HTTP/1.1\r\nHost: x\r\n\r\n", "POST /readyz HTTP/1.1\r\nHost: x\r\nContent-Length: 10\r\n\r\nabc"))
			}
			sets := hz.Int(c.T, 0, 2, "sets")
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				if port > 0 {
					port = sut.FreePort()
				}
				p := probes.Listen(port)
				for i := 0; i < sets; i++ {
					p.SetAlive(false)
					p.SetReady(true)
				}
				time.Sleep(delay)
				if port > 0 {
					for _, s := range conns {
						conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
						if err != nil {
							continue // not listening yet
						}
						defer conn.Close()
						io.WriteString(conn, s)
					}
				}
				done := make(chan struct{})
				go func() {
					p.Close()
					close(done)
				}()
				select {
				case <-done:
				case <-time.After(wait):
					return hz.Softf("Close does not return")
				}
				if port > 0 && !tcpFree(port) {
					return hz.Softf("the port is not free after Close")
				}
				return nil
			})
			if port > 0 && (len(conns) > 0 || delay < time.Millisecond) {
				c.NonTrivial(fmt.Sprint(delay, conns, sets))
			}
			c.Sample(func() string { return fmt.Sprintf("closed after %v with connections %q", delay, conns) })
		})
}

// readiness is a component which must process data sent to it from the
// moment it is ready.
type readiness struct {
	mode     string
	subjects int
	workers  int
	delay    time.Duration
	viaProxy bool
}

func (r *readiness) run(wait time.Duration) error {
	prefix := sut.Unique()
	conf := sut.Config(sut.NATS(), r.mode, prefix)
	if r.viaProxy {
		proxy := sut.NewProxy(sut.NATS(), r.delay)
		defer proxy.Close()
		conf.NATSAddress = proxy.URL()
	}
	conf.ProbePort = sut.FreePort()
	conf.BatchMaxCount = 1
	conf.Workers = r.workers
	conf.DownsamplePeriod = config.NewDuration(100 * time.Millisecond)
	conf.WriteTimeout = config.NewDuration(30 * time.Second)
	out := prefix + ".out"
	switch r.mode {
	case "listener", "listener_http":
		out = conf.NATSSubject[0]
	case "filter":
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: out}}
	case "writer", "downsampler":
		conf.NATSSubject = nil
		for i := 0; i < r.subjects; i++ {
			conf.NATSSubject = append(conf.NATSSubject, fmt.Sprintf("%s.s%d", prefix, i))
		}
		conf.DownsampleSuffix = "-x"
	}
	var outputs []string
	if r.mode == "downsampler" {
		for _, s := range conf.NATSSubject {
			outputs = append(outputs, s+"-x")
		}
	} else {
		outputs = []string{out}
	}
	influx := sut.NewInflux(nil)
	defer influx.Close()
	conf.InfluxDBPort = influx.Port
	col := sut.Collect(sut.Conn(), outputs...)
	defer col.Close()

	// Poll until it is ready.
	conf.Port = sut.FreePort()
	url := probeURL(conf.ProbePort, "readyz")
	ready := make(chan error, 1)
	started := make(chan error, 1)
	var sendErr error
	go func() {
		end := time.Now().Add(wait)
		for {
			code, _, err := httpGet(url)
			if err == nil && code == 200 {
				sendErr = r.send(conf)
				ready <- nil
				return
			}
			if err == nil && code != 503 {
				ready <- fmt.Errorf("/readyz answers %d", code)
				return
			}
			if time.Now().After(end) {
				ready <- hz.Softf("the %s does not get ready", r.mode)
				return
			}
		}
	}()
	var comp sut.Component
	go func() {
		var err error
		comp, err = sut.Start(conf)
		started <- err
	}()
	err := <-ready
	if e := <-started; e != nil {
		return hz.Softf("the %s does not start", r.mode)
	}
	defer sut.StopLater(comp, conf)
	if err != nil {
		return err
	}
	if sendErr != nil {
		return hz.Softf("the %s is ready, but data can't be sent to it", r.mode)
	}

	ok := false
	switch r.mode {
	case "listener", "listener_http", "filter":
		ok = col.WaitBytes(wait, len(readyLine))
	case "writer":
		ok = influx.Wait(wait, func(reqs []*sut.Request) bool {
			return strings.Count(string(sut.Bodies(reqs)), readyLine) == r.subjects
		})
	case "downsampler":
		ok = col.Wait(wait, func(ms []sut.Msg) bool { return len(ms) == r.subjects })
	case "monitor":
		ok = sut.Until(wait, func() bool {
			_, body, _ := httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port))
			return body == "ready 1\n"
		})
	}
	if !ok {
		return hz.Softf("the %s is ready, but data sent to it from then on gets lost", r.mode)
	}
	for _, path := range []string{"healthz", "readyz"} {
		code, _, err := httpGet(probeURL(conf.ProbePort, path))
		if err != nil {
			return hz.Softf("a probe fails")
		}
		if code != 200 {
			return fmt.Errorf("/%s of a running %s answers %d", path, r.mode, code)
		}
	}
	return nil
}

const readyLine = "cpu v=1\n"

func (r *readiness) send(conf *config.Config) error {
	switch r.mode {
	case "listener":
		conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
		if err != nil {
			return err
		}
		defer conn.Close()
		_, err = conn.Write([]byte(readyLine))
		return err
	case "listener_http":
		resp, err := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", conf.Port), "text/plain", strings.NewReader(readyLine))
		if err != nil {
			return err
		}
		resp.Body.Close()
	case "monitor":
		sut.Publish(sut.Conn(), conf.NATSSubjectMonitor, []byte("ready 1\n"))
		sut.Flush(sut.Conn())
		_, _, err := httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port))
		return err
	default:
		for _, s := range conf.NATSSubject {
			sut.Publish(sut.Conn(), s, []byte(readyLine))
		}
		sut.Flush(sut.Conn())
	}
	return nil
}

func TestC32_Ready(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30, Thorough: 600,
		Rule: "components of all modes at a time, started with a connection to NATS on which what they send is delayed by a generated time; at the first 200 of /readyz data is sent, which must be processed; non-trivial: delayed (each component is a case)"},
		func(c *hz.C) {
			var rs []*readiness
			for _, mode := range modes {
				r := &readiness{mode: mode, subjects: hz.Int(c.T, 1, 4, "subjects"), workers: hz.Int(c.T, 1, 4, "workers"),
					delay: time.Duration(hz.One(c.T, "delay", 0, 1, 10, 30, 60)) * time.Millisecond, viaProxy: hz.Chance(c.T, 80, "proxy")}
				rs = append(rs, r)
				c.Sub(r.viaProxy && r.delay > 0, fmt.Sprintf("%+v", r))
			}
			c.Sample(func() string { return fmt.Sprintf("%+v", rs[2]) })
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(rs))
				var wg sync.WaitGroup
				for i, r := range rs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = r.run(wait)
					}()
				}
				wg.Wait()
				return worst(errs, func(i int) string { return fmt.Sprintf("%+v", *rs[i]) })
			})
		})
}

// While a component stops.
func TestC32_Stop(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 12, Thorough: 240,
		Rule: "four components of each mode at a time, stopped a generated time after their start while their probes are polled; some writers are waiting for InfluxDB then; once Stop was called (and some time passed) or one is seen not to be alive, it must not be seen ready or alive again, and its probes' port must be free after the stop; non-trivial: all (each component is a case)"},
		func(c *hz.C) {
			var delays, busy []time.Duration
			var all []string
			for k := 0; k < 4; k++ {
				all = append(all, modes...)
			}
			for _, mode := range all {
				delay := time.Duration(hz.One(c.T, "delay", 0, 0, 10, 100, 300, 1000, 5000)) * time.Microsecond
				delays = append(delays, delay)
				b := time.Duration(0)
				if mode == "writer" {
					b = time.Duration(hz.One(c.T, "busy", 0, 700, 1200, 1800)) * time.Millisecond
				}
				busy = append(busy, b)
				c.Sub(true, fmt.Sprint(mode, delay, b))
			}
			c.Sample(func() string { return fmt.Sprint(delays) })
			hz.Timed(c, 10*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(all))
				var wg sync.WaitGroup
				for i, mode := range all {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = stopping(mode, delays[i], busy[i], wait)
					}()
				}
				wg.Wait()
				return worst(errs, func(i int) string { return fmt.Sprintf("a %s stopped after %v", all[i], delays[i]) })
			})
		})
}

func stopping(mode string, delay, busy, wait time.Duration) error {
	conf := sut.Config(sut.NATS(), mode, sut.Unique())
	conf.ProbePort = sut.FreePort()
	if busy > 0 {
		influx := sut.NewInflux(func(int, *sut.Request) sut.Outcome { return sut.Outcome{Delay: busy} })
		defer influx.Close()
		conf.InfluxDBPort = influx.Port
		conf.BatchMaxCount = 1
		conf.WriteTimeout = config.NewDuration(30 * time.Second)
		return whileStopping(conf, func() bool {
			sut.Publish(sut.Conn(), conf.NATSSubject[0], []byte("m v=1\n"))
			return influx.Wait(wait, func(reqs []*sut.Request) bool { return len(reqs) > 0 })
		}, wait)
	}
	return whileStopping(conf, func() bool { time.Sleep(delay); return true }, wait)
}

// whileStopping starts a component, stops it after the call of before,
// and looks at its probes meanwhile.
func whileStopping(conf *config.Config, before func() bool, wait time.Duration) error {
	comp := sut.MustStart(conf)
	var called atomic.Int64 // when Stop was called
	stop := make(chan struct{})
	var failed error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		dead := false
		for {
			select {
			case <-stop:
				return
			default:
			}
			at := called.Load()
			late := at > 0 && time.Since(time.Unix(0, at)) > wait/30
			code, _, err := httpGet(probeURL(conf.ProbePort, "healthz"))
			if err == nil && code == 503 {
				dead = true
			}
			if dead && code == 200 {
				failed = fmt.Errorf("/healthz answers 200 after 503 while the component stops")
				return
			}
			if late && err == nil && code == 200 {
				failed = hz.Softf("/healthz answers 200 well after Stop was called")
				return
			}
			// It is marked as not ready before it is marked as not alive.
			at = called.Load()
			late = at > 0 && time.Since(time.Unix(0, at)) > wait/30
			code, _, err = httpGet(probeURL(conf.ProbePort, "readyz"))
			if late && !dead && err == nil && code == 200 {
				failed = hz.Softf("/readyz answers 200 well after Stop was called")
				return
			}
			if dead && err == nil && code == 200 {
				failed = fmt.Errorf("/readyz answers 200 while the component stops")
				return
			}
		}
	}()
	ok := before()
	stopped := make(chan struct{})
	go func() {
		called.Store(time.Now().UnixNano())
		// Not poked: the check wants to see what happens meanwhile.
		comp.Stop()
		close(stopped)
	}()
	select {
	case <-stopped:
	case <-time.After(wait):
		close(stop)
		wg.Wait()
		return hz.Softf("Stop does not return")
	}
	close(stop)
	wg.Wait()
	if failed != nil {
		return failed
	}
	if !ok {
		return hz.Softf("the component does not process a message")
	}
	if _, _, err := httpGet(probeURL(conf.ProbePort, "healthz")); err == nil {
		return fmt.Errorf("/healthz is still served after Stop")
	} else if !errors.Is(err, syscall.ECONNREFUSED) {
		return hz.Softf("/healthz does not refuse connections after Stop")
	}
	return nil
}
