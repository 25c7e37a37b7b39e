package system

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// cycle is one life of a component: it is started, gets traffic, and is
// stopped while the traffic goes on.
type cycle struct {
	delay   time.Duration // from the start to the stop
	traffic int           // clients
	size    int           // of what the clients send at a time
	db      string        // how InfluxDB behaves
}

// life is a history of a component.
type life struct {
	mode    string
	workers int
	count   int // batch_max_count
	group   string
	probe   bool
	poke    bool // don't wait for an idle UDP listener to notice
	cycles  []cycle
}

func genLife(c *hz.C, mode string) *life {
	l := &life{mode: mode, workers: hz.Int(c.T, 1, 4, "workers"), count: hz.One(c.T, "count", 1, 1, 3), probe: hz.Chance(c.T, 70, "probe")}
	l.poke = hz.Chance(c.T, 90, "poke")
	if l.count > 1 {
		l.workers = 1
	}
	if hz.Chance(c.T, 30, "group") {
		l.group = "g"
	}
	for n := hz.One(c.T, "cycles", 1, 1, 2, 4); n > 0; n-- {
		l.cycles = append(l.cycles, cycle{
			delay:   time.Duration(hz.One(c.T, "delay", 0, 0, 50, 500, 2000, 10000, 40000)) * time.Microsecond,
			traffic: hz.One(c.T, "traffic", 0, 1, 1, 2, 4),
			size:    hz.One(c.T, "size", 1, 10, 100, 1000),
			db:      hz.One(c.T, "db", "ok", "ok", "slow", "refuse", "reject", "hang", "drop"),
		})
	}
	return l
}

func (l *life) String() string { return fmt.Sprintf("%+v", *l) }

// trafficLine is what flows until the stop.
const trafficLine = "cpu,b=1,a=2 v=7,w=8 1\nfoo v=1\n"

// send sends traffic until stop is closed.
func (l *life) send(srv *server.Server, conf *config.Config, i, size int, stop <-chan struct{}) {
	data := []byte(strings.Repeat(trafficLine, size))
	running := func() bool {
		select {
		case <-stop:
			return false
		default:
			return true
		}
	}
	switch l.mode {
	case "listener":
		conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
		if err != nil {
			return
		}
		defer conn.Close()
		for running() {
			conn.Write(data)
			time.Sleep(50 * time.Microsecond)
		}
	case "listener_http":
		if i%2 == 1 {
			// A request which never ends.
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
			if err != nil {
				return
			}
			defer conn.Close()
			fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(data)+1, data)
			<-stop
			return
		}
		for running() {
			resp, err := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", conf.Port), "text/plain", bytes.NewReader(data))
			if err != nil {
				time.Sleep(time.Millisecond)
				continue
			}
			io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	case "monitor":
		if i%2 == 1 {
			for running() {
				httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port))
			}
			return
		}
		l.publish(srv, conf.NATSSubjectMonitor, []byte(strings.Repeat("foo 1\n", size)), running)
	default:
		l.publish(srv, conf.NATSSubject[i%len(conf.NATSSubject)], data, running)
	}
}

func (l *life) publish(srv *server.Server, subject string, data []byte, running func() bool) {
	nc := sut.Connect(srv)
	defer nc.Close()
	for running() {
		sut.Publish(nc, subject, data)
		time.Sleep(50 * time.Microsecond)
	}
	sut.Flush(nc)
}

// clients counts the NATS connections with a name.
func clients(srv *server.Server, name string) int {
	conns, err := srv.Connz(&server.ConnzOptions{Limit: 100000})
	if err != nil {
		hz.Infra("%v", err)
	}
	n := 0
	for _, c := range conns.Conns {
		if c.Name == name {
			n++
		}
	}
	return n
}

func (l *life) run(srv *server.Server, nc *nats.Conn, wait time.Duration) error {
	prefix := sut.Unique()
	conf := sut.Config(srv, l.mode, prefix)
	conf.Name = prefix
	conf.Workers = l.workers
	conf.BatchMaxCount = l.count
	conf.QueueGroup = l.group
	conf.WriterRetryBatches = 3
	conf.WriterRetryInterval = config.NewDuration(time.Millisecond)
	conf.WriteTimeout = config.NewDuration(100 * time.Millisecond)
	conf.DownsamplePeriod = config.NewDuration(50 * time.Millisecond)
	out := prefix + ".out"
	switch l.mode {
	case "filter":
		conf.Rule = []config.Rule{{Rtype: "basic", Match: "cpu", Subject: out}}
	case "listener", "listener_http":
		out = conf.NATSSubject[0]
	case "downsampler":
		out = conf.NATSSubject[0] + "-archive"
	}
	if l.probe {
		conf.ProbePort = sut.FreePort()
	}
	conf.Port = sut.FreePort()
	var db atomic.Value
	db.Store("ok")
	influx := sut.NewInflux(func(int, *sut.Request) sut.Outcome {
		switch db.Load() {
		case "slow":
			return sut.Outcome{Delay: 3 * time.Millisecond}
		case "refuse":
			return sut.Outcome{Status: 503}
		case "reject":
			return sut.Outcome{Status: 400}
		case "hang":
			return sut.Outcome{Hang: true}
		case "drop":
			return sut.Outcome{Drop: true}
		}
		return sut.Outcome{}
	})
	defer influx.Close()
	conf.InfluxDBPort = influx.Port

	for i, cy := range l.cycles {
		db.Store(cy.db)
		comp, err := sut.Start(conf)
		if err != nil {
			return hz.Softf("start number %d fails: %v", i+1, err)
		}
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for k := 0; k < cy.traffic; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				l.send(srv, conf, k, cy.size, stop)
			}()
		}
		time.Sleep(cy.delay)
		err = l.stop(srv, comp, conf, wait)
		close(stop)
		wg.Wait()
		if err != nil {
			return fmt.Errorf("%w, in life number %d", err, i+1)
		}
	}

	// Now it works as if it were new.
	db.Store("ok")
	from := len(influx.Reqs())
	metrics := sut.Watch(nc, conf.NATSSubjectMonitor)
	defer metrics.Close()
	col := sut.Collect(nc, out, conf.NATSSubjectJunkyard)
	defer col.Close()
	comp, err := sut.Start(conf)
	if err != nil {
		return hz.Softf("the last start fails: %v", err)
	}
	err = l.verify(nc, conf, out, col, metrics, influx, from, wait)
	if e := l.stop(srv, comp, conf, wait); err == nil {
		err = e
	}
	return err
}

// stop stops the component and looks at what remains.
func (l *life) stop(srv *server.Server, comp sut.Component, conf *config.Config, wait time.Duration) error {
	done := make(chan struct{})
	go func() {
		if l.poke {
			sut.StopNow(comp, conf)
		} else {
			comp.Stop()
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(wait):
		return hz.Softf("Stop does not return")
	}
	switch l.mode {
	case "listener":
		u, err := net.ListenUDP("udp", &net.UDPAddr{Port: conf.Port})
		if err != nil {
			return hz.Softf("the port is still in use after Stop")
		}
		u.Close()
	case "listener_http", "monitor":
		if !tcpFree(conf.Port) {
			return hz.Softf("the port is still in use after Stop")
		}
	}
	if l.probe && !tcpFree(conf.ProbePort) {
		return hz.Softf("the probes' port is still in use after Stop")
	}
	if !sut.Until(wait, func() bool { return clients(srv, conf.Name) == 0 }) {
		return hz.Softf("connections to NATS remain after Stop")
	}
	return nil
}

func (l *life) verify(nc *nats.Conn, conf *config.Config, out string, col *sut.Collector, metrics *sut.Metrics, influx *sut.Influx, from int, wait time.Duration) error {
	const line = "cpu v=3\n"
	want := strings.Repeat(line, l.count)
	received := int64(l.count)
	expect := func(n int, ok func() bool) error {
		if !col.WaitBytes(wait, n) || !ok() {
			return hz.Softf("sent %q after a restart, got %.300q", want, col.Msgs())
		}
		return nil
	}
	var err error
	switch l.mode {
	case "listener":
		conn, e := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
		if e != nil {
			return hz.Softf("can't send: %v", e)
		}
		defer conn.Close()
		for i := 0; i < l.count; i++ {
			if _, e := conn.Write([]byte(line)); e != nil {
				return hz.Softf("can't send: %v", e)
			}
		}
		err = expect(len(want), func() bool { return string(join(col.Msgs(), out)) == want })
	case "listener_http":
		for i := 0; i < l.count; i++ {
			resp, e := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", conf.Port), "text/plain", strings.NewReader(line))
			if e != nil {
				return hz.Softf("can't send: %v", e)
			}
			resp.Body.Close()
		}
		err = expect(len(want), func() bool { return string(join(col.Msgs(), out)) == want })
	case "filter":
		for i := 0; i < l.count; i++ {
			sut.Publish(nc, conf.NATSSubject[0], []byte(line+"xx v=1\n"))
		}
		err = expect(len(want)+7*l.count, func() bool {
			return string(join(col.Msgs(), out)) == want && string(join(col.Msgs(), conf.NATSSubjectJunkyard)) == strings.Repeat("xx v=1\n", l.count)
		})
	case "writer":
		for i := 0; i < l.count; i++ {
			sut.Publish(nc, conf.NATSSubject[0], []byte(line))
		}
		if !influx.Wait(wait, func(reqs []*sut.Request) bool { return len(sut.Bodies(reqs[from:])) >= len(want) }) ||
			string(sut.Bodies(influx.Reqs()[from:])) != want {
			err = hz.Softf("sent %q after a restart, written is %.300q", want, sut.Bodies(influx.Reqs()[from:]))
		}
	case "downsampler":
		sut.Publish(nc, conf.NATSSubject[0], []byte(line))
		received = 1
		if !col.Wait(wait, func(ms []sut.Msg) bool { return len(ms) > 0 }) {
			err = hz.Softf("no output after a restart")
		} else if got := string(join(col.Msgs(), out)); !strings.HasPrefix(got, "cpu v=3 ") || strings.Count(got, "\n") != 1 {
			err = hz.Softf("sent %q after a restart, got %.300q", line, got)
		}
	case "monitor":
		sut.Publish(nc, conf.NATSSubjectMonitor, []byte("restarted 1\n"))
		body := ""
		if !sut.Until(wait, func() bool {
			_, body, _ = httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port))
			return strings.Contains(body, "restarted")
		}) || body != "restarted 1\n" {
			err = hz.Softf("/metrics is %.300q after a restart", body)
		}
		return err
	}
	if err != nil {
		return err
	}
	name := "received"
	if l.mode == "filter" {
		name, received = "processed", 2*received
	}
	if !metrics.Wait(wait, func(m map[string]int64) bool { return m[name] == received }) {
		return hz.Softf("the %s metric is %d after a restart and %d messages", name, metrics.Get(name), received)
	}
	return nil
}

func join(ms []sut.Msg, subject string) []byte {
	return bytes.Join(sut.By(ms, subject), nil)
}

func TestC33_Lives(t *testing.T) {
	srv := sut.NewNATS()
	defer srv.Shutdown()
	nc := sut.Connect(srv)
	defer nc.Close()
	hz.Check(t, hz.Opts{Quick: 30, Thorough: 600,
		Rule: "components of all modes at a time, each with generated cycles of start, traffic (UDP, HTTP with requests which never end, NATS, and InfluxDB failing in several ways) and stop while the traffic goes on; stops must return, leave no open port or NATS connection and in the end no goroutine, and after the last restart with the same configuration the component must do its work and count from zero; non-trivial: stopped with traffic (each component is a case)"},
		func(c *hz.C) {
			var ls []*life
			for _, mode := range modes {
				l := genLife(c, mode)
				ls = append(ls, l)
				busy := false
				for _, cy := range l.cycles {
					busy = busy || cy.traffic > 0
				}
				c.Sub(busy, l.String())
			}
			c.Sample(func() string { return ls[3].String() })
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(ls))
				var wg sync.WaitGroup
				for i, l := range ls {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = l.run(srv, nc, wait)
					}()
				}
				wg.Wait()
				if err := worst(errs, func(i int) string { return ls[i].String() }); err != nil {
					return err
				}
				var gs []string
				if !sut.Until(wait, func() bool { gs = sut.Goroutines(); return len(gs) == 0 }) {
					return hz.Softf("goroutines remain after all components were stopped:\n%s", stackOf(gs[0]))
				}
				return nil
			})
		})
}
