package long

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/nats-io/nats.go"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// service is a component which has been running for some time, and the
// traffic it gets.
type service struct {
	mode     string
	workers  int
	count    int    // batch_max_count
	size     int    // bytes of a message, about
	messages int    // per phase
	series   string // "same", or "new" for ones never seen before
	bad      string // what is special about every eighth message or so
	db       string // behaviour of InfluxDB: "ok", "reject", "fail", or "some"
	rule     string
	clients  int // of HTTP listeners
	probes   bool
}

func (s *service) String() string { return fmt.Sprintf("%+v", *s) }

func genService(c *hz.C) *service {
	t := c.T
	s := &service{mode: hz.One(t, "mode", "listener", "listener_http", "filter", "filter", "writer", "writer", "downsampler", "monitor")}
	s.workers = hz.One(t, "workers", 1, 2, 4)
	s.series = hz.One(t, "series", "same", "new", "new")
	s.size = hz.One(t, "size", 100, 1000, 1000, 3000)
	s.messages = hz.One(t, "messages", 1000, 3000)
	s.probes = hz.Chance(t, 50, "probes")
	switch s.mode {
	case "listener", "listener_http":
		s.count = hz.One(t, "count", 1, 10, 50)
		s.clients = hz.One(t, "clients", 1, 4)
		if s.mode == "listener_http" {
			s.bad = hz.One(t, "bad", "", "precision", "aborted", "connection")
			s.messages /= 2
		}
	case "filter":
		s.rule = hz.One(t, "rule", "basic", "regex", "negregex", "tags")
		s.bad = hz.One(t, "bad", "", "malformed", "junk", "late")
	case "writer":
		s.count = hz.One(t, "count", 1, 10, 50)
		s.rule = hz.One(t, "rule", "", "", "basic", "tags")
		s.db = hz.One(t, "db", "ok", "ok", "reject", "fail", "some")
		s.bad = hz.One(t, "bad", "", "malformed")
	case "downsampler":
		s.bad = hz.One(t, "bad", "", "malformed", "late")
	case "monitor":
		s.series = "same"
		s.bad = hz.One(t, "bad", "", "malformed", "clients")
	}
	return s
}

// message makes the i'th message.
func (s *service) message(i int) []byte {
	id := i
	if s.series == "same" {
		id = i % 20
	}
	bad := ""
	if i%8 == 0 {
		bad = s.bad
	}
	if s.mode == "monitor" {
		if bad == "malformed" {
			return []byte("x{a=\"1 2\n")
		}
		return fmt.Appendf(nil, "x{component=\"c\",name=\"n%d\"} %d %d\ny{name=\"%d\",component=\"c\"} 1\n", id, i, time.Now().UnixMilli(), id)
	}
	var b []byte
	for l := 0; len(b) < s.size; l++ {
		switch {
		case bad == "malformed":
			b = fmt.Appendf(b, "m%d,=,\\ x=%d\"= f=\" %d\n", id, l, i)
		case bad == "late":
			b = fmt.Appendf(b, "m,id=%d,l=%d f=%di 1000000000\n", id, l, i)
		case bad == "junk":
			b = fmt.Appendf(b, "j%d,id=%d,l=%d f=%di\n", i, id, l, i)
		case i%3 == 0 && s.mode != "downsampler":
			b = fmt.Appendf(b, "m,id=%d,l=%d f=%di\n", id, l, i)
		default:
			b = fmt.Appendf(b, "m,z=%d,id=%d,host=h%d f=%di,g=%d.5,s=\"text %d, of some length\"\n", l, id, id, i, l, l)
		}
	}
	return b
}

// usage is what a component needs.
type usage struct {
	heap       int
	goroutines int
	files      int
}

func measure() usage {
	httpClient.CloseIdleConnections()
	var m runtime.MemStats
	runtime.GC()
	runtime.GC()
	runtime.ReadMemStats(&m)
	fds, _ := os.ReadDir("/proc/self/fd")
	return usage{int(m.HeapAlloc), runtime.NumGoroutine(), len(fds)}
}

var httpClient = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{MaxIdleConnsPerHost: 10}}

const (
	warmUp = 2
	phases = 4
)

// verdicts has the result of each service which was looked at.
var verdicts = map[string]error{}

func TestC39_Resources(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 80, Thorough: 1200, Budget: time.Duration(hz.Pick(180, 1500)) * time.Second,
		Rule: "running components get phases of generated traffic (new series, malformed lines, aborted requests, failing databases and so on) until it is processed; after four more phases the heap, goroutines and open files must be as after the first two; non-trivial: all"},
		func(c *hz.C) {
			s := genService(c)
			verdict, known := verdicts[s.String()]
			if known && verdict != nil {
				c.Fatalf("%v", verdict) // while shrinking
			}
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				err := s.run(wait)
				verdicts[s.String()] = err
				return err
			})
			c.Label(s.mode)
			c.LabelIf(s.bad != "", s.mode+" with "+s.bad)
			c.LabelIf(s.db != "", "database: "+s.db)
			c.NonTrivial(s.String())
			c.Sample(s.String)
		})
}

func (s *service) run(wait time.Duration) error {
	sut.WaitStopped()
	nc := sut.Conn()
	conf := sut.Config(sut.NATS(), s.mode, sut.Unique())
	conf.Workers = s.workers
	conf.BatchMaxCount = max(s.count, 1)
	conf.BatchMaxSize = datasize.MB
	conf.BatchMaxAge = config.NewDuration(50 * time.Millisecond)
	conf.DownsamplePeriod = config.NewDuration(50 * time.Millisecond)
	conf.WriterRetryBatches = 3
	conf.WriterRetryInterval = config.NewDuration(5 * time.Millisecond)
	conf.WriterRetryTimeout = config.NewDuration(50 * time.Millisecond)
	conf.NATSMaxPendingSize = 200 * datasize.MB
	if s.probes {
		conf.ProbePort = sut.FreePort()
	}
	rule := config.Rule{Rtype: s.rule, Match: "m"}
	if s.rule == "tags" {
		rule = config.Rule{Rtype: "tags", Tags: [][]string{{"id", "7"}, {"l", "0"}}}
	}
	if s.rule == "negregex" {
		rule.Match = "^j"
	}
	if s.mode == "filter" {
		rule.Subject = conf.NATSSubject[0] + ".out"
		conf.Rule = []config.Rule{rule, {Rtype: "regex", Match: "nothing", Subject: rule.Subject}}
	} else if s.rule != "" {
		conf.Rule = []config.Rule{rule}
	}
	var requests, failing atomic.Int64
	failing.Store(map[string]int64{"ok": 0, "": 0, "reject": 400, "fail": 500, "some": 503}[s.db])
	db := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := requests.Add(1)
		io.Copy(io.Discard, r.Body)
		if f := failing.Load(); f != 0 && (s.db != "some" || n%3 == 0) {
			http.Error(w, "no", int(f))
			return
		}
		w.WriteHeader(http.StatusNoContent)
	}))
	defer db.Close()
	conf.InfluxDBPort = db.Listener.Addr().(*net.TCPAddr).Port
	var outBytes atomic.Int64
	for _, subject := range []string{conf.NATSSubject[0], conf.NATSSubject[0] + ".out", conf.NATSSubjectJunkyard, conf.NATSSubject[0] + conf.DownsampleSuffix} {
		if subject == conf.NATSSubject[0] && !strings.HasPrefix(s.mode, "listener") {
			continue
		}
		sub, err := nc.Subscribe(subject, func(m *nats.Msg) { outBytes.Add(int64(len(m.Data))) })
		if err != nil {
			hz.Infra("%v", err)
		}
		defer sub.Unsubscribe()
	}
	watched := conf.NATSSubjectMonitor
	if s.mode == "monitor" {
		watched += ".none" // m keeps what it can't parse
	}
	m := sut.Watch(nc, watched)
	defer m.Close()
	comp := sut.MustStart(conf)
	defer sut.StopNow(comp, conf)
	var udp *sut.UDP
	if s.mode == "listener" {
		udp = sut.DialUDP(conf.Port, m)
		defer udp.Close()
	}

	next, received := 0, 0
	phase := func() error {
		var err error
		switch s.mode {
		case "listener":
			for k := 0; k < s.messages; k++ {
				if err := udp.Send(s.message(next), wait); err != nil {
					return err
				}
				next++
			}
			err = udp.Sync(wait)
		case "listener_http":
			err = s.post(conf.Port, next)
			next += s.messages
		default:
			subject := conf.NATSSubject[0]
			if s.mode == "monitor" {
				subject = conf.NATSSubjectMonitor
			}
			for k := 0; k < s.messages; k++ {
				sut.Publish(nc, subject, s.message(next))
				next++
			}
			sut.Flush(nc)
			received += s.messages
			switch s.mode {
			case "filter":
				// All lines are counted.
				err = s.idle(wait, func() int64 { return m.Get("processed") })
			case "writer", "downsampler":
				if !m.WaitFor(wait, "received", int64(received)) {
					err = hz.Softf("not everything is received")
				}
			case "monitor":
				err = s.poll(conf.Port)
			}
		}
		if err != nil {
			return err
		}
		if s.probes {
			for _, what := range []string{"healthz", "readyz"} {
				if resp, err := httpClient.Get(fmt.Sprintf("http://127.0.0.1:%d/%s", conf.ProbePort, what)); err == nil {
					io.Copy(io.Discard, resp.Body)
					resp.Body.Close()
				}
			}
		}
		// Until it is done with all of that.
		return s.idle(wait, func() int64 { return requests.Load() + outBytes.Load() })
	}
	for i := 0; i < warmUp; i++ {
		if err := phase(); err != nil {
			return err
		}
	}
	before := measure()
	for i := 0; i < phases; i++ {
		if err := phase(); err != nil {
			return err
		}
	}
	var after usage
	var err error
	sut.Until(min(wait/5, 5*time.Second), func() bool {
		after = measure()
		err = nil
		switch {
		case after.goroutines > before.goroutines+4:
			err = hz.Softf("a %s has ever more goroutines", s.mode)
		case after.files > before.files+4:
			err = hz.Softf("a %s has ever more open files", s.mode)
		case after.heap > before.heap+400000:
			err = hz.Softf("a %s needs ever more memory", s.mode)
		default:
			return true
		}
		time.Sleep(100 * time.Millisecond)
		return false
	})
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Println("DBG", before, after, after.heap-before.heap, s)
	}
	return err
}

// idle waits until a number does not change any more.
func (s *service) idle(wait time.Duration, f func() int64) error {
	quiet := 150 * time.Millisecond
	last, since := f(), time.Now()
	for end := time.Now().Add(wait + quiet); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if v := f(); v != last {
			last, since = v, time.Now()
		} else if time.Since(since) > quiet {
			return nil
		}
	}
	return hz.Softf("a %s does not become idle", s.mode)
}

// post sends messages to an HTTP listener.
func (s *service) post(port, next int) error {
	var wg sync.WaitGroup
	errs := make(chan error, s.clients)
	for cl := 0; cl < s.clients; cl++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := cl; i < s.messages; i += s.clients {
				url := fmt.Sprintf("http://127.0.0.1:%d/write", port)
				body := s.message(next + i)
				if i%8 == 0 {
					switch s.bad {
					case "precision":
						url += "?precision=" + []string{"ms", "s", "x", "h", "u"}[rand.Intn(5)]
					case "aborted":
						conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", port))
						if err != nil {
							errs <- hz.Softf("can't connect")
							return
						}
						fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: %d\r\n\r\n%s", len(body)+10, body)
						conn.Close()
						continue
					case "connection":
						httpClient.CloseIdleConnections()
					}
				}
				resp, err := httpClient.Post(url, "", bytes.NewReader(body))
				if err != nil {
					errs <- hz.Softf("posting fails")
					return
				}
				io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
			}
		}()
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
		return nil
	}
}

// poll asks a monitor for its metrics.
func (s *service) poll(port int) error {
	n := 10
	if s.bad == "clients" {
		n = 300
	}
	for i := 0; i < n; i++ {
		resp, err := httpClient.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", port))
		if err != nil {
			return hz.Softf("the monitor does not answer")
		}
		if i%3 > 0 {
			io.Copy(io.Discard, resp.Body)
		}
		resp.Body.Close()
	}
	return nil
}
