package system

import (
	"bytes"
	"fmt"
	"net/http"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"pgregory.net/rapid"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// topology is an installation of influx-spout and the lines sent to it.
type topology struct {
	rules   []config.Rule // with subjects s0, s1, ...
	subject int           // number of subjects
	delta   time.Duration // max_time_delta

	udp, http int // listeners of each kind
	lcount    int
	lsize     datasize.ByteSize
	lage      time.Duration

	filters, fworkers int

	writers []*e2eWriter
	sends   []send
	skew    []int // how the senders' requests are spread in time, in 100us
}

type e2eWriter struct {
	subjects []int // -1 is the junkyard
	workers  int
	count    int
	size     datasize.ByteSize
	age      time.Duration
	copies   int // writers in a queue group which share the database
}

// send is a datagram or request.
type send struct {
	to   int // listener
	data []byte
	// What must arrive where: indices are subjects, the last is the
	// junkyard.
	want [][]string
	out  int // lines outside of the time window
}

func genTopology(t *rapid.T, id string) *topology {
	tp := &topology{
		rules:    gen.Rules(t, 0, 6),
		subject:  hz.Int(t, 1, 4, "subjects"),
		delta:    time.Duration(hz.One(t, "delta", 10, 10, 60, 1500)) * time.Minute,
		udp:      hz.One(t, "udp", 1, 1, 1, 2, 0),
		http:     hz.One(t, "http", 1, 1, 1, 2, 0),
		lcount:   hz.One(t, "listener count", 1, 2, 5, 20, 1000),
		lsize:    hz.One(t, "listener size", datasize.MB, datasize.MB, 100*datasize.KB, datasize.KB),
		lage:     time.Duration(hz.One(t, "listener age", 1, 20, 100)) * time.Millisecond,
		filters:  hz.One(t, "filters", 1, 1, 2, 3),
		fworkers: hz.Int(t, 1, 4, "filter workers"),
	}
	if tp.udp+tp.http == 0 {
		tp.udp = 1
	}
	for i := range tp.rules {
		tp.rules[i].Subject = fmt.Sprint("s", hz.Int(t, 0, tp.subject-1, "rule subject"))
	}
	// Lines which are longer than a writer's limit would be cut.
	sizes := []datasize.ByteSize{10 * datasize.MB, 10 * datasize.MB, 4 * datasize.KB}
	long := hz.Chance(t, 30, "long lines")
	if !long {
		sizes = append(sizes, 300)
	}
	for n := hz.Int(t, 1, 4, "writers"); n > 0; n-- {
		w := &e2eWriter{
			workers: hz.Int(t, 1, 4, "writer workers"),
			count:   hz.One(t, "writer count", 1, 3, 10, 1000),
			size:    hz.One(t, "writer size", sizes...),
			age:     time.Duration(hz.One(t, "writer age", 1, 50, 300)) * time.Millisecond,
			copies:  hz.One(t, "copies", 1, 1, 1, 2, 3),
		}
		for s := -1; s < tp.subject; s++ {
			if hz.Chance(t, 50, "subject") {
				w.subjects = append(w.subjects, s)
			}
		}
		if len(w.subjects) == 0 {
			w.subjects = []int{hz.Int(t, -1, tp.subject-1, "only subject")}
		}
		tp.writers = append(tp.writers, w)
	}
	now := time.Now()
	seq := 0
	for n := hz.One(t, "sends", 1, 5, 20, 60); n > 0; n-- {
		s := send{to: hz.Int(t, 0, tp.udp+tp.http-1, "to"), want: make([][]string, tp.subject+1)}
		for k := hz.One(t, "lines", 1, 1, 2, 5, 20); k > 0; k-- {
			seq++
			line := gen.Line(t, fmt.Sprintf("%s%d", id, seq), gen.Opts{})
			if long && hz.Chance(t, 10, "long") {
				line = append(line, fmt.Sprintf(`,p="%s"`, bytes.Repeat([]byte("p q,"), hz.One(t, "pad", 20, 100, 500)))...)
			}
			far := false
			switch hz.One(t, "ts", "none", "none", "near", "far") {
			case "near":
				line = append(line, gen.NearTS(t, now)...)
			case "far":
				far = true
				d := tp.delta + time.Duration(hz.One(t, "by", 1, 5, 100000))*time.Hour
				if rapid.Bool().Draw(t, "past") {
					d = -d
				}
				line = append(line, ' ')
				line = strconv.AppendInt(line, now.Add(d).UnixNano(), 10)
			}
			line = append(line, '\n')
			s.data = append(s.data, line...)
			if far {
				s.out++
				continue
			}
			idx, sorted, ok := ref.Route(tp.rules, line)
			if !ok {
				hz.Infra("generated a malformed line %q", line)
			}
			to := tp.subject
			if idx >= 0 {
				fmt.Sscanf(tp.rules[idx].Subject, "s%d", &to)
			}
			s.want[to] = append(s.want[to], string(sorted))
		}
		tp.sends = append(tp.sends, s)
		tp.skew = append(tp.skew, hz.One(t, "skew", 0, 0, 0, 5, 100))
	}
	return tp
}

func (tp *topology) String() string {
	s := fmt.Sprintf("rules")
	for _, r := range tp.rules {
		s += " " + gen.RuleString(r) + ";"
	}
	s += fmt.Sprintf(" max_time_delta %v; %d+%d listeners (%d, %v, %v), %d filters with %d workers; writers", tp.delta, tp.udp, tp.http, tp.lcount, tp.lsize, tp.lage, tp.filters, tp.fworkers)
	for _, w := range tp.writers {
		s += fmt.Sprintf(" %+v", *w)
	}
	n := 0
	for _, x := range tp.sends {
		n += bytes.Count(x.data, []byte("\n"))
	}
	return s + fmt.Sprintf("; %d sends with %d lines", len(tp.sends), n)
}

// databases tells how many of them get lines.
func (tp *topology) databases() int {
	n := 0
	for i := range tp.writers {
		if len(tp.want(i)) > 0 {
			n++
		}
	}
	return n
}

// want returns the lines which must arrive in the database of a writer.
func (tp *topology) want(i int) map[string]int {
	out := map[string]int{}
	for _, s := range tp.writers[i].subjects {
		if s < 0 {
			s = tp.subject
		}
		for _, x := range tp.sends {
			for _, l := range x.want[s] {
				out[l]++
			}
		}
	}
	return out
}

// e2e is a running topology.
type e2e struct {
	*topology
	prefix string
	stop   []func()
	influx []*sut.Influx
	udps   []*sut.UDP
	ports  []int
}

func (e *e2e) start(conf *config.Config) {
	comp := sut.MustStart(conf)
	e.stop = append(e.stop, func() { sut.StopLater(comp, conf) })
}

func (tp *topology) start() *e2e {
	e := &e2e{topology: tp, prefix: sut.Unique()}
	name := func(s string) string { return e.prefix + "." + s }
	for _, w := range tp.writers {
		f := sut.NewInflux(nil)
		e.influx = append(e.influx, f)
		conf := sut.Config(sut.NATS(), "writer", e.prefix)
		conf.InfluxDBPort = f.Port
		conf.Workers, conf.BatchMaxCount, conf.BatchMaxSize, conf.BatchMaxAge = w.workers, w.count, w.size, config.NewDuration(w.age)
		conf.NATSSubject = nil
		for _, s := range w.subjects {
			if s < 0 {
				conf.NATSSubject = append(conf.NATSSubject, conf.NATSSubjectJunkyard)
			} else {
				conf.NATSSubject = append(conf.NATSSubject, name(fmt.Sprint("s", s)))
			}
		}
		if w.copies > 1 {
			conf.QueueGroup = "g" + fmt.Sprint(f.Port)
		}
		for i := 0; i < w.copies; i++ {
			e.start(conf)
		}
	}
	for i := 0; i < tp.filters; i++ {
		conf := sut.Config(sut.NATS(), "filter", e.prefix)
		conf.Workers = tp.fworkers
		conf.MaxTimeDelta = config.NewDuration(tp.delta)
		for _, r := range tp.rules {
			r.Subject = name(r.Subject)
			conf.Rule = append(conf.Rule, r)
		}
		e.start(conf)
	}
	for i := 0; i < tp.udp+tp.http; i++ {
		conf := sut.Config(sut.NATS(), "listener", e.prefix)
		if i >= tp.udp {
			conf.Mode = "listener_http"
		}
		conf.NATSSubjectMonitor += fmt.Sprint(i)
		conf.BatchMaxCount, conf.BatchMaxSize, conf.BatchMaxAge = tp.lcount, tp.lsize, config.NewDuration(tp.lage)
		var m *sut.Metrics
		if i < tp.udp {
			m = sut.Watch(sut.Conn(), conf.NATSSubjectMonitor)
			e.stop = append(e.stop, m.Close)
		}
		e.start(conf)
		e.ports = append(e.ports, conf.Port)
		if i < tp.udp {
			u := sut.DialUDP(conf.Port, m)
			e.udps = append(e.udps, u)
			e.stop = append(e.stop, u.Close)
		}
	}
	return e
}

func (e *e2e) close() {
	for _, f := range e.influx {
		f.Close()
	}
	for _, f := range e.stop {
		f()
	}
}

// send sends everything: each listener has its own client.
func (e *e2e) send(wait time.Duration) error {
	errs := make([]error, e.udp+e.http)
	var wg sync.WaitGroup
	for i := range errs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k, s := range e.sends {
				if s.to != i {
					continue
				}
				time.Sleep(time.Duration(e.skew[k]) * 100 * time.Microsecond)
				if i < e.udp {
					if err := e.udps[i].Send(s.data, wait); err != nil {
						errs[i] = err
						return
					}
					continue
				}
				resp, err := e2eClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write?db=x", e.ports[i]), "text/plain", bytes.NewReader(s.data))
				if err != nil {
					errs[i] = hz.Softf("can't post")
					return
				}
				resp.Body.Close()
				if resp.StatusCode != 204 {
					errs[i] = fmt.Errorf("a post is answered with status %d", resp.StatusCode)
					return
				}
			}
			if i < e.udp {
				// The listener checks the age of the batch when it
				// reads (or every second).
				errs[i] = e.udps[i].Sync(wait)
				time.Sleep(e.lage)
				e.udps[i].Send(nil, wait)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

var e2eClient = &http.Client{
	Timeout:   30 * time.Second,
	Transport: &http.Transport{MaxIdleConnsPerHost: 2, IdleConnTimeout: time.Second},
}

// arrived waits until as much has arrived as should.
func (e *e2e) arrived(wait time.Duration) {
	end := time.Now().Add(wait)
	for i, f := range e.influx {
		n := 0
		for l, k := range e.want(i) {
			n += len(l) * k
		}
		f.Wait(time.Until(end), func(reqs []*sut.Request) bool { return len(sut.Bodies(reqs)) >= n })
	}
}

func (e *e2e) compare() error {
	for i, f := range e.influx {
		want := e.want(i)
		for _, r := range f.Reqs() {
			if len(r.Body) == 0 || r.Body[len(r.Body)-1] != '\n' {
				return hz.Softf("database %d gets the body %.300q, which does not consist of lines", i, r.Body)
			}
			for _, line := range ref.Lines(r.Body) {
				if want[string(line)] == 0 {
					return hz.Softf("database %d gets the line %.1000q, which does not belong there (or did arrive already)", i, line)
				}
				if want[string(line)]--; want[string(line)] == 0 {
					delete(want, string(line))
				}
			}
		}
		missing := ""
		for line := range want {
			if missing == "" || line < missing {
				missing = line
			}
		}
		if missing != "" {
			return hz.Softf("the line %.1000q is missing in database %d", missing, i)
		}
	}
	return nil
}

func TestC34_Topologies(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 8, Thorough: 160,
		Rule: "batches of 24 installations with generated rules, UDP and HTTP listeners, parallel filters with workers, writers (also in queue groups) for some of the subjects each, and batch limits of all kinds; the lines in each database must be the multiset a model gives; non-trivial: at least two databases get lines (each installation is a case)"},
		func(c *hz.C) {
			var tps []*topology
			for i := 0; i < 24; i++ {
				tp := genTopology(c.T, fmt.Sprint(i+1, "00"))
				tps = append(tps, tp)
				c.Sub(tp.databases() > 1, fmt.Sprint(tp, tp.sends))
			}
			c.Sample(tps[1].String)
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(tps))
				es := make([]*e2e, len(tps))
				var wg sync.WaitGroup
				for i, tp := range tps {
					wg.Add(1)
					go func() {
						defer wg.Done()
						es[i] = tp.start()
						if errs[i] = es[i].send(wait); errs[i] == nil {
							es[i].arrived(wait)
						}
					}()
				}
				wg.Wait()
				// Batches which should not be there get written, too.
				time.Sleep(1200 * time.Millisecond)
				for i, e := range es {
					if errs[i] == nil {
						errs[i] = e.compare()
					}
					e.close()
				}
				return worst(errs, func(i int) string { return tps[i].String() })
			})
		})
}

// The known defect.
func TestC34_Unterminated(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1, Thorough: 1, Rule: "the known finding's input"},
		func(c *hz.C) {
			db := sut.NewInflux(nil)
			defer db.Close()
			prefix := sut.Unique()
			lconf := sut.Config(sut.NATS(), "listener_http", prefix)
			lconf.BatchMaxCount = 1
			wconf := sut.Config(sut.NATS(), "writer", prefix)
			wconf.BatchMaxCount = 2
			wconf.InfluxDBPort = db.Port
			w := sut.MustStart(wconf)
			defer sut.StopLater(w, wconf)
			l := sut.MustStart(lconf)
			defer sut.StopLater(l, lconf)
			for _, body := range []string{"a b=1", "c d=2"} {
				resp, err := e2eClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", lconf.Port), "text/plain", bytes.NewReader([]byte(body)))
				if err == nil {
					resp.Body.Close()
				}
			}
			db.Wait(10*time.Second, func(reqs []*sut.Request) bool { return len(reqs) > 0 })
			if string(sut.Bodies(db.Reqs())) == "a b=1c d=2" {
				c.Finding("unterminated-http-batches two bodies are joined into one line")
			}
			c.Sample(func() string { return "a b=1, c d=2" })
		})
}
