package bus

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// node is a component whose connection to NATS is interrupted.
type node struct {
	mode    string
	conf    *config.Config
	comp    sut.Component
	link    *sut.Link
	m       *sut.Metrics
	col     *sut.Collector // of the output
	influx  *sut.Influx
	udp     net.Conn
	next    int   // number of the next line
	must    []int // lines which have to arrive, once; in order for listeners
	may     map[int]bool
	failed  int   // lines known to be missing
	parsed  int   // messages of col
	ids     []int // lines in them
	flooded int   // the last lines of must of which some may be lost
	early   []int // must arrive during the outage
}

var allModes = []string{"listener", "listener_http", "filter", "writer", "downsampler", "monitor"}

func startNode(link *sut.Link, mode string, workers int, stats time.Duration) *node {
	nc := sut.Conn()
	n := &node{mode: mode, link: link, may: map[int]bool{}}
	c := sut.Config(sut.NATS(), mode, sut.Unique())
	n.conf = c
	c.NATSAddress = link.URL()
	c.Workers = workers
	c.StatsInterval = config.NewDuration(stats)
	c.DownsamplePeriod = config.NewDuration(300 * time.Millisecond)
	c.ProbePort = sut.FreePort()
	out := c.NATSSubject[0]
	switch mode {
	case "listener", "listener_http":
		c.BatchMaxCount = 1
	case "filter":
		out = out + ".out"
		c.Rule = []config.Rule{{Rtype: "basic", Match: "p", Subject: out}}
	case "downsampler":
		out = out + c.DownsampleSuffix
	case "writer":
		c.BatchMaxCount = 3
		c.BatchMaxSize = 10 * datasize.MB
		c.BatchMaxAge = config.NewDuration(600 * time.Millisecond)
		n.influx = sut.NewInflux(func(int, *sut.Request) sut.Outcome { return sut.Outcome{} })
		c.InfluxDBPort = n.influx.Port
	}
	if mode != "writer" && mode != "monitor" {
		n.col = sut.Collect(nc, out)
	}
	n.m = sut.Watch(nc, c.NATSSubjectMonitor)
	n.comp = sut.MustStart(c)
	if mode == "listener" {
		var err error
		if n.udp, err = net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", c.Port)); err != nil {
			hz.Infra("%v", err)
		}
	}
	return n
}

func (n *node) close() {
	if n.influx != nil {
		n.influx.Close()
	}
	if n.col != nil {
		n.col.Close()
	}
	if n.udp != nil {
		n.udp.Close()
	}
	n.m.Close()
}

var httpClient = &http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}

// send gives the component a line, padded to size, and returns its
// number.
func (n *node) send(size int) (int, error) {
	id := n.next
	n.next++
	line := fmt.Appendf(nil, "p,id=%d v=%di", id, id)
	if size > len(line) {
		line = fmt.Appendf(nil, "p,id=%d,pad=%s v=%di", id, strings.Repeat("x", size), id)
	}
	line = append(line, '\n')
	switch n.mode {
	case "listener":
		if _, err := n.udp.Write(line); err != nil {
			hz.Infra("UDP send: %v", err)
		}
	case "listener_http":
		resp, err := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", n.conf.Port), "", bytes.NewReader(line))
		if err != nil {
			return 0, hz.Softf("posting fails")
		}
		resp.Body.Close()
	case "monitor":
		sut.Publish(sut.Conn(), n.conf.NATSSubjectMonitor, fmt.Appendf(nil, "x{id=\"%d\"} %d 1\n", id, id))
	default:
		sut.Publish(sut.Conn(), n.conf.NATSSubject[0], line)
	}
	return id, nil
}

func (n *node) sendMust(k, size int) error {
	for ; k > 0; k-- {
		id, err := n.send(size)
		if err != nil {
			return err
		}
		n.must = append(n.must, id)
	}
	return nil
}

var idRE = regexp.MustCompile(`(?m)^(?:p,id=|x\{id=")(\d+)[^ ]* (\d+|v=\d+i)[^\n]*\n`)

// got returns the numbers of the lines in the output, in order.
func (n *node) got() ([]int, error) {
	var out []byte
	switch n.mode {
	case "writer":
		out = sut.Bodies(n.influx.Reqs())
	case "monitor":
		resp, err := httpClient.Get(fmt.Sprintf("http://127.0.0.1:%d/metrics", n.conf.Port))
		if err != nil {
			return nil, hz.Softf("the monitor does not answer")
		}
		out, _ = io.ReadAll(resp.Body)
		resp.Body.Close()
		if resp.StatusCode != 200 {
			return nil, fmt.Errorf("the monitor answers %d", resp.StatusCode)
		}
	default:
		for _, m := range n.col.Msgs()[n.parsed:] {
			ids, err := n.parse(m.Data)
			if err != nil {
				return nil, err
			}
			n.ids = append(n.ids, ids...)
			n.parsed++
		}
		return n.ids, nil
	}
	return n.parse(out)
}

// parse returns the numbers of lines.
func (n *node) parse(out []byte) ([]int, error) {
	var ids []int
	matched := 0
	for _, m := range idRE.FindAllSubmatch(out, -1) {
		id, _ := strconv.Atoi(string(m[1]))
		if v := strings.Trim(string(m[2]), "v=i"); v != string(m[1]) {
			return nil, fmt.Errorf("a line was changed")
		}
		ids = append(ids, id)
		matched += len(m[0])
	}
	if matched != len(out) && n.mode != "monitor" {
		return nil, fmt.Errorf("there is more than the lines in the output")
	}
	return ids, nil
}

// check compares what arrived so far.
func (n *node) check(wait time.Duration, must []int) error {
	var err error
	sut.Until(wait, func() bool {
		var ids []int
		ids, err = n.got()
		if err != nil {
			return false
		}
		count := map[int]int{}
		for _, id := range ids {
			count[id]++
			if id >= n.next {
				err = fmt.Errorf("an unknown line came out")
				return true
			}
			if count[id] > 1 {
				err = fmt.Errorf("a line came out more than once")
				return true
			}
		}
		missing := 0
		for i, id := range must {
			if count[id] == 0 {
				if i < len(must)-n.flooded {
					err = hz.Softf("the output of a %s lacks lines", n.mode)
					return false
				}
				missing++
			}
		}
		if missing > 0 {
			failed := int(n.m.Get("failed_nats_publish")) - n.failed
			if missing != failed {
				err = hz.Softf("lines are missing which are not counted in failed_nats_publish")
				return false
			}
		}
		if strings.HasPrefix(n.mode, "listener") {
			last := -1
			for _, id := range ids {
				if id < last {
					err = fmt.Errorf("the output of a %s is not in order", n.mode)
					return true
				}
				last = id
			}
		}
		return true
	})
	if err != nil {
		return fmt.Errorf("%s: %w", n.mode, err)
	}
	return nil
}

func (n *node) probe(what string) error {
	var err error
	sut.Until(3*time.Second, func() bool {
		resp, e := httpClient.Get(fmt.Sprintf("http://127.0.0.1:%d/%s", n.conf.ProbePort, what))
		if e != nil {
			err = hz.Softf("%s: no answer from probe %s", n.mode, what)
			return false
		}
		resp.Body.Close()
		err = nil
		if resp.StatusCode != 200 {
			err = fmt.Errorf("%s: /%s gives %d", n.mode, what, resp.StatusCode)
		}
		return true
	})
	return err
}

// before is the time before an outage.
func (n *node) before(wait time.Duration) error {
	if err := n.sendMust(2, 0); err != nil {
		return err
	}
	if err := n.check(wait, n.must); err != nil {
		return err
	}
	n.early = nil
	if n.mode == "writer" || n.mode == "downsampler" {
		// Something which is due during the outage.
		if err := n.sendMust(1, 0); err != nil {
			return err
		}
		n.early = n.must[len(n.must)-1:]
		if !n.m.WaitFor(wait, "received", int64(n.next)-int64(n.lost())) {
			return hz.Softf("the received metric of a %s doesn't increase", n.mode)
		}
	}
	return nil
}

// lost counts what was sent while the component wasn't connected.
func (n *node) lost() int {
	lost := 0
	for _, arrived := range n.may {
		if !arrived {
			lost++
		}
	}
	return lost
}

// during is the time of an outage.
func (n *node) during(lines, flood int, rest time.Duration, wait time.Duration) error {
	start := time.Now()
	if strings.HasPrefix(n.mode, "listener") {
		if err := n.sendMust(lines, 0); err != nil {
			return err
		}
		if n.mode == "listener_http" && flood > 0 {
			if err := n.sendMust(flood, 100000); err != nil {
				return err
			}
			n.flooded = flood
		}
	}
	if err := n.probe("healthz"); err != nil {
		return err
	}
	time.Sleep(rest - time.Since(start))
	if n.mode == "writer" && rest >= 2500*time.Millisecond {
		if err := n.check(wait/4, n.early); err != nil {
			return fmt.Errorf("during the outage: %w", err)
		}
	}
	if n.mode == "monitor" {
		if err := n.check(wait/4, n.must); err != nil {
			return fmt.Errorf("during the outage: %w", err)
		}
	}
	return n.probe("healthz")
}

// after is the time after an outage.
func (n *node) after(wait time.Duration) error {
	if !strings.HasPrefix(n.mode, "listener") {
		// Find out when it is connected again.
		probes := []int{}
		var err error
		ok := sut.Until(wait, func() bool {
			var id int
			id, err = n.send(0)
			if err != nil {
				return false
			}
			probes = append(probes, id)
			time.Sleep(20 * time.Millisecond)
			var ids []int
			ids, err = n.got()
			if err != nil {
				return false
			}
			for _, id := range ids {
				if id >= probes[0] {
					return true
				}
			}
			return false
		})
		if err != nil {
			return err
		}
		if !ok {
			return hz.Softf("a %s does not work again after the outage", n.mode)
		}
		for _, id := range probes {
			n.may[id] = false
		}
	}
	flooded := n.flooded
	if err := n.check(wait, n.must); err != nil {
		return err
	}
	if flooded > 0 {
		// Those which are missing have been counted.
		ids, err := n.got()
		if err != nil {
			return err
		}
		if delivered := len(ids) - (len(n.must) - flooded); delivered*100000 < 6<<20 {
			return fmt.Errorf("only %d of %d messages came out, although the buffer is larger", delivered, flooded)
		}
		n.failed += len(n.must) - len(ids)
		n.must = append(n.must[:0:0], ids...)
		n.flooded = 0
	}
	if err := n.sendMust(3, 0); err != nil {
		return err
	}
	if err := n.check(wait, n.must); err != nil {
		return err
	}
	ids, err := n.got()
	if err != nil {
		return err
	}
	for _, id := range ids {
		if _, ok := n.may[id]; ok {
			n.may[id] = true
		}
	}
	if n.mode != "monitor" {
		key := "received"
		if n.mode == "filter" {
			key = "processed"
		}
		if !n.m.Fresh(wait, key) {
			return hz.Softf("no metrics of a %s after the outage", n.mode)
		}
	}
	if err := n.probe("healthz"); err != nil {
		return err
	}
	return n.probe("readyz")
}

type outage struct {
	kind  string
	d     time.Duration
	lines int
	flood int
}

type outages struct {
	modes   []string
	workers int
	list    []outage
	stats   time.Duration // interval of metrics
	stop    string        // kind of the outage in which components are stopped, or none
}

func (o *outages) String() string { return fmt.Sprintf("%+v", *o) }

func TestC37_Outage(t *testing.T) {
	startLong()
	hz.Check(t, hz.Opts{Quick: 9, Thorough: 150, Budget: time.Duration(hz.Pick(100, 1200)) * time.Second, Limit: 400 * time.Second,
		Rule: "all components, each with its own data, during generated outages of their connections to NATS (connections refused, closed, or hanging; up to several times); meanwhile listeners get data, and what others received before becomes due; afterwards everything accepted must have come out, once (listeners: in order; messages beyond the client's buffer are counted as failed_nats_publish), and new data is processed once again; non-trivial: all of these"},
		func(c *hz.C) {
			o := &outages{modes: allModes, stats: 50 * time.Millisecond, workers: hz.One(c.T, "workers", 1, 2, 4)}
			for k := hz.One(c.T, "outages", 1, 1, 2); k > 0; k-- {
				o.list = append(o.list, outage{
					kind:  hz.One(c.T, "kind", sut.LinkKinds...),
					d:     time.Duration(hz.One(c.T, "ms", 400, 600, 1500, 3000)) * time.Millisecond,
					lines: hz.One(c.T, "lines", 1, 5, 40),
					flood: hz.One(c.T, "flood", 0, 0, 110),
				})
			}
			o.stop = hz.One(c.T, "stop", append([]string{"", "", "", "", "", ""}, sut.LinkKinds...)...)
			hz.Attempts(c, 6*time.Second, o.run)
			for _, a := range o.list {
				c.Label(a.kind)
				c.LabelIf(a.flood > 0, "buffer exceeded")
			}
			c.LabelIf(o.stop != "", "stopped during an outage")
			c.NonTrivial(o.String())
			c.Sample(o.String)
		})
}

// each calls f for all nodes at once.
func each(ns []*node, f func(*node) error) error {
	errs := make([]error, len(ns))
	var wg sync.WaitGroup
	for i, n := range ns {
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = f(n)
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	return nil
}

func (o *outages) run(wait time.Duration) error {
	link := sut.NewLink(sut.NATS())
	var ns []*node
	for _, mode := range o.modes {
		ns = append(ns, startNode(link, mode, o.workers, o.stats))
	}
	defer func() {
		for _, n := range ns {
			n.close()
		}
	}()
	stop := make(chan struct{})
	stopAll := func() {
		each(ns, func(n *node) error { sut.StopNow(n.comp, n.conf); return nil })
		close(stop)
		link.Close()
	}
	stopping := false
	defer func() {
		if !stopping {
			link.Up()
			go stopAll()
		}
	}()
	for _, a := range o.list {
		if err := each(ns, func(n *node) error { return n.before(wait) }); err != nil {
			return err
		}
		link.Down(a.kind)
		time.Sleep(300 * time.Millisecond)
		if err := each(ns, func(n *node) error { return n.during(a.lines, a.flood, a.d-300*time.Millisecond, wait) }); err != nil {
			return err
		}
		link.Up()
		if err := each(ns, func(n *node) error { return n.after(wait) }); err != nil {
			return err
		}
	}
	if o.stop != "" {
		link.Down(o.stop)
		time.Sleep(100 * time.Millisecond)
	}
	stopping = true
	go stopAll()
	limit := 15*time.Second + wait/2
	select {
	case <-stop:
		return nil
	case <-time.After(limit):
		return hz.Softf("components can't be stopped during an outage")
	}
}

// long is an outage of more than two minutes, which is when NATS clients
// give up unless told otherwise. It goes on while other cases run.
var long struct {
	sync.Mutex
	result chan error
	known  bool
	err    error
}

func longOutage() *outages {
	return &outages{modes: allModes, workers: 1, stats: time.Second,
		list: []outage{{kind: "refuse", d: 140 * time.Second, lines: 5}}}
}

func startLong() {
	long.Lock()
	defer long.Unlock()
	if long.result == nil {
		ch := make(chan error, 1)
		long.result = ch
		go func() { ch <- longOutage().run(30 * time.Second) }()
	}
}

// awaitLong returns the result, which it also keeps since it takes so
// long.
func awaitLong() error {
	for i := 0; i < 2 && !long.known; i++ {
		startLong()
		long.err = <-long.result
		long.result = nil
		if s := (*hz.Soft)(nil); !errors.As(long.err, &s) {
			break
		}
	}
	long.known = true
	return long.err
}

func TestC37_Long(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 1, Thorough: 1, Limit: 700 * time.Second,
		Rule: "all components during an outage of 140 seconds, checked in the same way; non-trivial: always"},
		func(c *hz.C) {
			if err := awaitLong(); err != nil {
				c.Fatalf("%v", err)
			}
			c.NonTrivial("long")
			c.Sample(longOutage().String)
		})
}
