package system

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/sut"
)

// program is influx-spout as it is run, with a configuration file.
type program struct {
	mode     string
	file     string // base name
	option   string // name option
	debug    bool
	interval time.Duration // of statistics
	hasPprof bool
	hasProbe bool
	workers  int    // -1 if not in the file
	extra    string // further lines of the file

	install string // prefix of all subjects of the installation
	prefix  string // and of its own ones
	path    string
	port    int
	probe   int
	pprof   int
	occupy  bool // the pprof port
	blocker net.Listener
	started time.Time
	proc    *sut.Proc
	first   string // a metric it reports
	influx  int    // port of a writer's InfluxDB
}

func (p *program) String() string {
	return fmt.Sprintf("%s (file %q, name %q, debug %v, stats_interval %s, pprof %v, probe %v, workers %d)", p.mode, p.file, p.option, p.debug, p.interval, p.hasPprof, p.hasProbe, p.workers)
}

// name is what the component is to be called.
func (p *program) name() string {
	if p.option != "" {
		return p.option
	}
	return strings.TrimSuffix(p.file, filepath.Ext(p.file))
}

func genProgram(t *rapid.T, mode string) *program {
	p := &program{
		mode:     mode,
		file:     hz.One(t, "file", mode+".toml", "x.conf", "my.files.toml", "noext", "two words.toml", "größe.toml"),
		debug:    hz.Chance(t, 40, "debug"),
		interval: time.Duration(hz.One(t, "interval", 20, 20, 50, 100, 200, 500)) * time.Millisecond,
		hasPprof: hz.Chance(t, 30, "pprof"),
		hasProbe: hz.Chance(t, 40, "probe"),
		workers:  hz.One(t, "workers", -1, 1, 2, 5),
	}
	if mode == "writer" && hz.Chance(t, 20, "no workers") {
		p.workers = 0 // the program chooses
	}
	if hz.Chance(t, 60, "named") {
		p.option = hz.One(t, "name", "foo", "foo bar", "a,b", "{}", "}", "x=y", "a.b.c", "größe", `back\slash`, "foo-1", strings.Repeat("long", 60))
	}
	return p
}

func (p *program) subject() string { return p.prefix + ".in" }
func (p *program) monitor() string { return p.install + ".monitor" }

// label is the value of the component label.
func (p *program) label() string {
	if p.mode == "listener_http" {
		return "listener"
	}
	return p.mode
}

// key is a metric with its labels. extra is one more label.
func (p *program) key(metric string, extra ...string) string {
	s := fmt.Sprintf("%s{component=%s,host=%s", metric, quoted(p.label()), quoted(hostname))
	if p.mode == "writer" {
		s += fmt.Sprintf(`,influxdb_address="127.0.0.1",influxdb_dbname="db",influxdb_port="%d"`, p.influx)
	}
	s += ",name=" + quoted(p.name())
	if len(extra) > 0 {
		s += "," + extra[0] + "=" + quoted(extra[1])
	}
	return s + "}"
}

func quoted(s string) string { return `"` + s + `"` }

// start runs the program and waits until it works.
func (p *program) start(dir string, r *reports, wait time.Duration) error {
	p.path = filepath.Join(dir, p.prefix, p.file)
	os.MkdirAll(filepath.Dir(p.path), 0755)
	p.port, p.probe, p.pprof = sut.FreePort(), 0, 0
	text := fmt.Sprintf("mode = %q\nnats_address = %q\nnats_subject_monitor = %q\nnats_subject = [%q]\nstats_interval = %q\n",
		p.mode, sut.URL(sut.NATS()), p.monitor(), p.subject(), p.interval.String())
	if p.option != "" {
		text += "name = '" + p.option + "'\n"
	}
	if p.debug {
		text += "debug = true\n"
	}
	if p.hasPprof {
		p.pprof = sut.FreePort()
		text += fmt.Sprintf("pprof_port = %d\n", p.pprof)
		if p.occupy {
			p.blocker, _ = net.Listen("tcp", fmt.Sprintf(":%d", p.pprof))
		}
	}
	if p.hasProbe {
		p.probe = sut.FreePort()
		text += fmt.Sprintf("probe_port = %d\n", p.probe)
	}
	switch p.mode {
	case "listener", "listener_http", "monitor":
		text += fmt.Sprintf("port = %d\n", p.port)
	case "filter", "writer":
		if p.workers >= 0 {
			text += fmt.Sprintf("workers = %d\n", p.workers)
		}
	}
	if err := os.WriteFile(p.path, []byte(text+p.extra), 0644); err != nil {
		hz.Infra("%v", err)
	}
	p.started = time.Now()
	p.first = map[string]string{"listener": "received", "filter": "processed", "writer": "received", "downsampler": "received"}[p.label()]
	n := r.count(p)
	p.proc = sut.Run("influx-spout", p.path)
	up := func() bool {
		if p.mode == "monitor" {
			status, _, err := httpGet(fmt.Sprintf("http://127.0.0.1:%d/metrics", p.port))
			return err == nil && status == 200
		}
		return r.count(p) > n
	}
	if !sut.Until(wait, func() bool { return up() || p.proc.Exited(0) }) {
		return hz.Softf("a %s does not start", p.mode)
	}
	if p.proc.Exited(0) {
		if strings.Contains(p.proc.Stderr(), "in use") {
			return hz.Softf("a port is in use")
		}
		return fmt.Errorf("the %s exits: %.1000s", p.mode, crash(p.proc.Stderr()))
	}
	return nil
}

// reports records what components report on the monitor subject.
type reports struct {
	sub *nats.Subscription
	mu  sync.Mutex
	all map[string][]report // by metric and labels
}

type report struct {
	value int64
	ms    int64
}

var reportRx = regexp.MustCompile(`^([^ {]+\{.*\}) (-?[0-9]+) ([0-9]+)$`)

func watchReports(subject string) *reports {
	r := &reports{all: map[string][]report{}}
	var err error
	r.sub, err = sut.Conn().Subscribe(subject, func(msg *nats.Msg) {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, line := range strings.Split(strings.TrimSuffix(string(msg.Data), "\n"), "\n") {
			var v report
			key := line
			if g := reportRx.FindStringSubmatch(line); g != nil {
				key = g[1]
				v.value, _ = strconv.ParseInt(g[2], 10, 64)
				v.ms, _ = strconv.ParseInt(g[3], 10, 64)
			}
			r.all[key] = append(r.all[key], v)
		}
	})
	if err != nil {
		hz.Infra("%v", err)
	}
	sut.Flush(sut.Conn())
	return r
}

func (r *reports) close() { r.sub.Unsubscribe() }

// count returns how often a program has reported.
func (r *reports) count(p *program) int {
	return len(r.get(p.key(p.first)))
}

func (r *reports) get(key string) []report {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]report(nil), r.all[key]...)
}

var hostname, _ = os.Hostname()
