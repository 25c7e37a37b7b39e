package system

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/sut"
)

// reporter is a program together with the traffic it gets.
type reporter struct {
	*program
	runs []traffic // after each start
}

// traffic is what one run of a program gets to do. The meaning depends
// on the mode.
type traffic struct {
	msgs int   // datagrams, requests, or messages
	bad  int   // aborted requests, refused writes
	each []int // lines of each kind
}

func (r *reporter) String() string { return fmt.Sprintf("%s with %v", r.program, r.runs) }

var lineKinds = map[string][]string{
	// The first three are selected by one rule each.
	"filter":      {"r0,host=a v=1", "r1,b=2,a=1 v=2i", "x,dc=fra v=3", "other,host=a v=4", "other v=4 1000000000", "r0,host= v=5", "r1,b v=6"},
	"downsampler": {"a,host=x v=1", "b v=2i,w=t", "c v=3 1000000000", "d v=4 4000000000000000000", "e v=", "f v"},
}

func genReporter(t *rapid.T, mode string) *reporter {
	r := &reporter{program: genProgram(t, mode)}
	for n := hz.One(t, "runs", 1, 1, 1, 2, 3); n > 0; n-- {
		tr := traffic{msgs: hz.Int(t, 0, 25, "messages")}
		switch mode {
		case "listener_http":
			tr.bad = hz.One(t, "aborted", 0, 0, 1, 3)
		case "writer":
			tr.bad = hz.Int(t, 0, tr.msgs, "refused")
		}
		for range lineKinds[mode] {
			tr.each = append(tr.each, hz.One(t, "lines", 0, 1, 2, rapid.IntRange(0, 30).Draw(t, "any")))
		}
		r.runs = append(r.runs, tr)
	}
	return r
}

func (r *reporter) configure(influx *sut.Influx) {
	r.extra = ""
	switch r.mode {
	case "listener", "listener_http":
		r.extra = "batch_max_count = 1\n"
	case "filter":
		r.extra = fmt.Sprintf("nats_subject_junkyard = %q\n", r.prefix+".junk")
		for i, rule := range []string{`type = "basic"` + "\nmatch = \"r0\"", `type = "regex"` + "\nmatch = \"^r1\"", `type = "tags"` + "\ntags = [[\"dc\", \"fra\"]]"} {
			r.extra += fmt.Sprintf("[[rule]]\n%s\nsubject = %q\n", rule, fmt.Sprintf("%s.out%d", r.prefix, i))
		}
	case "writer":
		r.influx = influx.Port
		r.extra = fmt.Sprintf("influxdb_address = \"127.0.0.1\"\ninfluxdb_port = %d\ninfluxdb_dbname = \"db\"\nbatch_max_count = 1\nwriter_retry_batches = 0\n", influx.Port)
	case "downsampler":
		r.extra = "downsample_period = \"1000h\"\n"
	}
}

// want is what the program has to report in the end.
func (r *reporter) want(tr traffic) map[string]int64 {
	out := map[string]int64{}
	set := func(v int, metric string, extra ...string) { out[r.key(metric, extra...)] = int64(v) }
	switch r.mode {
	case "listener", "listener_http":
		set(tr.msgs, "received")
		set(tr.msgs, "sent")
		set(tr.bad, "read_errors")
		set(0, "failed_nats_publish")
	case "filter":
		processed := 0
		for _, n := range tr.each {
			processed += n
		}
		set(processed, "processed")
		set(tr.each[0]+tr.each[1]+tr.each[2], "passed")
		set(tr.each[3], "rejected")
		set(tr.each[4], "invalid_time")
		set(0, "failed_nats_publish")
		set(0, "nats_dropped")
		for i := 0; i < 3; i++ {
			set(tr.each[i], "triggered", "rule", fmt.Sprintf("%s.out%d", r.prefix, i))
		}
	case "writer":
		set(tr.msgs, "received")
		set(tr.msgs, "write_requests")
		set(tr.bad, "failed_writes")
		set(0, "nats_dropped", "subject", r.subject())
	case "downsampler":
		set(0, "sent")
		set(r.messages(tr), "received")
		set(tr.each[4]+tr.each[5], "invalid_lines")
		set(tr.each[2]+tr.each[3], "invalid_timestamps")
		set(0, "failed_nats_publish")
		set(0, "nats_dropped", "subject", r.subject())
	}
	return out
}

func (r *reporter) lines(tr traffic) []string {
	var out []string
	for i, n := range tr.each {
		for ; n > 0; n-- {
			out = append(out, lineKinds[r.mode][i]+"\n")
		}
	}
	return out
}

// messages is the number of messages the lines are sent in.
func (r *reporter) messages(tr traffic) int {
	n := len(r.lines(tr))
	return (n + 3) / 4
}

func (r *reporter) send(tr traffic) error {
	switch r.mode {
	case "listener":
		conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", r.port))
		if err != nil {
			hz.Infra("%v", err)
		}
		defer conn.Close()
		for i := 0; i < tr.msgs; i++ {
			fmt.Fprintf(conn, "m v=%d\n", i)
		}
	case "listener_http":
		for i := 0; i < tr.msgs; i++ {
			resp, err := httpClient.Post(fmt.Sprintf("http://127.0.0.1:%d/write", r.port), "", strings.NewReader(fmt.Sprintf("m v=%d\n", i)))
			if err != nil {
				return hz.Softf("a request fails")
			}
			resp.Body.Close()
		}
		for i := 0; i < tr.bad; i++ {
			conn, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", r.port))
			if err != nil {
				return hz.Softf("can't connect")
			}
			fmt.Fprintf(conn, "POST /write HTTP/1.1\r\nHost: x\r\nContent-Length: 100\r\n\r\nm v=1\n")
			conn.Close()
		}
	case "writer":
		for i := 0; i < tr.msgs; i++ {
			line := "good v=1\n"
			if i < tr.bad {
				line = "bad v=1\n"
			}
			sut.Publish(sut.Conn(), r.subject(), []byte(line))
		}
	default:
		lines := r.lines(tr)
		for len(lines) > 0 {
			n := min(4, len(lines))
			sut.Publish(sut.Conn(), r.subject(), []byte(strings.Join(lines[:n], "")))
			lines = lines[n:]
		}
	}
	sut.Flush(sut.Conn())
	return nil
}

func TestC41_Page(t *testing.T) {
	dir, err := os.MkdirTemp("", "verif-c41-")
	if err != nil {
		hz.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	if hostname == "" {
		hz.Infra("no host name")
	}
	influx := sut.NewInflux(func(_ int, r *sut.Request) sut.Outcome {
		if bytes.HasPrefix(r.Body, []byte("bad")) {
			return sut.Outcome{Status: 500}
		}
		return sut.Outcome{}
	})
	defer influx.Close()
	hz.Check(t, hz.Opts{Quick: 120, Thorough: 3000, Budget: time.Duration(hz.Pick(100, 800)) * time.Second,
		Rule: "an installation of real programs (up to six, with generated names and files, some restarted) gets counted traffic; the monitor's page must have exactly the documented metrics of each with the true values; reports must be as frequent as configured and never decrease; non-trivial: two programs or more"},
		func(c *hz.C) {
			var rs []*reporter
			names := map[string]bool{}
			for n := hz.One(c.T, "programs", 1, 2, 3, 4, 6); n > 0; n-- {
				r := genReporter(c.T, hz.One(c.T, "mode", "listener", "listener_http", "filter", "writer", "downsampler"))
				for names[r.label()+" "+r.name()] {
					r.option = r.name() + "+"
				}
				names[r.label()+" "+r.name()] = true
				rs = append(rs, r)
				c.Label(r.mode)
				c.LabelIf(len(r.runs) > 1, "restarted")
			}
			mon := genProgram(c.T, "monitor")
			first := rapid.Bool().Draw(c.T, "monitor first")
			var desc []string
			for _, r := range rs {
				desc = append(desc, r.String())
			}
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				err := page(dir, rs, mon, first, influx, wait)
				if err != nil {
					return fmt.Errorf("%w\nprograms: %s", err, strings.Join(desc, "; "))
				}
				return nil
			})
			if len(rs) > 1 {
				c.NonTrivial(strings.Join(desc, ";"))
			}
			c.Sample(func() string { return strings.Join(desc, "; ") })
		})
}

func page(dir string, rs []*reporter, mon *program, first bool, influx *sut.Influx, wait time.Duration) error {
	install := sut.Unique()
	rep := watchReports(install + ".monitor")
	defer rep.close()
	mon.install, mon.prefix = install, install+".m"
	startMonitor := func() error { return mon.start(dir, rep, wait) }
	defer func() {
		if mon.proc != nil {
			mon.proc.Kill()
		}
	}()
	if first {
		if err := startMonitor(); err != nil {
			return err
		}
	}
	begin := time.Now().UnixMilli()
	want := map[string]int64{}
	errs := make(chan error, len(rs))
	for i, r := range rs {
		r.install, r.prefix = install, fmt.Sprintf("%s.%d", install, i)
		r.configure(influx)
		for k, v := range r.want(r.runs[len(r.runs)-1]) {
			want[k] = v
		}
		go func() { errs <- r.live(dir, rep, wait) }()
	}
	defer func() {
		for _, r := range rs {
			if r.proc != nil {
				r.proc.Kill()
			}
		}
	}()
	var err error
	for range rs {
		if e := <-errs; e != nil {
			err = e
		}
	}
	if err != nil {
		return err
	}
	if !first {
		if err := startMonitor(); err != nil {
			return err
		}
	}
	slowest := time.Duration(0)
	for _, r := range rs {
		slowest = max(slowest, r.interval)
	}
	// Values which lag behind are given time, all else is wrong at once.
	url := fmt.Sprintf("http://127.0.0.1:%d/metrics", mon.port)
	stamps := map[string]int64{}
	read := func() error {
		status, body, err := httpGet(url)
		if err != nil || status != 200 {
			return hz.Softf("can't get the page")
		}
		missing := map[string]bool{}
		for k := range want {
			missing[k] = true
		}
		last := ""
		var soft error
		for _, line := range strings.SplitAfter(body, "\n") {
			if line == "" {
				continue
			}
			g := reportRx.FindStringSubmatch(strings.TrimSuffix(line, "\n"))
			if g == nil || !strings.HasSuffix(line, "\n") {
				return fmt.Errorf("the page has a line %q", line)
			}
			v, known := want[g[1]]
			if !known {
				return fmt.Errorf("the page has an unexpected metric %q", line)
			}
			if !missing[g[1]] || g[1] <= last {
				return fmt.Errorf("the page has %q after %q", g[1], last)
			}
			last = g[1]
			delete(missing, g[1])
			if got, _ := strconv.ParseInt(g[2], 10, 64); got != v {
				soft = hz.Softf("the page has %s %d instead of %d", generic(g[1], install), got, v)
			}
			ms, _ := strconv.ParseInt(g[3], 10, 64)
			if ms < begin || ms > time.Now().UnixMilli() {
				return fmt.Errorf("the page has a time %d in %q, which is not the present", ms, line)
			}
			stamps[g[1]] = ms
		}
		for _, k := range sortedKeys(missing) {
			return hz.Softf("the page lacks %s", generic(k, install))
		}
		return soft
	}
	settle := func() error {
		var err error
		sut.Until(wait+2*slowest, func() bool {
			err = read()
			_, soft := err.(*hz.Soft)
			return err == nil || !soft
		})
		return err
	}
	if err := settle(); err != nil {
		return err
	}
	// It must stay that way, and the times must go on.
	before := stamps
	stamps = map[string]int64{}
	var stale string
	sut.Until(wait+2*slowest, func() bool {
		if err = read(); err != nil {
			return true
		}
		stale = ""
		for k, ms := range stamps {
			if ms <= before[k] {
				stale = k
			}
		}
		return stale == ""
	})
	if err != nil {
		return fmt.Errorf("later, %w", err)
	}
	if stale != "" {
		return hz.Softf("the page's %s is not updated", generic(stale, install))
	}
	// Reports come as often as configured.
	for _, r := range rs {
		all := rep.get(r.key(r.first))
		since := r.started.UnixMilli()
		nth := 0
		for i := range all {
			if all[i].ms <= since {
				continue // of an earlier run
			}
			if nth > 0 && all[i].value < all[i-1].value {
				return fmt.Errorf("%s goes from %d to %d", generic(r.key(r.first), install), all[i-1].value, all[i].value)
			}
			// One may be late and the next one not, so only their number counts.
			if d := all[i].ms - since; d < int64(nth)*r.interval.Milliseconds()-2 {
				return fmt.Errorf("%s is reported more often than its stats_interval of %s allows (%d reports in %d ms)", generic(r.key(r.first), install), r.interval, nth+1, d)
			}
			nth++
		}
		if last := all[len(all)-1].ms; time.Now().UnixMilli()-last > (r.interval + wait).Milliseconds() {
			return hz.Softf("%s was last reported %d ms ago, although stats_interval is %s", generic(r.key(r.first), install), time.Now().UnixMilli()-last, r.interval)
		}
	}
	return nil
}

// live runs a program again and again.
func (r *reporter) live(dir string, rep *reports, wait time.Duration) error {
	for i, tr := range r.runs {
		if i > 0 && !r.proc.Terminate(wait) {
			return hz.Softf("a %s does not end when it is told to", r.mode)
		}
		if err := r.start(dir, rep, wait); err != nil {
			return err
		}
		if err := r.send(tr); err != nil {
			return err
		}
	}
	return nil
}

// generic makes the message the same in every run.
func generic(key, install string) string { return strings.ReplaceAll(key, install, "*") }

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
