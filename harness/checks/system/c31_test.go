package system

import (
	"fmt"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/BurntSushi/toml"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/nats-io/nats-server/v2/server"
	"github.com/spf13/afero"
	"pgregory.net/rapid"

	"verif/harness/ffs"
	"verif/harness/hz"
	"verif/harness/sut"
)

var modes = []string{"listener", "listener_http", "filter", "writer", "downsampler", "monitor"}

// setup is a generated configuration. Placeholders for addresses and
// ports are replaced when it is used.
type setup struct {
	mode  string
	opts  map[string]string // as in the file
	rules []string
	extra string // more text
	flaw  string // why starting must fail
	odd   bool   // starting may fail
	file  string // what to do with the file
	taken bool   // the port is in use
}

func (s *setup) text() string {
	var keys []string
	for k := range s.opts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b strings.Builder
	for _, k := range keys {
		fmt.Fprintf(&b, "%s = %s\n", k, s.opts[k])
	}
	for _, r := range s.rules {
		b.WriteString("\n[[rule]]\n" + r)
	}
	b.WriteString(s.extra)
	return b.String()
}

func (s *setup) String() string {
	return fmt.Sprintf("%q (flaw: %s, odd: %v)", s.text(), s.flaw, s.odd)
}

var badRegexps = []string{"(", ")", "[", "a**", "*", "+", "a{1001}", `\\p{Foo}`, "(?P<n", `\\`, "[z-a]", "(?i", `\\8`, "x{2,1}", `\\C+(`}
var goodRegexps = []string{"cpu", "host=web.+,", "^a|b$", `\\d+`, "(?i)x", "[^,]*", ".", "^$"}

func ruleText(t *rapid.T, mode, kind string) string {
	s := fmt.Sprintf("type = %q\n", kind)
	switch kind {
	case "basic":
		s += fmt.Sprintf("match = %q\n", hz.One(t, "match", "cpu", "a b", "ü"))
	case "tags":
		s += hz.One(t, "tags", `tags = [["a", "b"]]`, `tags = [["a", "b"], ["c", "d e"]]`, `tags = [["", ""]]`) + "\n"
	default:
		s += fmt.Sprintf("match = \"%s\"\n", hz.One(t, "match", goodRegexps...))
	}
	if mode == "filter" {
		s += fmt.Sprintf("subject = \"%s\"\n", hz.One(t, "subject", "{SUBJ}.a", "{SUBJ}.b"))
	}
	return s
}

var ruleKinds = []string{"basic", "regex", "negregex", "tags"}

func genSetup(t *rapid.T) *setup {
	s := &setup{mode: hz.One(t, "mode", modes...), opts: map[string]string{}}
	s.opts["mode"] = fmt.Sprintf("%q", s.mode)
	s.opts["nats_address"] = `"{NATS}"`
	s.opts["nats_subject"] = `["{SUBJ}.in"]`
	s.opts["nats_subject_monitor"] = `"{SUBJ}.mon"`
	s.opts["probe_port"] = "{PROBE}"
	s.opts["workers"] = "2"
	switch s.mode {
	case "listener", "listener_http", "monitor":
		s.opts["port"] = "{PORT}"
	case "writer":
		s.opts["influxdb_port"] = "{DEAD}"
	}
	if s.mode == "filter" || s.mode == "writer" {
		for n := hz.One(t, "rules", 0, 1, 1, 3); n > 0; n-- {
			s.rules = append(s.rules, ruleText(t, s.mode, hz.One(t, "kind", ruleKinds...)))
		}
	}

	switch what := hz.Int(t, 0, 9, "what"); {
	case what == 0: // valid
	case what < 6:
		s.addFlaw(t)
	default:
		s.odd = true
		for n := hz.One(t, "odd options", 1, 2, 4, 8); n > 0; n-- {
			s.addOdd(t)
		}
	}
	return s
}

func (s *setup) addRule(t *rapid.T, rule string) {
	if s.mode == "filter" {
		rule += "subject = \"{SUBJ}.c\"\n"
	}
	at := hz.Int(t, 0, len(s.rules), "at")
	s.rules = append(s.rules[:at:at], append([]string{rule}, s.rules[at:]...)...)
}

// addFlaw adds something which must make the start fail.
func (s *setup) addFlaw(t *rapid.T) {
	withRules := s.mode == "filter" || s.mode == "writer"
	withPort := s.mode == "listener" || s.mode == "listener_http"
	for {
		s.flaw = hz.One(t, "flaw", "syntax", "syntax", "type", "type", "mode", "mode", "regexp", "regexp", "regexp", "rule", "rule", "rule",
			"port", "probe", "subjects", "workers", "protocol", "period", "nats", "nats", "nats", "taken", "taken", "file", "bytes", "size", "duration")
		switch s.flaw {
		case "syntax":
			s.extra = "\n" + hz.One(t, "syntax", "=", "x", "x =", "x = ", "[", "]", "[[rule]", "[rule", "x = \"", "x = 'a", "x = [1", "x = {", "x = 1 2", "\x00", "x = \"\\q\"", "x = tru", "[[]]", "[a]\n[a]", "x=1\nx=2", "\"", "x = 1e", "x = 0x", "x = 2017-99-99", "x = \"\"\"", "= 1", "x.y = 1\nx = 2\nx.z") + "\n"
		case "type":
			k := hz.One(t, "option", "nats_address", "batch_max_count", "batch_max_size", "batch_max_age", "nats_subject", "workers", "debug", "stats_interval", "rule", "write_timeout", "read_buffer_size", "influxdb_port")
			s.opts[k] = hz.One(t, "value", map[string][]string{
				"nats_address": {"1", "[]", "true", "{}"}, "batch_max_count": {`"1"`, "1.5", "99999999999999999999", "[1]", "true"},
				"batch_max_size": {`"10 XB"`, `"-1"`, `"1.5MB"`, "1.5", `"99999999999999999999999"`}, "batch_max_age": {`"5"`, `"x"`, `""`, `"1d"`, "5", "true"},
				"nats_subject": {`"foo"`, "1", "[1]", `[["a"]]`, "{}"}, "workers": {`"8"`, "8.5", "[8]"}, "debug": {`"true"`, "1"},
				"stats_interval": {`"3"`, `"3 s"`, "3"}, "rule": {"1", `"x"`, "[1]", "true"}, "write_timeout": {`"--1s"`, "[]", "1"},
				"read_buffer_size": {`"MB"`, "[]", `"1TBB"`}, "influxdb_port": {`"80"`, "80.5", "99999999999999999999"},
			}[k]...)
			if k == "rule" {
				s.rules = nil
			}
		case "mode":
			s.opts["mode"] = hz.One(t, "mode", `"nope"`, `""`, `"Listener"`, `"filter "`, `"listener\u0000"`, `"writerx"`, "1", `["filter"]`)
		case "regexp":
			if !withRules {
				continue
			}
			s.addRule(t, fmt.Sprintf("type = %q\nmatch = \"%s\"\n", hz.One(t, "kind", "regex", "negregex"), hz.One(t, "regexp", badRegexps...)))
		case "rule":
			if !withRules {
				continue
			}
			s.addRule(t, hz.One(t, "rule", "type = \"nope\"\nmatch = \"x\"\n", "type = \"Basic\"\nmatch = \"x\"\n", "match = \"x\"\n", "type = \"basic\"\n", "type = \"regex\"\n", "type = \"regex\"\nmatch = \"\"\n",
				"type = \"tags\"\n", "type = \"tags\"\ntags = []\n", "type = \"tags\"\ntags = [[]]\n", "type = \"tags\"\ntags = [[\"a\"]]\n", "type = \"tags\"\ntags = [[\"a\", \"b\", \"c\"]]\n", "type = \"tags\"\ntags = [[\"a\", \"b\"], [\"c\"]]\n",
				"type = \"tags\"\nmatch = \"x\"\n", "type = \"tags\"\ntags = \"x\"\n", "type = \"tags\"\ntags = [\"a\", \"b\"]\n", "type = \"tags\"\ntags = [[1, 2]]\n", "type = 1\n", "type = \"regex\"\nmatch = 1\n"))
		case "port":
			switch {
			case withPort:
				s.opts["port"] = hz.One(t, "port", "-1", "65536", "70000", "9223372036854775807", "-9223372036854775808")
			case s.mode == "writer":
				s.opts["influxdb_port"] = hz.One(t, "port", "-1", "0", "65536", "70000", "9223372036854775807")
			case s.mode == "monitor":
				s.opts["port"] = hz.One(t, "port", "-1", "65536", "70000", "9223372036854775807")
			default:
				continue
			}
		case "probe":
			s.opts[hz.One(t, "which", "probe_port", "pprof_port")] = hz.One(t, "port", "-1", "65536", "9223372036854775807", "-9223372036854775808")
		case "subjects":
			switch {
			case withPort || s.mode == "filter":
				s.opts["nats_subject"] = hz.One(t, "subjects", "[]", `["{SUBJ}.a", "{SUBJ}.b"]`)
			case s.mode == "writer":
				s.opts["nats_subject"] = "[]"
			default:
				continue
			}
		case "workers":
			if s.mode == "filter" {
				s.opts["workers"] = hz.One(t, "workers", "0", "-1", "-9223372036854775808")
			} else if s.mode == "writer" {
				s.opts["workers"] = hz.One(t, "workers", "-1", "-8", "-9223372036854775808")
			} else {
				continue
			}
		case "protocol":
			if s.mode != "writer" {
				continue
			}
			s.opts["influxdb_protocol"] = hz.One(t, "protocol", `"ftp"`, `""`, `"HTTP"`, `"http "`, `"unix"`)
		case "period":
			if s.mode == "downsampler" {
				s.opts["downsample_period"] = hz.One(t, "period", `"-1s"`, `"-1ns"`, `"-2562047h"`, `"1"`, `"99999999999h"`)
			} else {
				s.opts["downsample_period"] = hz.One(t, "period", `"1s"`, `"-1s"`, `"1ns"`)
			}
		case "nats":
			s.opts["nats_address"] = hz.One(t, "address", `"nats://127.0.0.1:{DEAD}"`, `"nats://127.0.0.1:{DEAD}"`, `"nats://127.0.0.1:{SILENT}"`, `"nats://127.0.0.1:{CLOSING}"`, `"nats://127.0.0.1:{GARBAGE}"`, `"nats://127.0.0.1:99999"`, `"nats://127.0.0.1:x"`, `"nats://[::1"`, `"nats://%zz"`, `"http://127.0.0.1:{DEAD}"`, `"127.0.0.1:{DEAD}"`, `"nats://a:b@127.0.0.1:{DEAD}"`, `"nats://127.0.0.1:{DEAD},nats://127.0.0.1:{CLOSING}"`, `","`, `"nats://127.0.0.1:-1"`)
		case "taken":
			if !withPort && s.mode != "monitor" {
				continue
			}
			s.taken = true
		case "file":
			s.file = hz.One(t, "file", "missing", "directory")
		case "bytes":
			s.extra = "\n" + hz.One(t, "bytes", "\xff\xfe", "\x80\x81\x82", "x = \"a\x00\"", "\xef\xbb")
		case "size":
			if !withPort {
				continue
			}
			s.opts["batch_max_size"] = hz.One(t, "size", `"1025KB"`, `"2MB"`, `"1GB"`, `"16383PB"`, `"1048577"`)
		case "duration":
			s.opts[hz.One(t, "which", "max_time_delta", "writer_retry_interval", "writer_retry_timeout", "batch_max_age")] = hz.One(t, "duration", `"99999999999h"`, `"1e5s"`, `"1y"`, `"9223372036854775808ns"`, "true", `"∞"`)
		}
		return
	}
}

// addOdd sets an option to an unusual value, which might be fine.
func (s *setup) addOdd(t *rapid.T) {
	durations := []string{`"0s"`, `"1ns"`, `"-1s"`, `"-2562047h47m16s"`, `"2562047h47m16s"`, `"1µs"`, `"24h"`, `"-0s"`}
	sizes := []string{`"0"`, `"1"`, `"1B"`, `"1KB"`, `"1023KB"`, `"10MB"`, `"1TB"`, `"8EB"`, `"15EB"`, `"18446744073709551615"`, "0", "1", "-1", "9223372036854775807"}
	ints := []string{"0", "1", "-1", "1000000", "9223372036854775807", "-9223372036854775808", "2147483648", "4611686018427387904"}
	strs := []string{`""`, `" "`, `"a b"`, `"."`, `">"`, `"*"`, `"a.*.b"`, `"a.>"`, `"\n"`, `"\u0000"`, `"ü"`, `"{LONG}"`, `"a..b"`, `".a"`, `"a."`, `"%s%n"`, `"\""`, `"{SUBJ}.x"`}
	k := hz.One(t, "option", "name", "nats_subject", "nats_subject", "nats_subject_monitor", "nats_subject_junkyard", "influxdb_address", "influxdb_dbname",
		"batch_max_count", "batch_max_size", "batch_max_age", "workers", "write_timeout", "writer_retry_batches", "writer_retry_interval", "writer_retry_timeout",
		"read_buffer_size", "nats_max_pending_size", "max_time_delta", "stats_interval", "debug", "downsample_suffix", "downsample_period", "queue_group", "rule", "unknown", "nats_address")
	switch k {
	case "nats_subject":
		var list []string
		for n := hz.One(t, "subjects", 0, 1, 1, 1, 2, 50); n > 0; n-- {
			list = append(list, hz.One(t, "subject", strs...))
		}
		s.opts[k] = "[" + strings.Join(list, ", ") + "]"
	case "name", "nats_subject_monitor", "nats_subject_junkyard", "influxdb_address", "influxdb_dbname", "downsample_suffix", "queue_group":
		s.opts[k] = hz.One(t, "value", strs...)
	case "batch_max_size", "read_buffer_size", "nats_max_pending_size":
		s.opts[k] = hz.One(t, "value", sizes...)
	case "batch_max_age", "write_timeout", "writer_retry_interval", "writer_retry_timeout", "max_time_delta", "stats_interval":
		s.opts[k] = hz.One(t, "value", durations...)
	case "downsample_period":
		s.opts[k] = hz.One(t, "value", append(durations, `"1s"`, `"7ms"`)...)
	case "batch_max_count", "writer_retry_batches":
		s.opts[k] = hz.One(t, "value", ints...)
	case "workers":
		s.opts[k] = hz.One(t, "value", "0", "1", "500", "-1", "96")
	case "debug":
		s.opts[k] = "true"
	case "nats_address":
		s.opts[k] = hz.One(t, "value", `"{NATS},nats://127.0.0.1:{DEAD}"`, `" {NATS} "`, `"127.0.0.1:{NATSPORT}"`, `"nats://u:p@127.0.0.1:{NATSPORT}"`, `"nats://localhost:{NATSPORT}"`, `"nats://127.0.0.1:{DEAD},{NATS}"`)
	case "rule":
		rule := ruleText(t, s.mode, hz.One(t, "kind", ruleKinds...)) + hz.One(t, "more", "", "tags = []\n", "match = \"x\"\n", "unknown = 1\n")
		if strings.Count(rule, "match") > 1 {
			rule = "type = \"tags\"\ntags = [[\"a\", \"b\"]]\nmatch = \"x\"\n"
		}
		s.rules = append(s.rules, rule)
	case "unknown":
		s.extra = "\n" + hz.One(t, "text", "[unknown]\nx = 1", "# comment", "[[unknown]]", "[rule.x]", "\r\n", "[batch_max_age]\nDuration = 1", "[name]\nx = 1") + "\n"
	}
}

// ports on which something else than NATS answers.
var others struct {
	once                     sync.Once
	silent, closing, garbage int
}

func otherPorts() (silent, closing, garbage int) {
	others.once.Do(func() {
		serve := func(f func(net.Conn)) int {
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				hz.Infra("listen: %v", err)
			}
			go func() {
				for {
					conn, err := l.Accept()
					if err != nil {
						return
					}
					go f(conn)
				}
			}()
			return l.Addr().(*net.TCPAddr).Port
		}
		others.silent = serve(func(c net.Conn) { time.Sleep(20 * time.Second); c.Close() })
		others.closing = serve(func(c net.Conn) { c.Close() })
		others.garbage = serve(func(c net.Conn) {
			c.Write([]byte("HTTP/1.1 400 Bad Request\r\nINFO {}\r\n\x00\xff\r\n-ERR 'x'\r\n"))
			time.Sleep(time.Second)
			c.Close()
		})
	})
	return others.silent, others.closing, others.garbage
}

// place replaces the placeholders.
func (s *setup) place(srv *server.Server) (text string, port, probe int) {
	port, probe = sut.FreePort(), sut.FreePort()
	silent, closing, garbage := otherPorts()
	natsPort := strings.TrimPrefix(sut.URL(srv), "nats://127.0.0.1:")
	text = strings.NewReplacer("{NATS}", sut.URL(srv), "{NATSPORT}", natsPort, "{SUBJ}", sut.Unique(), "{PORT}", fmt.Sprint(port), "{PROBE}", fmt.Sprint(probe),
		"{DEAD}", "9", "{SILENT}", fmt.Sprint(silent), "{CLOSING}", fmt.Sprint(closing), "{GARBAGE}", fmt.Sprint(garbage), "{LONG}", strings.Repeat("long", 600)).Replace(s.text())
	return text, port, probe
}

// occupy binds a port by TCP or UDP.
func (s *setup) occupy(port int) (free func()) {
	var err error
	if !sut.Until(5*time.Second, func() bool { free, err = s.tryOccupy(port); return err == nil }) {
		hz.Infra("listen: %v", err)
	}
	return free
}

func (s *setup) tryOccupy(port int) (func(), error) {
	if s.mode == "listener" {
		conn, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
		if err != nil {
			return nil, err
		}
		return func() { conn.Close() }, nil
	}
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", port))
	if err != nil {
		return nil, err
	}
	return func() { l.Close() }, nil
}

var traceRx = regexp.MustCompile(`(?m)^(panic: |fatal error: |goroutine \d+ \[|SIG[A-Z]+: |WARNING: DATA RACE)`)

var fileSeq int64

// As a program.
func TestC31_Program(t *testing.T) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "conf")
	if err != nil {
		hz.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	srv := sut.NewNATS()
	defer srv.Shutdown()
	hz.Check(t, hz.Opts{Quick: 100, Thorough: 1500,
		Rule: "batches of eight influx-spout programs with generated configuration files of all modes: valid ones, ones with a flaw (syntax, types, modes, rules, regular expressions, ranges, NATS not reachable or not answering, ports in use, unreadable files) and ones with odd values; those with a flaw must exit with an error message, valid ones must get ready, the others may do either, and none may crash or hang; non-trivial: a flaw or an odd value (each program is a case)"},
		func(c *hz.C) {
			var ss []*setup
			for i := 0; i < 8; i++ {
				s := genSetup(c.T)
				ss = append(ss, s)
				c.Sub(s.flaw != "" || s.odd, s.String())
				c.Label("flaw: " + s.flaw)
			}
			c.Sample(func() string { return ss[0].String() })
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(ss))
				var wg sync.WaitGroup
				for i, s := range ss {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = s.program(srv, dir, wait)
					}()
				}
				wg.Wait()
				return worst(errs, func(i int) string { return ss[i].String() })
			})
		})
}

// worst returns a hard error if there is one.
func worst(errs []error, describe func(i int) string) error {
	var out error
	for i, err := range errs {
		if err == nil {
			continue
		}
		if _, ok := err.(*hz.Soft); !ok {
			return fmt.Errorf("%v\nwith %s", err, describe(i))
		}
		if out == nil {
			out = fmt.Errorf("%w\nwith %s", err, describe(i))
		}
	}
	return out
}

func (s *setup) program(srv *server.Server, dir string, wait time.Duration) error {
	text, port, probe := s.place(srv)
	if s.taken {
		defer s.occupy(port)()
	}
	file := filepath.Join(dir, fmt.Sprintf("%d.toml", atomic.AddInt64(&fileSeq, 1)))
	defer os.RemoveAll(file)
	switch s.file {
	case "missing":
	case "directory":
		os.Mkdir(file, 0755)
	default:
		if err := os.WriteFile(file, []byte(text), 0644); err != nil {
			hz.Infra("%v", err)
		}
	}
	p := sut.Run("influx-spout", file)
	defer p.Kill()
	url := fmt.Sprintf("http://127.0.0.1:%d/readyz", probe)
	ready, exited := false, false
	if !sut.Until(wait, func() bool {
		if exited = p.Exited(0); !exited {
			status, _, err := httpGet(url)
			ready = err == nil && status == 200
		}
		return ready || exited
	}) {
		if traceRx.MatchString(p.Stderr()) {
			return fmt.Errorf("the program crashes: %.1000s", crash(p.Stderr()))
		}
		return hz.Softf("the program neither gets ready nor does it exit")
	}
	out := p.Stderr() + string(p.Stdout())
	if traceRx.MatchString(out) {
		return fmt.Errorf("the program crashes: %.1000s", crash(out))
	}
	if ready && s.flaw != "" {
		return fmt.Errorf("the program gets ready")
	}
	if !exited {
		return nil
	}
	if code := p.Code(); code <= 0 {
		return fmt.Errorf("the program exits with %d", code)
	}
	if s.flaw == "" && !s.odd {
		if strings.Contains(out, "in use") || strings.Contains(out, "i/o timeout") {
			return hz.Softf("the program exits")
		}
		return fmt.Errorf("the program exits with an error")
	}
	// Apart from the line which is always logged there must be a message.
	msg := strings.Split(strings.TrimSpace(out), "\n")
	if last := msg[len(msg)-1]; last == "" || strings.Contains(last, "Running ") && len(msg) == 1 {
		return fmt.Errorf("the program exits without an error message")
	}
	return nil
}

func crash(s string) string {
	if i := traceRx.FindStringIndex(s); i != nil {
		s = s[i[0]:]
	}
	// Addresses differ from run to run.
	s = regexp.MustCompile(`0x[0-9a-f]+|goroutine \d+`).ReplaceAllString(s, "?")
	lines := strings.Split(s, "\n")
	return strings.Join(lines[:min(len(lines), 12)], "\n")
}

// In this process.
func TestC31_Clean(t *testing.T) {
	srv := sut.NewNATS()
	defer srv.Shutdown()
	hz.Check(t, hz.Opts{Quick: 1500, Thorough: 30000,
		Rule: "components are started in-process with configurations as above; after a failed start (or a stop) no goroutine, port or NATS connection of theirs may remain; non-trivial: a flaw or an odd value"},
		func(c *hz.C) {
			s := genSetup(c.T)
			if strings.Contains(s.text(), "{SILENT}") && !hz.Chance(c.T, 10, "slow") {
				s.opts["nats_address"] = `"nats://127.0.0.1:{CLOSING}"`
			}
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error { return s.inProcess(srv, wait) })
			if s.flaw != "" || s.odd {
				c.NonTrivial(s.String())
			}
			c.Label("flaw: " + s.flaw)
			c.Sample(s.String)
		})
}

func (s *setup) inProcess(srv *server.Server, wait time.Duration) error {
	text, port, probe := s.place(srv)
	free := func() {}
	if s.taken {
		free = s.occupy(port)
	}
	defer func() { free() }()
	fs := afero.NewMemMapFs()
	config.Fs = fs
	if s.file == "" {
		afero.WriteFile(fs, "/x.toml", []byte(text), 0644)
	}
	conf, err := config.NewConfigFromFile("/x.toml")
	if err != nil {
		if err.Error() == "" {
			return fmt.Errorf("loading fails without an error message")
		}
		if s.flaw == "" && !s.odd {
			return fmt.Errorf("a valid configuration is rejected: %v", err)
		}
		return nil
	}
	comp, err := sut.Start(conf)
	if err == nil {
		sut.StopNow(comp, conf)
		if s.flaw != "" {
			return fmt.Errorf("starting succeeds in spite of a flaw\nwith %s", s)
		}
	} else {
		if err.Error() == "" {
			return fmt.Errorf("starting fails without an error message")
		}
		if s.flaw == "" && !s.odd {
			if strings.Contains(err.Error(), "in use") || strings.Contains(err.Error(), "timeout") {
				return hz.Softf("starting fails")
			}
			return fmt.Errorf("starting fails with a valid configuration\nwith %s", s)
		}
	}
	free()
	free = func() {}
	what := "stop"
	if err != nil {
		what = "failed start"
	}
	var gs []string
	if !sut.Until(wait, func() bool { gs = sut.Goroutines(); return len(gs) == 0 }) {
		return fmt.Errorf("%w\n%s\nwith %s", hz.Softf("goroutines remain after a %s", what), stackOf(gs[0]), s)
	}
	if !sut.Until(wait, func() bool { return sut.PortFree(probe) && sut.PortFree(port) }) {
		return fmt.Errorf("%w\nwith %s", hz.Softf("a port remains open after a %s", what), s)
	}
	if !sut.Until(wait, func() bool { return srv.NumClients() == 0 }) {
		return fmt.Errorf("%w\nwith %s", hz.Softf("a NATS connection remains after a %s", what), s)
	}
	return nil
}

func stackOf(g string) string {
	g = regexp.MustCompile(`0x[0-9a-f]+\??|goroutine \d+|\d+ minutes`).ReplaceAllString(g, "?")
	lines := strings.Split(g, "\n")
	return strings.Join(lines[:min(len(lines), 20)], "\n")
}

// Arbitrary text.
func TestC31_Text(t *testing.T) {
	config.Fs = afero.NewMemMapFs()
	srv := sut.NewNATS()
	defer srv.Shutdown()
	hz.Check(t, hz.Opts{Quick: 20000, Thorough: 600000,
		Rule: "arbitrary bytes and mutations (insertions, deletions, repetitions, cuts) of generated configuration files: loading must give a configuration or an error, and must not panic; non-trivial: a mutated file"},
		func(c *hz.C) {
			var text []byte
			mutated := false
			if hz.Chance(c.T, 10, "bytes") {
				text = rapid.SliceOfN(hz.Bytes(16, '[', ']', '=', '"', '\'', '\n', ' ', 'a', '1', '.', '{', '}', ',', '\\', '#'), 0, 60).Draw(c.T, "bytes")
			} else {
				mutated = true
				s, _, _ := genSetup(c.T).place(srv)
				text = []byte(s)
				if hz.Chance(c.T, 30, "value") {
					// Any characters as a value.
					lines := strings.Split(s, "\n")
					i := hz.Int(c.T, 0, len(lines)-1, "line")
					name, _, _ := strings.Cut(lines[i], "=")
					var value string
					for n := hz.Int(c.T, 0, 5, "characters"); n > 0; n-- {
						value += hz.One(c.T, "character", "{", "}", "[", "]", "#", "\"", "'", ",", "=", "\n", " ", "1", "a", ".", "-", "\\", "true", ":", "T")
					}
					lines[i] = name + "=" + value
					text = []byte(strings.Join(lines, "\n"))
				}
				for n := hz.One(c.T, "mutations", 0, 1, 1, 2, 4); n > 0 && len(text) > 0; n-- {
					i := hz.Int(c.T, 0, len(text)-1, "at")
					j := min(len(text), i+hz.One(c.T, "length", 1, 1, 3, 10, 40))
					switch hz.One(c.T, "mutation", "delete", "insert", "replace", "repeat", "cut", "move") {
					case "delete":
						text = append(text[:i:i], text[j:]...)
					case "insert":
						text = append(text[:i:i], append([]byte(hz.One(c.T, "text", "[", "]", "=", "\"", "'", "\n", "#", "{", "}", "\"\"\"", "\\", "\\u", "\x00", "\xff", "-", "9", "[[rule]]\n", "\nrule = ", "1979-05-27", "inf", "nan", "0x1", "1_0", "{#", "[#", "= {", "= [", "a={", "\n[a]\n")), text[i:]...)...)
					case "replace":
						text[i] = hz.Bytes(10, '[', ']', '=', '"', '\'', '\n', ' ', 'a', '1', '.', '{', '}', ',', '\\', '#').Draw(c.T, "byte")
					case "repeat":
						text = append(text[:j:j], text[i:]...)
					case "cut":
						text = text[:i]
					case "move":
						text = append(append(append([]byte{}, text[j:]...), '\n'), text[i:j]...)
					}
				}
			}
			fs := afero.NewMemMapFs()
			config.Fs = fs
			common := hz.Chance(c.T, 30, "common")
			if common {
				afero.WriteFile(fs, "/etc/influx-spout.toml", text, 0644)
				text = []byte(hz.One(c.T, "specific", "", "mode = \"filter\"", "mode = \"writer\"\n[[rule]]\n"))
			}
			afero.WriteFile(fs, "/x.toml", text, 0644)
			conf, err := config.NewConfigFromFile("/x.toml")
			broken := !isTOML(text)
			if common && !broken {
				b, _ := afero.ReadFile(fs, "/etc/influx-spout.toml")
				broken = !isTOML(b)
			}
			if broken && err == nil {
				c.Fatalf("loading malformed TOML %q gives %v", text, conf)
			}
			c.LabelIf(broken, "malformed")
			if (conf == nil) == (err == nil) {
				c.Fatalf("loading %q gives %v and %v", text, conf, err)
			}
			if err != nil && err.Error() == "" {
				c.Fatalf("loading %q gives an empty error", text)
			}
			c.LabelIf(err == nil, "accepted")
			c.LabelIf(err != nil, "rejected")
			if mutated {
				c.NonTrivial(text)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", text) })
		})
}

// isTOML tells whether the parser accepts a text at all, whatever the
// options in it are.
func isTOML(text []byte) (ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	var all map[string]interface{}
	_, err := toml.Decode(string(text), &all)
	return err == nil
}

// The program has to be called with exactly one argument.
func TestC31_Usage(t *testing.T) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "usage")
	if err != nil {
		hz.Infra("%v", err)
	}
	defer os.RemoveAll(dir)
	srv := sut.NewNATS()
	defer srv.Shutdown()
	file := filepath.Join(dir, "good.toml")
	hz.Check(t, hz.Opts{Quick: 20, Thorough: 200,
		Rule: "the program is called with another number of arguments than one, some of which are usable configurations; it must exit with an error and tell how it is used; non-trivial: all"},
		func(c *hz.C) {
			var args []string
			for n := hz.One(c.T, "arguments", 0, 0, 2, 2, 3, 5); n > 0; n-- {
				args = append(args, hz.One(c.T, "argument", file, file, "", "-h", "--help", "-config", "/nonexistent"))
			}
			text := fmt.Sprintf("mode = \"filter\"\nnats_address = %q\nnats_subject = [\"x\"]\n", sut.URL(srv))
			if err := os.WriteFile(file, []byte(text), 0644); err != nil {
				hz.Infra("%v", err)
			}
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				p := sut.Run("influx-spout", args...)
				defer p.Kill()
				if !p.Exited(wait) {
					return hz.Softf("called with %d arguments, the program does not exit", len(args))
				}
				out := p.Stderr() + string(p.Stdout())
				if traceRx.MatchString(out) {
					return fmt.Errorf("called with %d arguments, the program crashes: %.1000s", len(args), crash(out))
				}
				if code := p.Code(); code <= 0 {
					return fmt.Errorf("called with %d arguments, the program exits with %d", len(args), code)
				}
				if len(strings.TrimSpace(out)) == 0 {
					return fmt.Errorf("called with %d arguments, the program exits without an error message", len(args))
				}
				return nil
			})
			c.NonTrivial(fmt.Sprint(len(args), args))
			c.Sample(func() string { return fmt.Sprint(len(args), " arguments") })
		})
}

// Files which exist but can't be read.
func TestC31_Unreadable(t *testing.T) {
	srv := sut.NewNATS()
	defer srv.Shutdown()
	hz.Check(t, hz.Opts{Quick: 3000, Thorough: 60000,
		Rule: "generated configurations as a common and a specific file, opening or reading one of which fails with a generated error, perhaps after some bytes; loading must fail with a message about that file; non-trivial: the configuration would be accepted otherwise"},
		func(c *hz.C) {
			s := genSetup(c.T)
			text, _, _ := s.place(srv)
			const common, specific = "/etc/influx-spout.toml", "/x.toml"
			fs := afero.NewMemMapFs()
			// The options are in either of them, or both.
			where := hz.One(c.T, "where", "common", "specific", "both")
			files := map[string]string{common: "# nothing\n", specific: "# nothing\n"}
			if where != "specific" {
				files[common] = text
			}
			if where != "common" {
				files[specific] = text
			}
			for name, text := range files {
				afero.WriteFile(fs, name, []byte(text), 0644)
			}
			config.Fs = fs
			_, err := config.NewConfigFromFile(specific)
			accepted := err == nil

			f := &ffs.FaultFs{Fs: fs, Path: hz.One(c.T, "file", common, specific), After: -1,
				Err: hz.One(c.T, "error", syscall.EACCES, syscall.EPERM, syscall.EIO, syscall.EMFILE, syscall.ENFILE, syscall.ELOOP, syscall.EISDIR, syscall.ENOMEM, syscall.ESTALE)}
			if hz.Chance(c.T, 50, "read") {
				f.After = hz.Int(c.T, 0, len(files[f.Path]), "after")
			}
			config.Fs = f
			conf, err := config.NewConfigFromFile(specific)
			if err == nil || conf != nil {
				c.Fatalf("a configuration is loaded although %s can't be read (%v)", f.Path, f.Err)
			}
			if err.Error() == "" {
				c.Fatalf("the error has no message")
			}
			c.Label(f.Path)
			if accepted {
				c.NonTrivial(text, f.Path, f.Err, f.After, where)
			}
			c.Sample(func() string {
				return fmt.Sprintf("%s: %v after %d bytes; options in %s: %s", f.Path, f.Err, f.After, where, s)
			})
		})
}
