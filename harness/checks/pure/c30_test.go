package pure

import (
	"fmt"
	"os"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"github.com/spf13/afero"
	"pgregory.net/rapid"

	"verif/harness/ffs"
	"verif/harness/hz"
)

// value is an option's value as written in a file, and what it means.
type value struct {
	toml string
	val  interface{} // nil if the file can't be parsed
}

// option describes an option as documented.
type option struct {
	name string
	def  interface{}
	draw func(t *rapid.T) value
	get  func(c *config.Config) interface{}
}

func strOpt(vals ...string) func(*rapid.T) value {
	return func(t *rapid.T) value {
		s := rapid.SampledFrom(vals).Draw(t, "string")
		if hz.Chance(t, 30, "literal") && !strings.Contains(s, "'") {
			return value{"'" + s + "'", s}
		}
		return value{fmt.Sprintf("%q", s), s}
	}
}

func intOpt(vals ...int) func(*rapid.T) value {
	return func(t *rapid.T) value {
		v := rapid.SampledFrom(vals).Draw(t, "int")
		return value{fmt.Sprint(v), v}
	}
}

var sizeUnits = []struct {
	name string
	mult uint64
}{{"", 1}, {"B", 1}, {"K", 1 << 10}, {"KB", 1 << 10}, {"kb", 1 << 10}, {"M", 1 << 20}, {"MB", 1 << 20}, {"mb", 1 << 20}, {"m", 1 << 20}, {"G", 1 << 30}, {"GB", 1 << 30}, {"gb", 1 << 30}}

func sizeOpt(max uint64) func(*rapid.T) value {
	return func(t *rapid.T) value {
		u := rapid.SampledFrom(sizeUnits).Draw(t, "unit")
		n := uint64(hz.One(t, "n", 1, 2, 3, 10, 64, 512, 1000, 1024, 1025, 65536, 1048576, 1048577, 2097152, 0))
		if hz.Chance(t, 40, "within") {
			n = max / u.mult
			if n == 0 {
				n, u = max, sizeUnits[0]
			}
		}
		sep := hz.One(t, "space", "", "", " ")
		if u.name == "" {
			sep = ""
		}
		return value{fmt.Sprintf(`"%d%s%s"`, n, sep, u.name), datasize.ByteSize(n * u.mult)}
	}
}

func durOpt(vals ...string) func(*rapid.T) value {
	return func(t *rapid.T) value {
		s := rapid.SampledFrom(vals).Draw(t, "duration")
		d, err := time.ParseDuration(s)
		if err != nil {
			panic(err)
		}
		return value{fmt.Sprintf("%q", s), d}
	}
}

var durations = []string{"7200s", "120m", "2h", "1ns", "250us", "10ms", "1.5s", "1m30s", "1h0m5s", "3s", "0s", "90s"}

func listOpt(t *rapid.T) value {
	n := hz.One(t, "subjects", 1, 1, 1, 1, 1, 2, 3, 0)
	list := make([]string, n)
	var text []string
	for i := range list {
		list[i] = hz.One(t, "subject", "foo", "bar", "a.b", "in", "x-y")
		text = append(text, fmt.Sprintf("%q", list[i]))
	}
	return value{"[" + strings.Join(text, hz.One(t, "sep", ", ", ",", ",\n  ")) + "]", list}
}

func boolOpt(t *rapid.T) value {
	b := rapid.Bool().Draw(t, "bool")
	return value{fmt.Sprint(b), b}
}

// dynamic marks options whose default depends on the mode.
type dynamic struct{}

var options = []option{
	{"name", dynamic{}, strOpt("particle", "x", "a b", ""), func(c *config.Config) interface{} { return c.Name }},
	{"nats_address", "nats://localhost:4222", strOpt("nats://host:1", "nats://1.2.3.4:5"), func(c *config.Config) interface{} { return c.NATSAddress }},
	{"nats_subject", []string{"influx-spout"}, listOpt, func(c *config.Config) interface{} { return append([]string{}, c.NATSSubject...) }},
	{"nats_subject_monitor", "influx-spout-monitor", strOpt("mon", "m.2"), func(c *config.Config) interface{} { return c.NATSSubjectMonitor }},
	{"nats_subject_junkyard", "influx-spout-junk", strOpt("junk", "j"), func(c *config.Config) interface{} { return c.NATSSubjectJunkyard }},
	{"influxdb_address", "localhost", strOpt("db", "::1"), func(c *config.Config) interface{} { return c.InfluxDBAddress }},
	{"influxdb_protocol", "http", strOpt("http", "https", "https", "ftp", "HTTP", ""), func(c *config.Config) interface{} { return c.InfluxDBProtocol }},
	{"influxdb_port", 8086, intOpt(1, 80, 8087, 65535, 65536, 0, -1), func(c *config.Config) interface{} { return c.InfluxDBPort }},
	{"influxdb_dbname", "influx-spout-junk", strOpt("db", "a&b c", "ü"), func(c *config.Config) interface{} { return c.DBName }},
	{"batch_max_count", 10, intOpt(0, 1, 2, 10, 1000, 1<<40), func(c *config.Config) interface{} { return c.BatchMaxCount }},
	{"batch_max_size", dynamic{}, sizeOpt(1 << 20), func(c *config.Config) interface{} { return c.BatchMaxSize }},
	{"batch_max_age", 5 * time.Minute, durOpt(durations...), func(c *config.Config) interface{} { return c.BatchMaxAge.Duration }},
	{"port", dynamic{}, intOpt(1, 10001, 13337, 9331, 65535, 1234, 65536, 0, -1), func(c *config.Config) interface{} { return c.Port }},
	{"workers", 8, intOpt(1, 2, 8, 96, 0, -1), func(c *config.Config) interface{} { return c.Workers }},
	{"write_timeout", 30 * time.Second, durOpt(durations...), func(c *config.Config) interface{} { return c.WriteTimeout.Duration }},
	{"writer_retry_batches", 1, intOpt(0, 1, 5, 100), func(c *config.Config) interface{} { return c.WriterRetryBatches }},
	{"writer_retry_interval", 10 * time.Second, durOpt(durations...), func(c *config.Config) interface{} { return c.WriterRetryInterval.Duration }},
	{"writer_retry_timeout", time.Minute, durOpt(durations...), func(c *config.Config) interface{} { return c.WriterRetryTimeout.Duration }},
	{"read_buffer_size", 4 * datasize.MB, sizeOpt(4 << 20), func(c *config.Config) interface{} { return c.ReadBufferSize }},
	{"nats_max_pending_size", 200 * datasize.MB, sizeOpt(100 << 20), func(c *config.Config) interface{} { return c.NATSMaxPendingSize }},
	{"max_time_delta", 10 * time.Minute, durOpt(durations...), func(c *config.Config) interface{} { return c.MaxTimeDelta.Duration }},
	{"stats_interval", 3 * time.Second, durOpt(durations...), func(c *config.Config) interface{} { return c.StatsInterval.Duration }},
	{"probe_port", 0, intOpt(0, 1, 44450, 65535, 65536, -1), func(c *config.Config) interface{} { return c.ProbePort }},
	{"pprof_port", 0, intOpt(0, 1, 44450, 65535, 65536, -1), func(c *config.Config) interface{} { return c.PprofPort }},
	{"debug", false, boolOpt, func(c *config.Config) interface{} { return c.Debug }},
	{"downsample_period", dynamic{}, durOpt("1m", "30s", "1h", "1ms", "0s", "-1s"), func(c *config.Config) interface{} { return c.DownsamplePeriod.Duration }},
	{"downsample_suffix", "-archive", strOpt("-x", ".down", ""), func(c *config.Config) interface{} { return c.DownsampleSuffix }},
	{"queue_group", "", strOpt("q", "", "group 1"), func(c *config.Config) interface{} { return c.QueueGroup }},
}

func optionNamed(name string) option {
	for _, o := range options {
		if o.name == name {
			return o
		}
	}
	panic(name)
}

// Syntax errors and values of the wrong type.
var badValues = map[string][]string{
	"string": {"1", "true", `["x"]`, `"unterminated`, "bare"},
	"int":    {`"1"`, "true", "1.5", "99999999999999999999", "[1]", "1h"},
	"size":   {`"10 XB"`, `"-1"`, `"1.5MB"`, `"MB"`, `"99999999999999999999999"`, `"10Mb"`},
	"dur":    {`"5"`, `"5 minutes"`, `"m"`, `""`, `"1d"`, `"h1"`},
	"list":   {`"foo"`, "1", `[1, 2]`, `["a"`},
	"bool":   {`"true"`, "1", "yes"},
}

func kindOf(o option) string {
	switch o.get(&config.Config{}).(type) {
	case string:
		return "string"
	case int:
		return "int"
	case datasize.ByteSize:
		return "size"
	case time.Duration:
		return "dur"
	case bool:
		return "bool"
	}
	return "list"
}

type rule struct {
	rtype, match, subject string
	tags                  [][]string
}

func (r rule) toml() string {
	var b strings.Builder
	b.WriteString("[[rule]]\n")
	if r.rtype != "" {
		fmt.Fprintf(&b, "type = %q\n", r.rtype)
	}
	if r.match != "" {
		fmt.Fprintf(&b, "match = %q\n", r.match)
	}
	if r.tags != nil {
		var items []string
		for _, tag := range r.tags {
			var parts []string
			for _, p := range tag {
				parts = append(parts, fmt.Sprintf("%q", p))
			}
			items = append(items, "["+strings.Join(parts, ", ")+"]")
		}
		fmt.Fprintf(&b, "tags = [%s]\n", strings.Join(items, ", "))
	}
	if r.subject != "" {
		fmt.Fprintf(&b, "subject = %q\n", r.subject)
	}
	return b.String()
}

// valid is the documented form of a rule, less its subject.
func (r rule) valid() bool {
	if r.rtype == "" {
		return false
	}
	if r.rtype != "tags" {
		return r.match != "" && len(r.tags) == 0
	}
	if r.match != "" || len(r.tags) == 0 {
		return false
	}
	for _, t := range r.tags {
		if len(t) != 2 {
			return false
		}
	}
	return true
}

func drawRule(t *rapid.T, subject bool, flaws bool) rule {
	r := rule{rtype: hz.One(t, "type", "basic", "tags", "regex", "negregex")}
	if r.rtype == "tags" {
		for i := hz.Int(t, 1, 3, "tags"); i > 0; i-- {
			r.tags = append(r.tags, []string{hz.One(t, "k", "a", "b=c"), hz.One(t, "v", "x", "y z")})
		}
	} else {
		r.match = hz.One(t, "match", "foo", "host=web.+,", "a,b", `\\d`)
	}
	if subject {
		r.subject = hz.One(t, "subject", "s1", "s2", "a.b")
	}
	if flaws && hz.Chance(t, 40, "flaw") {
		switch hz.One(t, "flaw", "type", "match", "subject", "notags", "extratags", "1tag", "3tag", "extramatch") {
		case "type":
			r.rtype = ""
		case "match":
			r.match = ""
		case "subject":
			if subject {
				r.subject = ""
			} else {
				r.subject = "x"
			}
		case "notags":
			r.tags = nil
		case "extratags":
			r.tags = append(r.tags, []string{"k", "v"})
		case "1tag":
			r.tags = append([][]string{{"k"}}, r.tags...)
		case "3tag":
			r.tags = append(r.tags, []string{"k", "v", "w"})
		case "extramatch":
			r.match = "more"
		}
	}
	return r
}

// file is a generated configuration file.
type file struct {
	vals  map[string]value
	mode  string
	rules []rule
	text  string
	bad   bool
}

func drawFile(t *rapid.T, mode string, maxOpts int, rules, subjects, flaws, bads bool) *file {
	f := &file{vals: map[string]value{}, mode: mode}
	var names []string
	for _, o := range options {
		names = append(names, o.name)
	}
	perm := rapid.Permutation(names).Draw(t, "options")
	var lines []string
	if mode != "" {
		lines = append(lines, fmt.Sprintf("mode = %q", mode))
	}
	for _, name := range perm[:hz.Int(t, 0, maxOpts, "n")] {
		o := optionNamed(name)
		v := o.draw(t)
		for i := 0; i < 8 && !flaws && !plausible(o.name, v.val, f.mode); i++ {
			v = o.draw(t)
		}
		if !flaws && !plausible(o.name, v.val, f.mode) {
			continue
		}
		if bads && hz.Chance(t, 6, "bad") {
			v = value{rapid.SampledFrom(badValues[kindOf(o)]).Draw(t, "bad value"), nil}
			f.bad = true
		}
		f.vals[o.name] = v
		lines = append(lines, o.name+hz.One(t, "eq", " = ", "=", "\t=  ")+v.toml+hz.One(t, "eol", "", "", "  # comment"))
	}
	lines = rapid.Permutation(lines).Draw(t, "order")
	f.text = strings.Join(lines, "\n") + "\n"
	if rules {
		for i := hz.Int(t, 1, 3, "rules"); i > 0; i-- {
			r := drawRule(t, subjects, flaws)
			f.rules = append(f.rules, r)
			f.text += "\n" + r.toml()
		}
	}
	return f
}

// plausible tells whether a value is fine in files without flaws.
func plausible(name string, v interface{}, mode string) bool {
	switch name {
	case "nats_subject":
		return len(v.([]string)) == 1
	case "probe_port", "pprof_port":
		return v.(int) >= 0 && v.(int) < 65536
	case "port", "influxdb_port":
		return v.(int) > 0 && v.(int) < 65536
	case "workers":
		return v.(int) > 0
	case "batch_max_size":
		return v.(datasize.ByteSize) <= datasize.MB
	case "influxdb_protocol":
		return v == "http" || v == "https"
	case "downsample_suffix":
		return v != ""
	case "downsample_period":
		return mode == "downsampler" && v.(time.Duration) > 0
	}
	return true
}

var modes = []string{"listener", "listener_http", "filter", "downsampler", "writer", "monitor"}

func TestC30_Config(t *testing.T) {
	config.Fs = afero.NewMemMapFs()
	hz.Check(t, hz.Opts{Quick: 40000, Thorough: 1000000,
		Rule: "pairs of common and specific files for all modes with options in any order and spelling, some out of range or unparsable, and rules; the result is compared with documented defaults overlaid by both files; non-trivial: at least one option is set in both files, or the file is rejected, or rules are defined"},
		checkConfig)
}

func checkConfig(c *hz.C) {
	mode := rapid.SampledFrom(modes).Draw(c.T, "mode")
	flaws := hz.Chance(c.T, 45, "flaws")
	bads := hz.Chance(c.T, 15, "bads")
	subjects := mode != "writer"

	specMode, commonMode := mode, ""
	if flaws && hz.Chance(c.T, 10, "odd mode") {
		specMode = hz.One(c.T, "odd mode", "", "nope", "Listener", "writer ")
	}
	if hz.Chance(c.T, 10, "common mode") {
		commonMode = rapid.SampledFrom(modes).Draw(c.T, "common mode")
	}
	var common *file
	if hz.Chance(c.T, 70, "has common") {
		common = drawFile(c.T, commonMode, hz.One(c.T, "common size", 3, 6, len(options)), hz.Chance(c.T, 25, "common rules"), subjects, flaws, bads)
	}
	spec := drawFile(c.T, specMode, hz.One(c.T, "size", 3, 6, len(options)), hz.Chance(c.T, 40, "rules"), subjects, flaws, bads)

	fs := afero.NewMemMapFs()
	config.Fs = fs
	write := func(name, text string) {
		if err := afero.WriteFile(fs, name, []byte(text), 0600); err != nil {
			hz.Infra("%v", err)
		}
	}
	if common != nil {
		write("/etc/influx-spout.toml", common.text)
	}
	base := hz.One(c.T, "file name", "thing", "a.b", "with space", "x")
	ext := hz.One(c.T, "extension", ".toml", ".conf", "")
	fileName := hz.One(c.T, "dir", "/etc/spout.d/", "/", "") + base + ext
	missing := hz.Chance(c.T, 2, "missing")
	if !missing {
		write(fileName, spec.text)
	}
	if flaws && hz.Chance(c.T, 4, "unreadable") {
		// The common file or the given one is there, but can't be opened.
		config.Fs = &ffs.FaultFs{Fs: fs, Path: hz.One(c.T, "which", "/etc/influx-spout.toml", fileName), After: -1,
			Err: hz.One(c.T, "error", syscall.EACCES, syscall.EIO, syscall.EMFILE)}
		missing = true
	}
	user := hz.One(c.T, "user", "", "", "", "joe")
	pass := hz.One(c.T, "pass", "", "", "", "secret")
	if !flaws && (user == "") != (pass == "") {
		user, pass = "", ""
	}
	os.Setenv("INFLUXDB_USER", user)
	os.Setenv("INFLUXDB_PASS", pass)

	// The expected outcome.
	want := map[string]interface{}{}
	effMode := ""
	var rules []rule
	both := 0
	for _, o := range options {
		want[o.name] = o.def
	}
	ok := !missing
	for _, f := range []*file{common, spec} {
		if f == nil {
			continue
		}
		ok = ok && !f.bad
		if f.mode != "" {
			effMode = f.mode
		}
		for k, v := range f.vals {
			if f == spec && common != nil {
				if _, in := common.vals[k]; in {
					both++
				}
			}
			want[k] = v.val
		}
		if f.rules != nil {
			rules = f.rules
		}
	}
	expName := base
	if ext == "" && strings.Contains(base, ".") {
		expName = base[:strings.LastIndex(base, ".")]
	}
	if want["name"] == (dynamic{}) || want["name"] == "" {
		want["name"] = expName
	}
	isListener := effMode == "listener" || effMode == "listener_http"
	if want["batch_max_size"] == (dynamic{}) || want["batch_max_size"] == datasize.ByteSize(0) {
		want["batch_max_size"] = 10 * datasize.MB
		if isListener {
			want["batch_max_size"] = datasize.MB
		}
	}
	if want["port"] == (dynamic{}) || want["port"] == 0 {
		want["port"] = map[string]int{"listener": 10001, "listener_http": 13337, "monitor": 9331}[effMode]
	}
	if want["downsample_period"] == (dynamic{}) || want["downsample_period"] == time.Duration(0) {
		want["downsample_period"] = time.Duration(0)
		if effMode == "downsampler" {
			want["downsample_period"] = time.Minute
		}
	}
	why := ""
	fail := func(cond bool, reason string) {
		if cond && ok {
			ok, why = false, reason
		}
	}
	if ok {
		inRange := func(k string, lo, hi int) bool { v := want[k].(int); return v >= lo && v <= hi }
		subj := want["nats_subject"].([]string)
		fail(!inRange("probe_port", 0, 65535), "probe_port")
		fail(!inRange("pprof_port", 0, 65535), "pprof_port")
		fail(effMode != "downsampler" && want["downsample_period"] != time.Duration(0), "downsample_period in other mode")
		switch effMode {
		case "listener", "listener_http":
			fail(!inRange("port", 1, 65535), "port")
			fail(len(subj) != 1, "listener subjects")
			fail(want["batch_max_size"].(datasize.ByteSize) > datasize.MB, "listener batch size")
		case "filter":
			fail(len(subj) != 1, "filter subjects")
			fail(want["workers"].(int) < 1, "filter workers")
			for _, r := range rules {
				fail(!r.valid(), "filter rule")
				fail(r.subject == "", "filter rule subject")
			}
		case "downsampler":
			fail(want["downsample_period"].(time.Duration) <= 0, "downsample_period")
			fail(want["downsample_suffix"] == "", "downsample_suffix")
		case "writer":
			fail(len(subj) < 1, "writer subjects")
			fail(want["workers"].(int) < 0, "writer workers")
			fail(!inRange("influxdb_port", 1, 65535), "influxdb_port")
			fail(want["influxdb_protocol"] != "http" && want["influxdb_protocol"] != "https", "influxdb_protocol")
			fail((user == "") != (pass == ""), "credentials")
			for _, r := range rules {
				fail(!r.valid(), "writer rule")
				fail(r.subject != "", "writer rule subject")
			}
		case "monitor":
		default:
			fail(true, "mode")
		}
	}

	conf, err := config.NewConfigFromFile(fileName)
	describe := func() string {
		s := fmt.Sprintf("file %q:\n%s", fileName, spec.text)
		if common != nil {
			s = "common file:\n" + common.text + s
		}
		return s + fmt.Sprintf("user %q pass %q", user, pass)
	}
	if (err == nil) != ok {
		c.Fatalf("error %v, but valid is %v (%s)\n%s", err, ok, why, describe())
	}
	if ok {
		if conf.Mode != effMode {
			c.Fatalf("mode is %q, want %q\n%s", conf.Mode, effMode, describe())
		}
		for _, o := range options {
			if got := o.get(conf); !reflect.DeepEqual(got, want[o.name]) {
				c.Fatalf("%s is %v, want %v\n%s", o.name, got, want[o.name], describe())
			}
		}
		wantUser, wantPass := "", ""
		if effMode == "writer" {
			wantUser, wantPass = user, pass
		}
		if conf.InfluxDBUser != wantUser || conf.InfluxDBPass != wantPass {
			c.Fatalf("credentials are %q and %q, want %q and %q", conf.InfluxDBUser, conf.InfluxDBPass, wantUser, wantPass)
		}
		if len(conf.Rule) != len(rules) {
			c.Fatalf("%d rules, want %d\n%s", len(conf.Rule), len(rules), describe())
		}
		for i, r := range rules {
			g := conf.Rule[i]
			if g.Rtype != r.rtype || g.Match != r.match || g.Subject != r.subject || fmt.Sprint(g.Tags) != fmt.Sprint(r.tags) {
				c.Fatalf("rule %d is %+v, want %+v\n%s", i, g, r, describe())
			}
		}
		c.Label("accepted as %s", effMode)
	} else {
		if why == "" {
			why = "unparsable or missing"
		}
		c.Label("rejected: %s", why)
	}
	c.LabelIf(both > 0, "option in both files")
	c.LabelIf(common != nil && common.rules != nil && spec.rules != nil, "rules in both files")
	if both > 0 || !ok || len(rules) > 0 {
		var k []string
		for n := range spec.vals {
			k = append(k, n)
		}
		sort.Strings(k)
		c.NonTrivial(describe())
	}
	c.Sample(describe)
}
