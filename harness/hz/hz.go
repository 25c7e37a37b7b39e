// Package hz contains what all checks share: a wrapper around rapid
// which counts and classifies the generated cases, and reporting.
package hz

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a test binary which the driver tells apart.
const (
	ExitInfra = 3 // the harness could not do its work: not a verdict
	ExitHang  = 4 // a case did not terminate
)

var (
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	outFile  = os.Getenv("VERIF_OUT")
	logFile  = os.Getenv("VERIF_LOG")
	replay   = os.Getenv("VERIF_REPLAY")
	scale    = 1.0
)

// Thorough returns true if this is a thorough run.
func Thorough() bool { return thorough }

// Pick returns the first value for quick and the second for thorough runs.
func Pick(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

// part collects what one sub-check did.
type part struct {
	Name        string         `json:"name"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []string       `json:"samples"`
	Truncated   bool           `json:"truncated,omitempty"`
	Findings    []string       `json:"findings,omitempty"`
	WallS       float64        `json:"wall_s"`

	mu     sync.Mutex
	seen   map[uint64]struct{}
	failed bool

	row       int       // of failing cases
	shrinking time.Time // since when
}

var (
	partsMu sync.Mutex
	parts   []*part
)

// C is the context of one generated case.
type C struct {
	*rapid.T
	p       *part
	labels  []string
	nontriv bool
	hash    uint64
	sample  func() string
	subs    []sub
}

// sub is one of several independent cases which are run together.
type sub struct {
	nontriv bool
	hash    uint64
}

// Sub adds an independent case which is run together with others, to be
// counted instead of the whole.
func (c *C) Sub(nontriv bool, key string) {
	h := fnv.New64a()
	io.WriteString(h, key)
	c.subs = append(c.subs, sub{nontriv, h.Sum64()})
}

// Label classifies the case.
func (c *C) Label(format string, args ...interface{}) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	for _, l := range c.labels {
		if l == format {
			return
		}
	}
	c.labels = append(c.labels, format)
}

// LabelIf classifies the case if cond holds.
func (c *C) LabelIf(cond bool, label string) {
	if cond {
		c.Label(label)
	}
}

// NonTrivial marks the case as non-trivial. The key identifies it.
func (c *C) NonTrivial(key ...interface{}) {
	c.nontriv = true
	h := fnv.New64a()
	for _, k := range key {
		switch v := k.(type) {
		case []byte:
			h.Write(v)
		case string:
			io.WriteString(h, v)
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0})
	}
	c.hash = h.Sum64()
}

// Sample provides a printable version of the case.
func (c *C) Sample(f func() string) { c.sample = f }

// Finding records an occurrence of a known finding, to be reported by
// the driver.
func (c *C) Finding(text string) {
	c.p.mu.Lock()
	defer c.p.mu.Unlock()
	for _, f := range c.p.Findings {
		if f == text {
			return
		}
	}
	c.p.Findings = append(c.p.Findings, text)
}

type caseState struct {
	start time.Time
	limit time.Duration
	name  string
}

var current atomic.Value // caseState

// Opts describes how a sub-check is run.
type Opts struct {
	Quick    int           // number of cases
	Thorough int           // number of cases for thorough runs
	Rule     string        // what makes a case non-trivial
	Limit    time.Duration // a case taking longer than that hangs
	Budget   time.Duration // don't start more cases after this (safety net)
}

// Environment, if set, draws what is common to all components of a case.
var Environment func(*C)

// Check runs prop on many generated cases.
func Check(t *testing.T, o Opts, prop func(*C)) {
	t.Helper()
	p := &part{
		Name:   t.Name(),
		Rule:   o.Rule,
		Labels: make(map[string]int),
		seen:   make(map[uint64]struct{}),
	}
	partsMu.Lock()
	parts = append(parts, p)
	partsMu.Unlock()

	n := int(float64(Pick(o.Quick, o.Thorough)) * scale)
	if n < 1 {
		n = 1
	}
	if replay != "" {
		n = 1
	}
	if o.Limit == 0 {
		o.Limit = 240 * time.Second
	}
	if o.Budget == 0 {
		o.Budget = time.Duration(Pick(60, 500)) * time.Second
	}
	must(flag.Set("rapid.checks", strconv.Itoa(n)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seedFor(t.Name()), 10)))
	must(flag.Set("rapid.shrinktime", Pickd(20*time.Second, 60*time.Second).String()))

	start := time.Now()
	defer func() {
		p.WallS = time.Since(start).Seconds()
		current.Store(caseState{})
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(start) > o.Budget && !p.failed {
			p.mu.Lock()
			p.Truncated = true
			p.mu.Unlock()
			return
		}
		if p.failed && p.shrunkEnough() {
			return
		}
		current.Store(caseState{time.Now(), o.Limit, t.Name()})
		c := &C{T: rt, p: p}
		ok := false
		defer func() {
			if !ok {
				p.failed = true
			}
			if rt.Failed() {
				p.row++
			} else {
				p.row = 0
			}
		}()
		if Environment != nil {
			Environment(c)
		}
		prop(c)
		ok = true
		p.add(c)
	})
}

// shrunkEnough tells whether to reject what rapid tries for shrinking a
// failure. Its own deadline isn't enough when cases take long, because
// it isn't looked at for every try.
func (p *part) shrunkEnough() bool {
	pcs := make([]uintptr, 50)
	frames := runtime.CallersFrames(pcs[:runtime.Callers(1, pcs)])
	for {
		f, more := frames.Next()
		if strings.Contains(f.Function, "rapid.(*shrinker)") {
			break
		}
		if !more {
			return false
		}
	}
	if p.shrinking.IsZero() {
		p.shrinking = time.Now()
	}
	// After a successful try, rapid repeats it.
	return p.row%2 == 0 && time.Since(p.shrinking) > Pickd(30*time.Second, 90*time.Second)
}

func (p *part) add(c *C) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.failed {
		return
	}
	for _, l := range c.labels {
		p.Labels[l]++
	}
	if len(c.subs) == 0 {
		c.subs = []sub{{c.nontriv, c.hash}}
	}
	isNew := false
	for _, s := range c.subs {
		p.Evaluations++
		if !s.nontriv {
			continue
		}
		p.Nontrivial++
		if _, ok := p.seen[s.hash]; ok {
			continue
		}
		p.seen[s.hash] = struct{}{}
		p.Distinct++
		isNew = true
	}
	if !isNew {
		return
	}
	// Keep the first, and then ever rarer ones.
	d := p.Distinct
	if len(c.subs) > 1 {
		d = len(p.Samples) + 1
		if d > 3 {
			return
		}
		d = 1
	}
	if c.sample != nil && (d == 1 || d == 10 || d == 100 || d == 1000 || d == 10000) {
		s := c.sample()
		if len(s) > 600 {
			s = s[:600] + fmt.Sprintf("... (%d bytes)", len(s))
		}
		p.Samples = append(p.Samples, s)
	}
}

// Pickd is Pick for durations.
func Pickd(quick, deep time.Duration) time.Duration {
	if thorough {
		return deep
	}
	return quick
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func seedFor(name string) uint64 {
	s, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", s, name)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

// Infra ends the process because the harness itself failed.
func Infra(format string, args ...interface{}) {
	fmt.Printf("VERIF-INFRA-ERROR: %s\n", fmt.Sprintf(format, args...))
	os.Exit(ExitInfra)
}

// capWriter limits how much is written to the log file.
type capWriter struct {
	mu sync.Mutex
	f  *os.File
	n  int
}

func (w *capWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.n > 4<<20 {
		w.f.Truncate(0)
		w.f.Seek(0, 0)
		w.n = 0
	}
	w.n += len(b)
	w.f.Write(b)
	return len(b), nil
}

// Main is to be called from TestMain.
func Main(m *testing.M) {
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, err := strconv.ParseFloat(s, 64)
		must(err)
		scale = f
	}
	log.SetOutput(io.Discard)
	if logFile != "" {
		f, err := os.Create(logFile)
		must(err)
		log.SetOutput(&capWriter{f: f})
	}
	current.Store(caseState{})
	flag.Parse()
	if replay != "" {
		must(flag.Set("rapid.failfile", replay))
	}

	go func() {
		for {
			time.Sleep(time.Second)
			c := current.Load().(caseState)
			if c.limit > 0 && time.Since(c.start) > c.limit {
				fmt.Printf("VERIF-HANG: a case of %s did not end within %v\n", c.name, c.limit)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.Stdout.Write(buf)
				os.Exit(ExitHang)
			}
		}
	}()

	rc := m.Run()
	writeOut(rc)
	os.Exit(rc)
}

func writeOut(rc int) {
	if outFile == "" {
		return
	}
	partsMu.Lock()
	defer partsMu.Unlock()
	sort.Slice(parts, func(i, j int) bool { return parts[i].Name < parts[j].Name })
	b, err := json.MarshalIndent(map[string]interface{}{"rc": rc, "parts": parts}, "", " ")
	must(err)
	must(os.WriteFile(outFile, b, 0644))
}
