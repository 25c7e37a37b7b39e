package system

import (
	"bytes"
	"fmt"
	"regexp"
	"sync"
	"testing"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"
	"pgregory.net/rapid"

	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/sut"
)

// tapping is a run of the tap.
type tapping struct {
	subject string // of the tap; messages go to x, x.a and x.b
	expr    string
	msgs    []tapMsg
}

type tapMsg struct {
	subject string
	data    []byte
}

func (tp *tapping) String() string {
	s := fmt.Sprintf("subject %s, expression %q, messages", tp.subject, tp.expr)
	for _, m := range tp.msgs {
		s += fmt.Sprintf(" %s:%.300q", m.subject, m.data)
	}
	return s
}

func (tp *tapping) takes(subject string) bool {
	switch tp.subject {
	case "x.*":
		return subject != "x"
	case "x.>":
		return subject != "x"
	}
	return subject == tp.subject
}

func genTapping(t *rapid.T) *tapping {
	tp := &tapping{subject: hz.One(t, "subject", "x", "x", "x.a", "x.*", "x.>")}
	words := []string{"cpu", "mem", "host=a", "v=1", "%s%d%n%v", "100%", "%", "\\", "\x00", "\xff\xfe", "ü", "\r", " ", "\t", "1530000000000000000", "CPU", "a.c", "abc", `"`, "'", "$1", "%!(EXTRA"}
	for n := hz.One(t, "messages", 1, 2, 5, 20); n > 0; n-- {
		m := tapMsg{subject: hz.One(t, "to", "x", "x", "x.a", "x.b")}
		var b []byte
		switch hz.Int(t, 0, 10, "kind") {
		case 10: // a long line among others
			b = append(b, hz.One(t, "before", "", "cpu\n", "x\n\n")...)
			long := bytes.Repeat([]byte(hz.One(t, "long", words...)), 1<<20)
			b = append(append(b, long[:hz.One(t, "length", 3000, 4096, 5000, 65535, 65536, 70000, 300000, 1000000)]...), '\n')
			b = append(b, hz.One(t, "after", "", "cpu\n", "mem\nlast")...)
		case 0: // empty
		case 1:
			b = rapid.SliceOfN(hz.Bytes(40, '\n', '%', '\r', 's'), 0, 60).Draw(t, "bytes")
		case 2:
			b = bytes.Repeat([]byte(hz.One(t, "repeated", words...)+"\n"), hz.One(t, "times", 1000, 20000))
		default:
			for k := hz.One(t, "lines", 1, 2, 4, 10); k > 0; k-- {
				if hz.Chance(t, 20, "valid") {
					b = append(append(b, gen.Line(t, "id", gen.Opts{})...), '\n')
					continue
				}
				for w := hz.Int(t, 0, 4, "words"); w > 0; w-- {
					b = append(b, hz.One(t, "word", words...)...)
				}
				b = append(b, '\n')
			}
			if hz.Chance(t, 20, "unterminated") {
				b = b[:len(b)-1]
			}
		}
		m.data = b
		tp.msgs = append(tp.msgs, m)
	}
	if hz.Chance(t, 75, "expression") {
		tp.expr = hz.One(t, "expr", "cpu", "^cpu", "u$", "^$", "$", "^", ".", "^.$", "a.c", `a\.c`, "%", `%s`, `\\`, "(?i)cpu", "[0-9]+", "^[^%]*$", `\r`, "cpu|mem", "(cpu)(mem)", `\x00`, "ü", "^.{3}$", `\s$`, "nothing matches this", `"`, `\n`, "(?s)cpu.*$", "(?m)^mem", `\Acpu\z`, "a*", `\bv=1\b`, "()")
	}
	return tp
}

const tapFence = "~~~fence~~~"

func (tp *tapping) want() []byte {
	var rx *regexp.Regexp
	if tp.expr != "" {
		rx = regexp.MustCompile(tp.expr)
	}
	var out []byte
	for _, m := range tp.msgs {
		if !tp.takes(m.subject) {
			continue
		}
		rest := m.data
		for len(rest) > 0 {
			line := rest
			n := len(rest)
			if i := bytes.IndexByte(rest, '\n'); i >= 0 {
				line, n = rest[:i], i+1
			}
			if rx == nil || rx.Match(line) {
				out = append(out, rest[:n]...)
			}
			rest = rest[n:]
		}
	}
	return out
}

func (tp *tapping) run(srv *server.Server, nc *nats.Conn, wait time.Duration) error {
	prefix := sut.Unique() + "."
	args := []string{"-h", sut.URL(srv), "-s", prefix + tp.subject}
	if tp.expr != "" {
		args = append(args, "-e", "^"+tapFence+"$|(?:"+tp.expr+")")
	}
	p := sut.Run("influx-spout-tap", args...)
	defer p.Kill()
	if !sut.Until(wait, func() bool {
		subs, err := srv.Subsz(&server.SubszOptions{Subscriptions: true, Limit: 100000, Test: prefix + "x.a"})
		if err == nil && len(subs.Subs) > 0 {
			return true
		}
		subs, err = srv.Subsz(&server.SubszOptions{Subscriptions: true, Limit: 100000, Test: prefix + "x"})
		return err == nil && len(subs.Subs) > 0 || p.Exited(0)
	}) {
		return hz.Softf("the tap does not subscribe")
	}
	if p.Exited(0) {
		return fmt.Errorf("the tap exits: %s", crash(p.Stderr()))
	}
	for _, m := range tp.msgs {
		sut.Publish(nc, prefix+m.subject, m.data)
	}
	fence := tapFence + "\n"
	to := tp.subject
	if to == "x.*" || to == "x.>" {
		to = "x.a"
	}
	sut.Publish(nc, prefix+to, []byte(fence))
	sut.Flush(nc)
	want := append(tp.want(), fence...)
	end := time.Now().Add(wait)
	for n := len(want); ; n++ {
		in := p.WaitStdout(time.Until(end), n)
		got := p.Stdout()
		if bytes.HasSuffix(got, []byte(fence)) || !in {
			if !bytes.Equal(got, want) {
				return hz.Softf("the tap prints %.1000q instead of %.1000q", got, want)
			}
			break
		}
		n = len(got)
	}
	if p.Exited(0) {
		return fmt.Errorf("the tap exits: %s", crash(p.Stderr()))
	}
	return nil
}

func TestC35_Output(t *testing.T) {
	srv := sut.NewNATS()
	defer srv.Shutdown()
	nc := sut.Connect(srv)
	defer nc.Close()
	hz.Check(t, hz.Opts{Quick: 100, Thorough: 2000,
		Rule: "batches of eight influx-spout-tap programs, each with a generated subject, expression and messages (arbitrary bytes, format directives, blank, long and unterminated lines); the standard output must be exactly the bytes of the matching lines; non-trivial: an expression which matches some but not all lines, or a line with a format directive (each program is a case)"},
		func(c *hz.C) {
			var tps []*tapping
			for i := 0; i < 8; i++ {
				tp := genTapping(c.T)
				tps = append(tps, tp)
				n, directive := 0, false
				for _, m := range tp.msgs {
					if tp.takes(m.subject) {
						n += len(m.data)
						directive = directive || bytes.IndexByte(m.data, '%') >= 0
					}
				}
				w := len(tp.want())
				c.Sub(directive || w > 0 && w < n, tp.String())
			}
			c.Sample(func() string { return tps[0].String() })
			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				errs := make([]error, len(tps))
				var wg sync.WaitGroup
				for i, tp := range tps {
					wg.Add(1)
					go func() {
						defer wg.Done()
						errs[i] = tp.run(srv, nc, wait)
					}()
				}
				wg.Wait()
				return worst(errs, func(i int) string { return tps[i].String() })
			})
		})
}
