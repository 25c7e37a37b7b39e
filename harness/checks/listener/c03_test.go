package listener

import (
	"bytes"
	"fmt"
	"net"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

func TestC03_Aborts(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 250, Thorough: 8000,
		Rule: "sequences of complete POSTs mixed with requests cut off (by FIN, RST or broken chunking) or stalled after any number of body bytes; the published lines are compared with those of the completed requests; non-trivial: at least one request is cut off or stalled while others complete"},
		checkAborts)
}

type httpOp struct {
	kind    string
	body    []byte
	cut     int  // body bytes sent
	rst     bool // how an aborted request ends
	chunked bool
	query   string
	finish  bool // whether a stalled request completes after all
	see     bool // wait for the lines of the request
}

// raw opens a connection and sends a part of a request.
func raw(port int, op httpOp) (net.Conn, error) {
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 10*time.Second)
	if err != nil {
		return nil, err
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "POST /write%s HTTP/1.1\r\nHost: x\r\n", op.query)
	if op.chunked {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		if op.cut > 0 {
			fmt.Fprintf(&b, "%x\r\n%s\r\n", op.cut, op.body[:op.cut])
		}
	} else {
		fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n", len(op.body))
		b.Write(op.body[:op.cut])
	}
	if _, err := conn.Write(b.Bytes()); err != nil {
		conn.Close()
		return nil, err
	}
	return conn, nil
}

func abort(conn net.Conn, op httpOp) {
	if op.kind == "broken" {
		conn.Write([]byte("zz\r\nxx\r\n"))
		conn.SetReadDeadline(time.Now().Add(5 * time.Second))
		conn.Read(make([]byte, 100))
	}
	if op.rst {
		// Let the server see what was sent before.
		time.Sleep(2 * time.Millisecond)
		conn.(*net.TCPConn).SetLinger(0)
	}
	conn.Close()
}

func finish(conn net.Conn, op httpOp) error {
	defer conn.Close()
	var b bytes.Buffer
	if op.chunked {
		if op.cut < len(op.body) {
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(op.body)-op.cut, op.body[op.cut:])
		}
		b.WriteString("0\r\n\r\n")
	} else {
		b.Write(op.body[op.cut:])
	}
	if _, err := conn.Write(b.Bytes()); err != nil {
		return err
	}
	conn.SetReadDeadline(time.Now().Add(30 * time.Second))
	resp := make([]byte, 12)
	_, err := conn.Read(resp)
	if err == nil && string(resp) != "HTTP/1.1 204" {
		return fmt.Errorf("the response was %q", resp)
	}
	return err
}

func checkAborts(c *hz.C) {
	count := hz.One(c.T, "batch_max_count", 1, 2, 3, 10, 100)
	age := hz.One(c.T, "batch_max_age", 10*time.Millisecond, 30*time.Millisecond)
	var ops []httpOp
	complete, faults := 0, 0
	// Perhaps many requests stall before, and all through, the others.
	if hz.Chance(c.T, 8, "crowd") {
		for i := hz.One(c.T, "stalled", 10, 20, 40, 70, 140, 300); i > 0; i-- {
			body := fmt.Appendf(nil, "c i=%d\n", i)
			ops = append(ops, httpOp{kind: "stall", body: body, cut: i % len(body), chunked: i%7 == 0, finish: i%2 == 0})
		}
		op := httpOp{kind: "post", body: []byte("p v=1\n"), see: true}
		ops = append(ops, op)
		complete++
		faults++
		c.Label("crowd")
	}
	for i := hz.Int(c.T, 1, 12, "ops"); i > 0; i-- {
		op := httpOp{kind: hz.One(c.T, "op", "post", "post", "post", "abort", "abort", "broken", "stall", "stall")}
		n := hz.One(c.T, "lines", 1, 1, 2, 5, 20, 3000)
		for l := 0; l < n; l++ {
			op.body = append(op.body, fmt.Sprintf("m,op=%d,l=%d v=%s 1500000000%09d\n", i, l, fill(10, uint64(i*n+l)), l)...)
		}
		if hz.Chance(c.T, 30, "unterminated") {
			op.body = op.body[:len(op.body)-1]
		}
		op.query = hz.One(c.T, "query", "", "", "?precision=ns", "?precision=u", "?precision=s")
		op.chunked = op.kind == "broken" || hz.Chance(c.T, 30, "chunked")
		switch op.kind {
		case "post":
			complete++
			op.see = hz.Chance(c.T, 30, "see")
		default:
			switch hz.One(c.T, "where", "any", "zero", "all but one", "line") {
			case "any":
				op.cut = hz.Int(c.T, 0, len(op.body)-1, "cut")
			case "all but one":
				op.cut = len(op.body) - 1
			case "line":
				op.cut = bytes.IndexByte(op.body, '\n') + 1
			}
			op.cut = min(op.cut, len(op.body)-1)
			op.rst = hz.Chance(c.T, 30, "rst")
			op.finish = op.kind == "stall" && hz.Chance(c.T, 50, "finish")
			faults++
		}
		ops = append(ops, op)
	}

	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		conf := sut.Config(sut.NATS(), "listener_http", sut.Unique())
		conf.BatchMaxCount = count
		conf.BatchMaxAge = config.NewDuration(age)
		nc := sut.Conn()
		col := sut.Collect(nc, conf.NATSSubject[0])
		defer col.Close()
		m := sut.Watch(nc, conf.NATSSubjectMonitor)
		defer m.Close()
		l := sut.MustStart(conf)
		defer sut.StopLater(l, conf)
		hc := httpClient()
		hc.Timeout = wait
		defer hc.CloseIdleConnections()
		published := func() []string { return split(sut.By(col.Msgs(), conf.NATSSubject[0])) }

		var order [][]string
		total, aborted, done := 0, 0, 0
		expect := func(op httpOp) {
			lines := split([][]byte{op.body, {'\n'}})
			for i, l := range lines {
				out, _, _ := convert([]byte(l), precisions[precOf(op.query)])
				lines[i] = string(out)
			}
			order = append(order, lines)
			total += len(lines)
			done++
		}
		type stalled struct {
			conn net.Conn
			op   httpOp
		}
		var stalls []stalled
		defer func() {
			for _, s := range stalls {
				s.conn.Close()
			}
		}()
		for i, op := range ops {
			switch op.kind {
			case "post":
				status, err := send(hc, conf.Port, op.query, op.body, op.chunked)
				if err != nil {
					return hz.Softf("POST (operation %d) with %d stalled requests failed", i, len(stalls))
				}
				if status != 204 {
					return fmt.Errorf("POST status is %d", status)
				}
				expect(op)
				if op.see {
					deadline := time.Now().Add(wait)
					for len(published()) < total {
						if time.Now().After(deadline) {
							_, err := compareLines(published(), order)
							if err == nil {
								err = hz.Softf("after operation %d, %d of %d lines are published, %d requests stall", i, len(published()), total, len(stalls))
							}
							return err
						}
						time.Sleep(2 * time.Millisecond)
					}
				}
			case "stall":
				conn, err := raw(conf.Port, op)
				if err != nil {
					return hz.Softf("connecting failed")
				}
				stalls = append(stalls, stalled{conn, op})
			default:
				conn, err := raw(conf.Port, op)
				if err != nil {
					return hz.Softf("connecting failed")
				}
				abort(conn, op)
				aborted++
			}
		}
		for len(stalls) > 0 {
			s := stalls[0]
			stalls = stalls[1:]
			if s.op.finish {
				if err := finish(s.conn, s.op); err != nil {
					return hz.Softf("completing a stalled request failed")
				}
				expect(s.op)
			} else {
				abort(s.conn, s.op)
				aborted++
			}
		}
		counted := m.WaitFor(wait, "read_errors", int64(aborted))
		deadline := time.Now().Add(wait)
		for len(published()) < total && time.Now().Before(deadline) {
			time.Sleep(2 * time.Millisecond)
		}
		time.Sleep(age + 3*time.Millisecond)
		col.Fence()
		all, err := compareLines(published(), order)
		if err != nil {
			return err
		}
		if !all {
			return hz.Softf("%d of %d lines were published", len(published()), total)
		}
		if !counted {
			return hz.Softf("read_errors is %d after %d incomplete requests", m.Get("read_errors"), aborted)
		}
		if !m.Fresh(wait, "received") {
			return hz.Softf("no metrics")
		}
		if m.Get("read_errors") != int64(aborted) || m.Get("received") != int64(done) {
			return fmt.Errorf("after %d complete and %d incomplete requests, received is %d and read_errors %d", done, aborted, m.Get("received"), m.Get("read_errors"))
		}
		return nil
	})
	for _, op := range ops {
		c.Label(op.kind)
	}
	if complete > 0 && faults > 0 {
		c.NonTrivial(count, age, fmt.Sprintf("%q", ops))
	}
	c.Sample(func() string {
		s := fmt.Sprintf("count %d:", count)
		for _, op := range ops {
			s += fmt.Sprintf(" %s(%d of %d%s)", op.kind, op.cut, len(op.body), op.query)
		}
		return s
	})
}

func precOf(query string) string {
	if len(query) > 11 {
		return query[11:]
	}
	return ""
}
