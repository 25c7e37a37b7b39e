package system

import (
	"bytes"
	"context"
	"fmt"
	"net"
	"net/http"
	"strings"
	"sync"
	"testing"
	"time"

	"verif/harness/hz"
	"verif/harness/sut"
)

var slowFailed bool

type slowRequest struct {
	method string
	path   string
	body   int
	at     time.Duration // when it is sent
	giveUp time.Duration // after sending it, 0 for never
}

func (q slowRequest) String() string {
	s := fmt.Sprintf("%s %s with %d bytes after %v", q.method, q.path, q.body, q.at)
	if q.giveUp > 0 {
		s += fmt.Sprintf(", given up after %v", q.giveUp)
	}
	return s
}

func (q slowRequest) slow() bool { return strings.SplitN(q.path, "?", 2)[0] == "/write" }

func TestC45_Slow(t *testing.T) {
	defer func() { slowFailed = t.Failed() }()
	hz.Check(t, hz.Opts{Quick: 60, Thorough: 1500,
		Rule: "slowinfluxd, started with a generated delay, gets generated requests at generated times on several connections; status and time of each response are checked; non-trivial: writes overlap in time"},
		func(c *hz.C) {
			delay := time.Duration(hz.One(c.T, "delay", 0, 50, 200, 400, 800)) * time.Millisecond
			var qs []slowRequest
			desc := fmt.Sprintf("delay %v", delay)
			writes := 0
			for n := hz.Int(c.T, 1, 25, "requests"); n > 0; n-- {
				q := slowRequest{
					method: hz.One(c.T, "method", "POST", "POST", "POST", "GET", "PUT"),
					path:   hz.One(c.T, "path", "/write", "/write?db=x", "/write?db=a%20b&precision=s", "/write?db=x", "/write?db=x", "/ping", "/", "/write/x", "/query?q=x"),
					body:   hz.One(c.T, "body", 0, 10, 1000, 100000),
					at:     time.Duration(hz.One(c.T, "at", 0, 0, 10, 60, 150)) * time.Millisecond,
				}
				if hz.Chance(c.T, 15, "give up") {
					q.giveUp = time.Duration(hz.One(c.T, "after", 1, 30, 100)) * time.Millisecond
				}
				if q.slow() {
					writes++
				}
				if len(qs) < 10 {
					desc += ", " + q.String()
				}
				qs = append(qs, q)
			}
			hz.Timed(c, 2*time.Second, func(wait time.Duration) error {
				if err := runSlow(fmt.Sprintf("-delay=%v", delay), delay, qs, wait); err != nil {
					return fmt.Errorf("%w: %s", err, desc)
				}
				return nil
			})
			if writes > 1 && delay != 0 {
				c.NonTrivial(desc)
			}
			c.Sample(func() string { return desc })
		})
}

func TestC45_Default(t *testing.T) {
	if slowFailed {
		t.Skip("TestC45_Slow has failed already")
	}
	hz.Check(t, hz.Opts{Quick: 1, Thorough: 4,
		Rule: "slowinfluxd, started without -delay, gets generated writes which overlap; responses come after 30 s; non-trivial: all"},
		func(c *hz.C) {
			var qs []slowRequest
			for n := hz.Int(c.T, 3, 10, "requests"); n > 0; n-- {
				qs = append(qs, slowRequest{
					method: "POST", path: hz.One(c.T, "path", "/write", "/write?db=x", "/write?db=x&precision=s"), body: hz.Int(c.T, 0, 1000, "body"),
					at: time.Duration(hz.Int(c.T, 0, 1000, "at")) * time.Millisecond,
				})
			}
			desc := fmt.Sprint(qs)
			// Not repeated, since it takes so long.
			if err := runSlow("", 30*time.Second, qs, 10*time.Second); err != nil {
				c.Fatalf("%v: %s", err, desc)
			}
			c.NonTrivial(desc)
			c.Sample(func() string { return desc })
		})
}

func runSlow(option string, delay time.Duration, qs []slowRequest, wait time.Duration) error {
	port := sut.FreePort()
	args := []string{fmt.Sprintf("-port=%d", port)}
	if option != "" {
		args = append(args, option)
	}
	p := sut.Run("slowinfluxd", args...)
	defer p.Kill()
	addr := fmt.Sprintf("127.0.0.1:%d", port)
	for end := time.Now().Add(20 * time.Second); ; {
		conn, err := net.Dial("tcp", addr)
		if err == nil {
			conn.Close()
			break
		}
		if p.Exited(time.Millisecond) {
			return hz.Softf("it ended: %s", p.Stderr())
		}
		if time.Now().After(end) {
			return hz.Softf("it does not listen")
		}
		time.Sleep(2 * time.Millisecond)
	}
	client := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 100}}
	defer client.CloseIdleConnections()
	errs := make([]error, len(qs))
	var wg sync.WaitGroup
	for i, q := range qs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(q.at)
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			most := wait
			if q.slow() && delay > 0 {
				most += delay
			}
			giveUp := most + time.Second
			if q.giveUp > 0 {
				giveUp = q.giveUp
			}
			timer := time.AfterFunc(giveUp, cancel)
			defer timer.Stop()
			req, err := http.NewRequestWithContext(ctx, q.method, "http://"+addr+q.path, bytes.NewReader(make([]byte, q.body)))
			if err != nil {
				hz.Infra("request: %v", err)
			}
			start := time.Now()
			resp, err := client.Do(req)
			took := time.Since(start)
			if err != nil {
				switch {
				case giveUp < most:
					// It was not to be expected.
				case ctx.Err() != nil:
					errs[i] = hz.Softf("no response to %s within %v", q, giveUp)
				default:
					errs[i] = hz.Softf("%s failed: %v", q, err)
				}
				return
			}
			resp.Body.Close()
			want := http.StatusNotFound
			if q.slow() {
				want = http.StatusNoContent
				if took < delay {
					errs[i] = fmt.Errorf("the response to %s took less than the delay", q)
					return
				}
			}
			switch {
			case resp.StatusCode != want:
				errs[i] = fmt.Errorf("the response to %s is %d", q, resp.StatusCode)
			case took > most:
				errs[i] = hz.Softf("the response to %s took %v", q, took)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
	if p.Exited(time.Millisecond) {
		return fmt.Errorf("it ended")
	}
	return nil
}
