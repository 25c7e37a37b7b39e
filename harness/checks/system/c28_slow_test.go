package system

import (
	"fmt"
	"net"
	"strings"
	"syscall"
	"testing"
	"time"

	"verif/harness/hz"
	"verif/harness/sut"
)

// Clients which don't read what they asked for.
func TestC28_Slow(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30, Thorough: 600,
		Rule: "a monitor has up to 12 MB of metrics, which some clients request without reading the response; updates must go on and be served to others; non-trivial: the response does not fit into the buffers of the connection"},
		func(c *hz.C) {
			mb := hz.One(c.T, "MB", 0, 1, 12, 12, 14)
			slow := hz.One(c.T, "slow clients", 1, 2, 10)
			read := hz.One(c.T, "bytes read", 0, 1, 5000, 100000)
			if mb == 0 {
				read = min(read, 1) // there is not more
			}
			updates := hz.Int(c.T, 1, 5, "updates")
			probe := hz.Chance(c.T, 50, "stop")
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				conf := sut.Config(sut.NATS(), "monitor", sut.Unique())
				comp := sut.MustStart(conf)
				stopped := false
				defer func() {
					if !stopped {
						sut.StopLater(comp, conf)
					}
				}()
				url := fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port)
				want := ""
				for i := 0; i < mb; i++ {
					line := fmt.Sprintf("big{n=\"%02d\",v=\"%s\"} %d\n", i, strings.Repeat("x", 1000000), i)
					want += line
					sut.Publish(sut.Conn(), conf.NATSSubjectMonitor, []byte(line))
				}
				for u := 0; u <= updates; u++ {
					line := fmt.Sprintf("update %d\n", u)
					sut.Publish(sut.Conn(), conf.NATSSubjectMonitor, []byte(line))
					sut.Flush(sut.Conn())
					var body string
					if !sut.Until(wait, func() bool {
						status := 0
						status, body, _ = httpGet(url)
						return status == 200 && body == want+line
					}) {
						return hz.Softf("/metrics is %d bytes ending in %q instead of %d bytes ending in %q after %d clients stalled", len(body), body[max(len(body)-30, 0):], len(want+line), line, u*slow)
					}
					if u == updates {
						break
					}
					for i := 0; i < slow; i++ {
						d := net.Dialer{Control: func(_, _ string, rc syscall.RawConn) error {
							return rc.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
						}}
						conn, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", conf.Port))
						if err != nil {
							return hz.Softf("can't connect")
						}
						defer conn.Close()
						fmt.Fprintf(conn, "GET /metrics HTTP/1.1\r\nHost: x\r\n\r\n")
						conn.SetReadDeadline(time.Now().Add(wait))
						conn.Read(make([]byte, 1))
						for n := 1; n < read; {
							k, err := conn.Read(make([]byte, read-n))
							if err != nil {
								break
							}
							n += k
						}
					}
				}
				if probe {
					done := make(chan struct{})
					go func() {
						sut.StopNow(comp, conf)
						close(done)
					}()
					stopped = true
					select {
					case <-done:
					case <-time.After(wait):
						return hz.Softf("a monitor does not stop while clients don't read")
					}
				}
				return nil
			})
			c.LabelIf(probe, "stopped")
			if mb > 10 {
				c.NonTrivial(fmt.Sprint(mb, slow, read, updates, probe))
			}
			c.Sample(func() string {
				return fmt.Sprintf("%d MB, %d clients which read %d bytes, %d updates", mb, slow, read, updates)
			})
		})
}
