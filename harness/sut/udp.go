package sut

import (
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"verif/harness/hz"
)

// UDP sends datagrams to a listener without overrunning it.
type UDP struct {
	conn    net.Conn
	port    int
	m       *Metrics
	n       int64 // non-empty datagrams sent
	pending int   // bytes since the last sync
	count   int   // datagrams since the last sync
}

// DialUDP connects to the UDP listener on a port.
func DialUDP(port int, m *Metrics) *UDP {
	conn, err := net.Dial("udp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		hz.Infra("%v", err)
	}
	return &UDP{conn: conn, port: port, m: m}
}

// Send sends a datagram.
func (u *UDP) Send(b []byte, wait time.Duration) error {
	if u.pending+len(b) > 100000 || u.count > 60 {
		if err := u.Sync(wait); err != nil {
			return err
		}
	}
	if _, err := u.conn.Write(b); err != nil {
		hz.Infra("UDP send: %v", err)
	}
	u.pending += len(b)
	u.count++
	if len(b) > 0 {
		u.n++
	}
	return nil
}

// Sent returns the number of non-empty datagrams sent.
func (u *UDP) Sent() int64 { return u.n }

// Sync waits until all datagrams were received.
func (u *UDP) Sync(wait time.Duration) error {
	if !u.m.WaitFor(wait, "received", u.n) {
		if u.Dropped() > 0 {
			return hz.Softf("the kernel dropped datagrams")
		}
		return hz.Softf("%d datagrams were sent but the received metric is %d", u.n, u.m.Get("received"))
	}
	u.pending, u.count = 0, 0
	return nil
}

// Dropped returns how many datagrams the kernel dropped.
func (u *UDP) Dropped() int {
	n := 0
	for _, fn := range []string{"/proc/net/udp", "/proc/net/udp6"} {
		b, err := os.ReadFile(fn)
		if err != nil {
			continue
		}
		for _, line := range strings.Split(string(b), "\n") {
			f := strings.Fields(line)
			if len(f) > 12 && strings.HasSuffix(f[1], fmt.Sprintf(":%04X", u.port)) {
				var d int
				fmt.Sscan(f[12], &d)
				n += d
			}
		}
	}
	return n
}

// Close closes the socket.
func (u *UDP) Close() { u.conn.Close() }
