package sut

import (
	"fmt"
	"io"
	"net"
	"strings"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"verif/harness/hz"
)

// Proxy forwards connections to a NATS server. What a client sends is
// delayed.
type Proxy struct {
	l net.Listener
}

// NewProxy creates a proxy.
func NewProxy(s *server.Server, delay time.Duration) *Proxy {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hz.Infra("listen: %v", err)
	}
	target := strings.TrimPrefix(URL(s), "nats://")
	go func() {
		for {
			client, err := l.Accept()
			if err != nil {
				return
			}
			go func() {
				defer client.Close()
				srv, err := net.Dial("tcp", target)
				if err != nil {
					return
				}
				defer srv.Close()
				go func() {
					io.Copy(client, srv)
					client.Close()
				}()
				buf := make([]byte, 32<<10)
				for {
					n, err := client.Read(buf)
					if n > 0 {
						time.Sleep(delay)
						if _, err := srv.Write(buf[:n]); err != nil {
							return
						}
					}
					if err != nil {
						return
					}
				}
			}()
		}
	}()
	return &Proxy{l}
}

// URL returns the address for clients.
func (p *Proxy) URL() string {
	return fmt.Sprintf("nats://127.0.0.1:%d", p.l.Addr().(*net.TCPAddr).Port)
}

// Close ends the proxy, but not its connections.
func (p *Proxy) Close() { p.l.Close() }
