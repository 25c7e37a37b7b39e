package sut

import (
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"verif/harness/hz"
)

// Link is a way to a NATS server which can be interrupted.
type Link struct {
	target string
	port   int

	mu    sync.Mutex
	l     net.Listener
	down  bool
	hang  bool
	conns map[net.Conn]bool
	ended bool
	stall chan struct{} // closed when nothing is held back
}

// NewLink creates a link which works.
func NewLink(s *server.Server) *Link {
	k := &Link{target: strings.TrimPrefix(URL(s), "nats://"), port: FreePort(), conns: map[net.Conn]bool{}}
	for i := 0; k.l == nil; i++ {
		if k.listen() == nil {
			break
		}
		if i > 20 {
			hz.Infra("no port for a link")
		}
		k.port = FreePort()
	}
	return k
}

func (k *Link) listen() error {
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", k.port))
	if err != nil {
		return err
	}
	k.l = l
	go k.accept(l)
	return nil
}

func (k *Link) accept(l net.Listener) {
	for {
		client, err := l.Accept()
		if err != nil {
			return
		}
		k.mu.Lock()
		if k.ended || k.down && !k.hang {
			k.mu.Unlock()
			client.Close()
			continue
		}
		k.conns[client] = true
		hang := k.down
		k.mu.Unlock()
		if !hang {
			go k.serve(client)
		}
	}
}

func (k *Link) serve(client net.Conn) {
	defer client.Close()
	srv, err := net.Dial("tcp", k.target)
	if err != nil {
		return
	}
	k.mu.Lock()
	if !k.conns[client] {
		// Cut meanwhile.
		k.mu.Unlock()
		srv.Close()
		return
	}
	k.conns[srv] = true
	k.mu.Unlock()
	done := make(chan struct{}, 2)
	go func() {
		io.Copy(client, srv)
		done <- struct{}{}
	}()
	go func() {
		client.(*net.TCPConn).SetReadBuffer(64 << 10)
		buf := make([]byte, 32<<10)
		for {
			n, err := client.Read(buf)
			if n > 0 {
				k.mu.Lock()
				stall := k.stall
				k.mu.Unlock()
				if stall != nil {
					<-stall
				}
				if _, err := srv.Write(buf[:n]); err != nil {
					break
				}
			}
			if err != nil {
				break
			}
		}
		done <- struct{}{}
	}()
	<-done
	client.Close()
	srv.Close()
	<-done
	k.mu.Lock()
	delete(k.conns, client)
	delete(k.conns, srv)
	k.mu.Unlock()
}

// Kinds of interruptions: new connections are refused, closed at once,
// or accepted without ever answering.
var LinkKinds = []string{"refuse", "close", "hang"}

// Down interrupts the link.
func (k *Link) Down(kind string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.down = true
	k.hang = kind == "hang"
	if kind == "refuse" && k.l != nil {
		k.l.Close()
		k.l = nil
	}
	k.cut()
}

func (k *Link) cut() {
	for c := range k.conns {
		if t, ok := c.(*net.TCPConn); ok {
			t.SetLinger(0)
		}
		c.Close()
		delete(k.conns, c)
	}
}

// Up makes the link work again.
func (k *Link) Up() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.down, k.hang = false, false
	k.cut()
	for i := 0; k.l == nil; i++ {
		if k.listen() == nil {
			return
		}
		if i > 100 {
			hz.Infra("the port of a link is taken")
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// Stall holds back what clients send, until Resume.
func (k *Link) Stall() {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.stall == nil {
		k.stall = make(chan struct{})
	}
}

// Resume ends a Stall.
func (k *Link) Resume() {
	k.mu.Lock()
	defer k.mu.Unlock()
	if k.stall != nil {
		close(k.stall)
		k.stall = nil
	}
}

// URL returns the address for clients.
func (k *Link) URL() string { return fmt.Sprintf("nats://127.0.0.1:%d", k.port) }

// Close ends the link for good.
func (k *Link) Close() {
	k.mu.Lock()
	defer k.mu.Unlock()
	k.ended = true
	if k.stall != nil {
		close(k.stall)
		k.stall = nil
	}
	if k.l != nil {
		k.l.Close()
		k.l = nil
	}
	k.cut()
}
