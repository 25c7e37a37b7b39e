// Package sut starts the components under test and the servers they
// talk to, and observes what comes out of them.
package sut

import (
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/nats-io/nats-server/v2/server"
	"github.com/nats-io/nats.go"

	"verif/harness/hz"
)

var (
	natsOnce sync.Once
	natsSrv  *server.Server
	caseSeq  int64
	portSeq  int64
)

// NATS returns the NATS server of this process, starting it if needed.
func NATS() *server.Server {
	natsOnce.Do(func() { natsSrv = NewNATS() })
	return natsSrv
}

// NewNATS starts a NATS server on a port of its own.
func NewNATS() *server.Server { return NewNATSWith(0) }

// NewNATSWith starts a NATS server with a limit of the size of messages.
func NewNATSWith(maxPayload int) *server.Server {
	for i := 0; i < 10; i++ {
		s, err := server.NewServer(&server.Options{
			Host: "127.0.0.1", Port: server.RANDOM_PORT,
			NoLog: true, NoSigs: true, MaxControlLine: 4096,
			WriteDeadline: 60 * time.Second, MaxPending: 1 << 30, MaxPayload: int32(maxPayload),
		})
		if err != nil {
			hz.Infra("NATS: %v", err)
		}
		go s.Start()
		if s.ReadyForConnections(10 * time.Second) {
			return s
		}
		s.Shutdown()
	}
	hz.Infra("NATS server did not start")
	return nil
}

// URL returns the address of a server.
func URL(s *server.Server) string {
	return fmt.Sprintf("nats://%s", s.Addr().String())
}

// Unique returns a prefix for subjects that was not used before.
func Unique() string {
	return fmt.Sprintf("u%d", atomic.AddInt64(&caseSeq, 1))
}

// FreePort returns a port which is free for TCP and UDP. The ports are
// outside of the range the kernel picks from.
func FreePort() int {
	for i := 0; i < 5000; i++ {
		p := 18000 + int((atomic.AddInt64(&portSeq, 1)+portBase)%14000)
		if !PortFree(p) {
			continue
		}
		return p
	}
	hz.Infra("no free port")
	return 0
}

var portBase = time.Now().UnixNano() / 1000 % 14000

// PortFree tells whether a port can be bound, by TCP and by UDP.
func PortFree(p int) bool {
	l, err := net.Listen("tcp", fmt.Sprintf(":%d", p))
	if err != nil {
		return false
	}
	l.Close()
	u, err := net.ListenUDP("udp", &net.UDPAddr{Port: p})
	if err != nil {
		return false
	}
	u.Close()
	return true
}

// Connect returns a connection to a server.
func Connect(s *server.Server) *nats.Conn {
	var err error
	for i := 0; i < 5; i++ {
		var nc *nats.Conn
		nc, err = nats.Connect(URL(s), nats.Timeout(10*time.Second), nats.Name("harness"))
		if err == nil {
			return nc
		}
	}
	hz.Infra("NATS: %v", err)
	return nil
}

var (
	connOnce sync.Once
	conn     *nats.Conn
)

// Conn returns the harness' own connection to NATS().
func Conn() *nats.Conn {
	connOnce.Do(func() { conn = Connect(NATS()) })
	return conn
}

// Msg is a message as received by a collector.
type Msg struct {
	Subject string
	Data    []byte
	At      time.Time
}

// Collector records all the messages on some subjects.
type Collector struct {
	nc   *nats.Conn
	subs []*nats.Subscription
	subj []string

	mu     sync.Mutex
	cond   *sync.Cond
	msgs   []Msg
	fences map[string]int
	nfence int
}

const fencePrefix = "\x00FENCE\x00"

// Collect starts recording what is published to the subjects.
func Collect(nc *nats.Conn, subjects ...string) *Collector {
	c := &Collector{nc: nc, fences: map[string]int{}}
	c.cond = sync.NewCond(&c.mu)
	seen := map[string]bool{}
	for _, s := range subjects {
		if seen[s] {
			continue
		}
		seen[s] = true
		sub, err := nc.Subscribe(s, c.receive)
		if err != nil {
			hz.Infra("subscribe: %v", err)
		}
		sub.SetPendingLimits(-1, -1)
		c.subs = append(c.subs, sub)
		c.subj = append(c.subj, s)
	}
	if err := nc.FlushTimeout(30 * time.Second); err != nil {
		hz.Infra("flush: %v", err)
	}
	return c
}

func (c *Collector) receive(m *nats.Msg) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(m.Data) > len(fencePrefix) && string(m.Data[:len(fencePrefix)]) == fencePrefix {
		c.fences[m.Subject+string(m.Data)]++
	} else {
		c.msgs = append(c.msgs, Msg{m.Subject, m.Data, time.Now()})
	}
	c.cond.Broadcast()
}

// Close stops recording.
func (c *Collector) Close() {
	for _, s := range c.subs {
		s.Unsubscribe()
	}
}

// Fence waits until everything the server received so far has arrived.
func (c *Collector) Fence() {
	c.mu.Lock()
	c.nfence++
	f := fmt.Sprintf("%s%p-%d", fencePrefix, c, c.nfence)
	c.mu.Unlock()
	for _, s := range c.subj {
		if err := c.nc.Publish(s, []byte(f)); err != nil {
			hz.Infra("fence: %v", err)
		}
	}
	if !c.waitLocked(60*time.Second, func() bool {
		for _, s := range c.subj {
			if c.fences[s+f] == 0 {
				return false
			}
		}
		return true
	}) {
		hz.Infra("the fence did not arrive")
	}
}

func (c *Collector) waitLocked(d time.Duration, f func() bool) bool {
	expired := false
	t := time.AfterFunc(d, func() {
		c.mu.Lock()
		expired = true
		c.cond.Broadcast()
		c.mu.Unlock()
	})
	defer t.Stop()
	c.mu.Lock()
	defer c.mu.Unlock()
	for !f() {
		if expired {
			return false
		}
		c.cond.Wait()
	}
	return true
}

// Wait waits until f is true for the messages received so far.
func (c *Collector) Wait(d time.Duration, f func([]Msg) bool) bool {
	return c.waitLocked(d, func() bool { return f(c.msgs) })
}

// WaitBytes waits until at least n bytes were received.
func (c *Collector) WaitBytes(d time.Duration, n int) bool {
	return c.Wait(d, func(ms []Msg) bool { return Size(ms) >= n })
}

// Size adds up the sizes of messages.
func Size(ms []Msg) int {
	n := 0
	for _, m := range ms {
		n += len(m.Data)
	}
	return n
}

// Msgs returns the messages received so far.
func (c *Collector) Msgs() []Msg {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]Msg(nil), c.msgs...)
}

// Reset forgets the messages received so far.
func (c *Collector) Reset() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.msgs = nil
}

// By returns the messages of one subject.
func By(ms []Msg, subject string) [][]byte {
	var out [][]byte
	for _, m := range ms {
		if m.Subject == subject {
			out = append(out, m.Data)
		}
	}
	return out
}

// Publish sends a message and makes sure that the server has it.
func Publish(nc *nats.Conn, subject string, data []byte) {
	if err := nc.Publish(subject, data); err != nil {
		hz.Infra("publish: %v", err)
	}
}

// Flush waits until the server has processed all that was published.
func Flush(nc *nats.Conn) {
	if err := nc.FlushTimeout(60 * time.Second); err != nil {
		hz.Infra("flush: %v", err)
	}
}
