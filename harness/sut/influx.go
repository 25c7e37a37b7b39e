package sut

import (
	"bytes"
	"io"
	"net"
	"net/http"
	"net/url"
	"sync"
	"time"

	"verif/harness/hz"
)

// Outcome is how the fake InfluxDB treats a request.
type Outcome struct {
	Status   int           // respond with this (204 if 0)
	Location string        // where to, for a redirect
	Drop     bool          // close the connection without response
	Hang     bool          // don't respond until the client gives up
	Delay    time.Duration // before responding
}

// Ok tells whether the request is accepted.
func (o Outcome) Ok() bool { return !o.Drop && !o.Hang && (o.Status == 0 || o.Status/100 == 2) }

// Permanent tells whether it's refused for good.
func (o Outcome) Permanent() bool { return !o.Drop && !o.Hang && o.Status/100 == 4 }

// Request is a request received by the fake InfluxDB.
type Request struct {
	At       time.Time
	Done     time.Time // when it was responded to
	Method   string
	Path     string
	Host     string
	Query    url.Values
	RawQuery string
	User     string
	Pass     string
	HasAuth  bool
	Body     []byte
	BodyErr  error
	Outcome  Outcome
}

// Influx is a fake InfluxDB server.
type Influx struct {
	Port int
	srv  *http.Server
	quit chan struct{}

	mu     sync.Mutex
	cond   *sync.Cond
	reqs   []*Request
	active int
	decide func(n int, r *Request) Outcome
}

// HasIPv6 tells whether ::1 can be used.
func HasIPv6() bool {
	l, err := net.Listen("tcp", "[::1]:0")
	if err == nil {
		l.Close()
	}
	return err == nil
}

// NewInflux starts a server. decide is called for every request, one
// at a time, with its number; nil accepts everything.
func NewInflux(decide func(n int, r *Request) Outcome) *Influx {
	return NewInfluxOn("127.0.0.1", decide)
}

// NewInfluxOn is NewInflux for another local address.
func NewInfluxOn(ip string, decide func(n int, r *Request) Outcome) *Influx {
	l, err := net.Listen("tcp", net.JoinHostPort(ip, "0"))
	if err != nil {
		hz.Infra("listen: %v", err)
	}
	f := &Influx{Port: l.Addr().(*net.TCPAddr).Port, decide: decide, quit: make(chan struct{})}
	f.cond = sync.NewCond(&f.mu)
	f.srv = &http.Server{Handler: f}
	go f.srv.Serve(l)
	return f
}

// Close stops the server.
func (f *Influx) Close() {
	close(f.quit)
	f.srv.Close()
}

func (f *Influx) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, err := io.ReadAll(r.Body)
	req := &Request{At: time.Now(), Method: r.Method, Path: r.URL.Path, Host: r.Host,
		Query: r.URL.Query(), RawQuery: r.URL.RawQuery, Body: body, BodyErr: err}
	req.User, req.Pass, req.HasAuth = r.BasicAuth()

	f.mu.Lock()
	if f.decide != nil {
		req.Outcome = f.decide(len(f.reqs), req)
	}
	f.reqs = append(f.reqs, req)
	f.active++
	f.cond.Broadcast()
	f.mu.Unlock()

	defer func() {
		f.mu.Lock()
		req.Done = time.Now()
		f.active--
		f.cond.Broadcast()
		f.mu.Unlock()
	}()

	o := req.Outcome
	if o.Delay > 0 {
		select {
		case <-time.After(o.Delay):
		case <-f.quit:
		}
	}
	switch {
	case o.Drop:
		panic(http.ErrAbortHandler)
	case o.Hang:
		select {
		case <-r.Context().Done():
		case <-f.quit:
		}
		panic(http.ErrAbortHandler)
	case o.Status == 0:
		w.WriteHeader(http.StatusNoContent)
	default:
		if o.Location != "" {
			w.Header().Set("Location", o.Location)
		}
		w.WriteHeader(o.Status)
	}
}

// Wait waits until f is true for the requests so far.
func (f *Influx) Wait(d time.Duration, cond func([]*Request) bool) bool {
	expired := false
	t := time.AfterFunc(d, func() {
		f.mu.Lock()
		expired = true
		f.cond.Broadcast()
		f.mu.Unlock()
	})
	defer t.Stop()
	f.mu.Lock()
	defer f.mu.Unlock()
	for !cond(f.reqs) {
		if expired {
			return false
		}
		f.cond.Wait()
	}
	return true
}

// Reqs returns the requests so far.
func (f *Influx) Reqs() []*Request {
	f.mu.Lock()
	defer f.mu.Unlock()
	out := make([]*Request, len(f.reqs))
	for i, r := range f.reqs {
		c := *r
		out[i] = &c
	}
	return out
}

// Bodies joins the bodies of requests.
func Bodies(reqs []*Request) []byte {
	var b bytes.Buffer
	for _, r := range reqs {
		b.Write(r.Body)
	}
	return b.Bytes()
}
