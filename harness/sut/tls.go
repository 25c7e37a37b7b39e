package sut

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"

	"verif/harness/hz"
)

// CA is a certification authority.
type CA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

func must[T any](v T, err error) T {
	if err != nil {
		hz.Infra("certificates: %v", err)
	}
	return v
}

var serial int64 = 1000

func nextSerial() *big.Int {
	serial++
	return big.NewInt(serial)
}

// NewCA makes a certification authority.
func NewCA(name string) *CA {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-24 * time.Hour), NotAfter: time.Now().Add(240 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der := must(x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key))
	return &CA{cert: must(x509.ParseCertificate(der)), key: key}
}

// Issue makes a certificate for names and addresses.
func (ca *CA) Issue(from, to time.Duration, usage x509.ExtKeyUsage, hosts ...string) *tls.Certificate {
	key := must(ecdsa.GenerateKey(elliptic.P256(), rand.Reader))
	t := &x509.Certificate{SerialNumber: nextSerial(), Subject: pkix.Name{CommonName: hosts[0]},
		NotBefore: time.Now().Add(from), NotAfter: time.Now().Add(to),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{usage}}
	for _, h := range hosts {
		if ip := net.ParseIP(h); ip != nil {
			t.IPAddresses = append(t.IPAddresses, ip)
		} else {
			t.DNSNames = append(t.DNSNames, h)
		}
	}
	issuer, signer := ca.cert, ca.key
	der := must(x509.CreateCertificate(rand.Reader, t, issuer, &key.PublicKey, signer))
	return &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
}

// Trust makes ca the only one this process trusts. To be called
// before anything is verified.
func (ca *CA) Trust() {
	dir := must(os.MkdirTemp("", "verif-roots"))
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "roots.pem")
	if err := os.WriteFile(file, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: ca.cert.Raw}), 0o600); err != nil {
		hz.Infra("certificates: %v", err)
	}
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "none"))
	must(x509.SystemCertPool()) // reads the file, only once
}

// NewInfluxTLS is NewInflux for a server which uses TLS, or what it
// looks like. cert is called for each connection; without a
// certificate, the connection isn't encrypted by the server. Every
// request needs its own connection.
func NewInfluxTLS(decide func(n int, r *Request) Outcome, cert func() *tls.Certificate) (*Influx, *Seen) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		hz.Infra("listen: %v", err)
	}
	f := &Influx{Port: l.Addr().(*net.TCPAddr).Port, decide: decide, quit: make(chan struct{})}
	f.cond = sync.NewCond(&f.mu)
	seen := &Seen{}
	f.srv = &http.Server{Handler: f, ErrorLog: log.New(io.Discard, "", 0)}
	f.srv.SetKeepAlivesEnabled(false)
	go f.srv.Serve(&tlsListener{Listener: l, cert: cert, seen: seen})
	return f, seen
}

// Seen is what clients sent, before decryption.
type Seen struct {
	mu    sync.Mutex
	conns int
	data  bytes.Buffer
}

// Conns is the number of connections.
func (s *Seen) Conns() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.conns
}

// Contains tells whether some text was sent.
func (s *Seen) Contains(text string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return bytes.Contains(s.data.Bytes(), []byte(text))
}

type tlsListener struct {
	net.Listener
	cert func() *tls.Certificate
	seen *Seen
}

func (l *tlsListener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	l.seen.mu.Lock()
	l.seen.conns++
	l.seen.mu.Unlock()
	c = &seenConn{c, l.seen}
	if cert := l.cert(); cert != nil {
		return tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}}), nil
	}
	return c, nil
}

type seenConn struct {
	net.Conn
	seen *Seen
}

func (c *seenConn) Read(b []byte) (int, error) {
	n, err := c.Conn.Read(b)
	c.seen.mu.Lock()
	c.seen.data.Write(b[:n])
	c.seen.mu.Unlock()
	return n, err
}
