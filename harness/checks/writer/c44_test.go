package writer

import (
	"crypto/tls"
	"crypto/x509"
	"encoding/base64"
	"fmt"
	"sync"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

// Certificates by what is special about them.
var certs map[string]*tls.Certificate

func makeCerts() {
	const day = 24 * time.Hour
	ca, unknown := sut.NewCA("trusted"), sut.NewCA("unknown")
	ca.Trust()
	server := x509.ExtKeyUsageServerAuth
	certs = map[string]*tls.Certificate{
		"both":      ca.Issue(-day, day, server, "127.0.0.1", "localhost"),
		"127.0.0.1": ca.Issue(-day, day, server, "127.0.0.1"),
		"localhost": ca.Issue(-day, day, server, "localhost", "influx.example.org"),
		"other":     ca.Issue(-day, day, server, "influx.example.org", "127.0.0.2"),
		"unknown":   unknown.Issue(-day, day, server, "127.0.0.1", "localhost"),
		"expired":   ca.Issue(-2*day, -day, server, "127.0.0.1", "localhost"),
		"future":    ca.Issue(day, 2*day, server, "127.0.0.1", "localhost"),
		"client":    ca.Issue(-day, day, x509.ExtKeyUsageClientAuth, "127.0.0.1", "localhost"),
		"plain":     nil, // no TLS at all
	}
}

type tlsStep struct {
	cert string
	good bool
	msgs int
}

func TestC44_TLS(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 150, Thorough: 6000,
		Rule: "a writer with influxdb_protocol https gets messages while a TLS server changes its certificate: valid for the configured host, for another, from an unknown issuer, expired, not yet valid, not for servers, or no TLS at all; non-trivial: something was to be delivered after at least one bad certificate"},
		func(c *hz.C) {
			host, other := "127.0.0.1", "localhost"
			if hz.Chance(c.T, 50, "by name") {
				host, other = other, host
			}
			var steps []tlsStep
			desc := "https://" + host
			bad, total := 0, 0
			retries := hz.One(c.T, "writer_retry_batches", 0, 100, 100)
			workers := hz.One(c.T, "workers", 1, 1, 3)
			add := func(good bool) {
				s := tlsStep{good: good, msgs: hz.Int(c.T, 1, 5, "messages")}
				if good {
					s.cert = hz.One(c.T, "certificate", "both", host)
				} else {
					s.cert = hz.One(c.T, "certificate", other, "other", "unknown", "expired", "future", "client", "plain")
					bad++
				}
				if s.cert == other {
					desc += ", certificate for the other name"
				} else {
					desc += ", " + s.cert
				}
				desc += fmt.Sprintf(": %d", s.msgs)
				total += s.msgs
				steps = append(steps, s)
			}
			for n := hz.Int(c.T, 0, 4, "steps"); n > 0; n-- {
				add(hz.Chance(c.T, 30, "good"))
			}
			add(true)
			user, pass := "", ""
			if hz.Chance(c.T, 80, "credentials") {
				user, pass = "user-of-the-db", "secret-of-the-user"
			}
			desc += fmt.Sprintf("; user %q, %d retry batches, %d workers", user, retries, workers)
			hz.Attempts(c, 5*time.Second, func(wait time.Duration) error {
				if err := runTLS(wait, host, user, pass, retries, workers, steps); err != nil {
					return fmt.Errorf("%w: %s", err, desc)
				}
				return nil
			})
			if bad > 0 {
				c.NonTrivial(desc)
			}
			c.LabelIf(retries == 0, "no retries")
			c.Sample(func() string { return desc })
		})
}

func runTLS(wait time.Duration, host, user, pass string, retries, workers int, steps []tlsStep) error {
	var mu sync.Mutex
	cert := steps[0].cert
	badConns := 0
	influx, seen := sut.NewInfluxTLS(nil, func() *tls.Certificate {
		mu.Lock()
		defer mu.Unlock()
		if cert != "both" && cert != host {
			badConns++
		}
		return certs[cert]
	})
	const db = "secret-database"
	r := startWith(influx, func(conf *config.Config) {
		conf.InfluxDBProtocol = "https"
		conf.InfluxDBAddress = host
		conf.DBName, conf.InfluxDBUser, conf.InfluxDBPass = db, user, pass
		conf.BatchMaxCount = 1
		conf.Workers = workers
		conf.WriterRetryBatches = retries
		conf.WriterRetryInterval = config.NewDuration(4 * time.Millisecond)
		conf.WriterRetryTimeout = config.NewDuration(10 * time.Minute)
	})
	defer r.close()

	id := 0
	failures := int64(0)
	want := map[string]bool{} // to be delivered
	for _, s := range steps {
		mu.Lock()
		cert = s.cert
		mu.Unlock()
		before := len(r.influx.Reqs())
		for i := 0; i < s.msgs; i++ {
			id++
			m := fmt.Sprintf("secret,i=%d f=1\n", id)
			if s.good || retries > 0 {
				want[m] = true
			}
			r.publish(0, []byte(m))
		}
		if !s.good {
			more := int64(s.msgs)
			if retries > 0 {
				more += 3
			}
			ok := r.m.Wait(wait, func(v map[string]int64) bool { return v["failed_writes"] >= failures+more })
			if n := len(r.influx.Reqs()); n != before {
				return fmt.Errorf("a server with a certificate which is not valid (%s) got the request %q", s.cert, r.influx.Reqs()[before].Body)
			}
			if !ok {
				return hz.Softf("failed_writes is %d, not %d, after writes to a server with a certificate which is not valid (%s)", r.m.Get("failed_writes"), failures+more, s.cert)
			}
		} else {
			r.influx.Wait(wait, func(q []*sut.Request) bool { return len(q) >= len(want) })
			got := map[string]bool{}
			for _, q := range r.influx.Reqs() {
				if !want[string(q.Body)] {
					return fmt.Errorf("%q was posted", q.Body)
				}
				if got[string(q.Body)] {
					return fmt.Errorf("%q was posted again", q.Body)
				}
				got[string(q.Body)] = true
				if err := checkRequest(q, host, r.influx.Port, db, user, pass, 100); err != nil {
					return err
				}
			}
			if len(got) < len(want) {
				return hz.Softf("%d of %d messages were posted while the certificate was valid", len(got), len(want))
			}
		}
		// All is quiet after a good certificate.
		ok := !s.good || r.m.Wait(wait, func(v map[string]int64) bool {
			mu.Lock()
			defer mu.Unlock()
			return v["received"] == int64(id) && v["failed_writes"] == int64(badConns) && v["write_requests"] == int64(badConns+len(want))
		})
		if !ok {
			mu.Lock()
			defer mu.Unlock()
			return hz.Softf("after %d messages, %d failed handshakes and %d requests, received is %d, failed_writes %d and write_requests %d",
				id, badConns, len(want), r.m.Get("received"), r.m.Get("failed_writes"), r.m.Get("write_requests"))
		}
		failures = r.m.Get("failed_writes")
	}
	for _, text := range []string{"secret", "Basic", "POST", base64.StdEncoding.EncodeToString([]byte(user + ":" + pass))[:10*min(1, len(user))]} {
		if text != "" && seen.Contains(text) {
			return fmt.Errorf("%q was sent unencrypted", text)
		}
	}
	return nil
}
