package listener

import (
	"bytes"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/sut"
)

const maxMsg = 1 << 20

type datagram struct {
	data  []byte
	pause time.Duration
}

func TestC01_UDP(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 260, Thorough: 6000,
		Rule: "a UDP listener with generated batch limits gets a generated sequence of datagrams (empty to maximum size, with and without newlines, with pauses), and the joined published messages are compared with the newline-terminated datagrams; non-trivial: at least two datagrams, of which one has no final newline or more than 1400 bytes"},
		checkUDP)
}

func checkUDP(c *hz.C) {
	count := hz.One(c.T, "batch_max_count", 1, 2, 3, 5, 10, 30, 100)
	if hz.Chance(c.T, 2, "large count") {
		count = hz.One(c.T, "large count", 300, 1200)
	}
	size := sizeLimit(c.T, 1<<20, 1<<20, 65600, 70000, 130000, 300000)
	age := hz.One(c.T, "batch_max_age", time.Minute, time.Minute, 10*time.Millisecond, 50*time.Millisecond)
	var script []datagram
	unterminated, big, total := false, false, 0
	heavy := hz.Chance(c.T, 5, "heavy")
	for i := hz.Int(c.T, 1, 40, "datagrams"); i > 0; i-- {
		n := 65400
		if !heavy {
			n = hz.One(c.T, "size", 1, 1, 10, 60, 60, 200, 1400, 3000, 9000, 30000, 65400, 65507, 0)
		}
		var d datagram
		switch {
		case n == 0:
		case n == 65507:
			d.data = fill(65507, uint64(i))
			if hz.Chance(c.T, 50, "newline") {
				d.data[n-1] = '\n'
			}
		default:
			d.data = data(c.T, n, fmt.Sprintf("d%d", i))
			if len(d.data) > 65507 {
				d.data = d.data[:65507]
			}
		}
		if hz.Chance(c.T, 5, "pause") {
			d.pause = time.Duration(hz.Int(c.T, 1, 60, "ms")) * time.Millisecond
		}
		if len(d.data) > 0 && d.data[len(d.data)-1] != '\n' {
			unterminated = true
		}
		big = big || len(d.data) > 1400
		total += len(d.data)
		script = append(script, d)
	}
	if hz.Chance(c.T, 4, "many") {
		// Many small ones.
		for n := hz.One(c.T, "many", 100, 400, 1300); n > 0; n-- {
			b := fill(n*31%hz.Pick(90, 300)+1, uint64(n))
			if n%3 == 0 {
				b = append(b, '\n')
			}
			script = append(script, datagram{data: b})
			total += len(b) + 1
		}
		unterminated = true
	}

	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		conf := sut.Config(sut.NATS(), "listener", sut.Unique())
		conf.BatchMaxCount = count
		conf.BatchMaxSize = datasize.ByteSize(size)
		conf.BatchMaxAge = config.NewDuration(age)
		nc := sut.Conn()
		col := sut.Collect(nc, conf.NATSSubject[0])
		defer col.Close()
		m := sut.Watch(nc, conf.NATSSubjectMonitor)
		defer m.Close()
		l := sut.MustStart(conf)
		defer sut.StopLater(l, conf)
		u := sut.DialUDP(conf.Port, m)
		defer u.Close()

		var want []byte
		for _, d := range script {
			if err := u.Send(d.data, wait); err != nil {
				return err
			}
			want = append(want, d.data...)
			if len(d.data) > 0 && !bytes.HasSuffix(d.data, []byte("\n")) {
				want = append(want, '\n')
			}
			time.Sleep(d.pause)
		}
		fillers := strings.Repeat("F\n", count)
		for i := 0; i < count; i++ {
			if err := u.Send([]byte("F"), wait); err != nil {
				return err
			}
		}
		if err := u.Sync(wait); err != nil {
			return err
		}
		complete := col.WaitBytes(wait, len(want))
		if u.Dropped() > 0 {
			return hz.Softf("the kernel dropped datagrams")
		}
		sut.Flush(nc)
		col.Fence()
		var got []byte
		for _, msg := range col.Msgs() {
			if len(msg.Data) > maxMsg {
				return fmt.Errorf("a message has %d bytes", len(msg.Data))
			}
			if len(msg.Data) == 0 {
				return fmt.Errorf("an empty message was published")
			}
			if msg.Data[len(msg.Data)-1] != '\n' {
				return fmt.Errorf("a message does not end with a newline")
			}
			got = append(got, msg.Data...)
		}
		if !strings.HasPrefix(string(want)+fillers, string(got)) {
			return diff("published", got, append(want, fillers...))
		}
		if !complete || len(got) < len(want) {
			return hz.Softf("only %d of %d bytes were published", len(got), len(want))
		}
		if !m.Fresh(wait, "received") {
			return hz.Softf("no metrics")
		}
		if r := m.Get("received"); r != u.Sent() {
			return fmt.Errorf("received is %d after %d non-empty datagrams", r, u.Sent())
		}
		if m.Get("read_errors") != 0 || m.Get("failed_nats_publish") != 0 {
			return fmt.Errorf("failures were counted: %v", m.All())
		}
		return nil
	})

	c.LabelIf(age < time.Minute, "short age")
	c.LabelIf(unterminated, "without newline")
	c.LabelIf(big, "datagrams over 1400 bytes")
	c.LabelIf(total > maxMsg, "more than 1 MB in total")
	if len(script) > 1 && (unterminated || big) {
		var key []interface{}
		for _, d := range script {
			key = append(key, d.data)
		}
		c.NonTrivial(append(key, count, size, age)...)
	}
	c.Sample(func() string {
		s := fmt.Sprintf("count %d size %d age %v:", count, size, age)
		for _, d := range script {
			s += fmt.Sprintf(" %d:%.12q", len(d.data), d.data)
		}
		return s
	})
}

// diff describes the first difference of two byte strings.
func diff(what string, got, want []byte) error {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	cut := func(b []byte) []byte {
		lo, hi := max(0, i-20), min(len(b), i+60)
		if lo > hi {
			return nil
		}
		return b[lo:hi]
	}
	return fmt.Errorf("%s: %d bytes instead of %d; at byte %d there is\n %q instead of\n %q", what, len(got), len(want), i, cut(got), cut(want))
}
