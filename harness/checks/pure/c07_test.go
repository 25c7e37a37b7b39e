package pure

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/batch"
	"pgregory.net/rapid"

	"verif/harness/hz"
)

// scriptedReader returns what it is told. Like for a UDP socket, bytes
// of a read which don't fit in the buffer are lost.
type scriptedReader struct {
	steps []readStep
	calls int
}

type readStep struct {
	data []byte
	err  error
}

func (r *scriptedReader) Read(p []byte) (int, error) {
	r.calls++
	if len(r.steps) == 0 {
		return 0, io.EOF
	}
	s := r.steps[0]
	r.steps = r.steps[1:]
	return copy(p, s.data), s.err
}

var errRead = errors.New("read failed")

func drawData(c *hz.C, label string) []byte {
	n := 0
	switch hz.One(c.T, label+" size", "small", "small", "none", "medium", "large", "huge") {
	case "small":
		n = hz.Int(c.T, 1, 20, "n")
	case "medium":
		n = hz.Int(c.T, 1000, 20000, "n")
	case "large":
		n = hz.One(c.T, "n", 65507, 65506, 65000, 60000, 32768)
	case "huge":
		n = hz.One(c.T, "n", 65536, 65537, 131072, 200000)
	}
	out := make([]byte, n)
	start := hz.Int(c.T, 0, 255, "start")
	for i := range out {
		out[i] = byte(start + i*3 + i/250)
	}
	if n > 0 && hz.Chance(c.T, 50, "newline") {
		out[n-1] = '\n'
	}
	return out
}

func TestC07_Model(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 6000, Thorough: 200000,
		Rule: "histories of operations (append, read, read once, newline, reset, wait, copy) compared with a byte slice, a counter and a fake clock after every step; non-trivial: at least 4 operations, one of which writes, or growth beyond the capacity"},
		func(c *hz.C) { rapid.SyncTest(c.T, func(*rapid.T) { checkBatch(c) }) })
}

func checkBatch(c *hz.C) {
	capacity := hz.One(c.T, "capacity", 0, 1, 10, 4096, 65536, 65537, 131072, 1<<20)
	b := batch.New(capacity)
	var (
		model  []byte
		writes int
		first  time.Time
		copies [][2][]byte
		trace  []string
		grown  bool
		wrote  bool
	)
	wrote = false
	write := func(data []byte) {
		if writes == 0 {
			first = time.Now()
		}
		writes++
		model = append(model, data...)
		wrote = true
	}
	verify := func(op string) {
		if b.Size() != len(model) {
			c.Fatalf("after %s: size %d, want %d", op, b.Size(), len(model))
		}
		if !bytes.Equal(b.Bytes(), model) {
			c.Fatalf("after %s: wrong bytes", op)
		}
		if b.Writes() != writes {
			c.Fatalf("after %s: %d writes, want %d", op, b.Writes(), writes)
		}
		age := time.Duration(0)
		if writes > 0 {
			age = time.Since(first)
		}
		if b.Age() != age {
			c.Fatalf("after %s: age %v, want %v", op, b.Age(), age)
		}
		if b.Remaining() < 0 {
			c.Fatalf("after %s: remaining %d", op, b.Remaining())
		}
		for _, cp := range copies {
			if !bytes.Equal(cp[0], cp[1]) {
				c.Fatalf("after %s: an earlier copy has changed", op)
			}
		}
		if len(model) > capacity {
			grown = true
		}
	}
	verify("New")

	n := hz.Int(c.T, 1, 25, "ops")
	for i := 0; i < n; i++ {
		op := hz.One(c.T, "op", "append", "append", "readonce", "readonce", "readfrom", "newline", "newline", "wait", "copy", "reset")
		desc := op
		switch op {
		case "append":
			data := drawData(c, "append")
			write(data)
			b.Append(data)
			for i := range data {
				data[i] ^= 0xff // the batch must not refer to it
			}
			desc = fmt.Sprintf("append %d", len(data))
			c.LabelIf(len(data) == 0, "append of nothing")
		case "readonce":
			data := drawData(c, "datagram")
			if len(data) > 65507 {
				data = data[:65507]
			}
			err := hz.One(c.T, "err", nil, nil, nil, io.EOF, errRead)
			r := &scriptedReader{steps: []readStep{{data, err}, {[]byte("unwanted"), nil}}}
			n, gotErr := b.ReadOnceFrom(r)
			if r.calls != 1 {
				c.Fatalf("ReadOnceFrom read %d times", r.calls)
			}
			wantErr := err
			if err == io.EOF {
				wantErr = nil
			}
			if n != len(data) || gotErr != wantErr {
				c.Fatalf("ReadOnceFrom returned %d, %v, want %d, %v", n, gotErr, len(data), wantErr)
			}
			if len(data) > 0 {
				write(data)
			}
			desc = fmt.Sprintf("readonce %d %v", len(data), err)
			c.LabelIf(len(data) == 0, "empty read")
			c.LabelIf(len(data) > 0 && err != nil, "read of data together with an error")
			c.LabelIf(len(data) > 65000, "maximum size datagram")
		case "readfrom":
			var steps []readStep
			var all []byte
			for k := hz.Int(c.T, 0, 4, "reads"); k > 0; k-- {
				data := drawData(c, "part")
				if len(data) > 65507 {
					data = data[:65507]
				}
				steps = append(steps, readStep{data, nil})
				all = append(all, data...)
			}
			err := hz.One(c.T, "err", io.EOF, io.EOF, errRead)
			if len(steps) > 0 && hz.Chance(c.T, 40, "error with data") {
				steps[len(steps)-1].err = err
				c.Label("read of data together with an error")
			} else {
				steps = append(steps, readStep{nil, err})
			}
			r := &scriptedReader{steps: append(steps, readStep{[]byte("unwanted"), io.EOF})}
			n, gotErr := b.ReadFrom(r)
			if len(r.steps) != 1 {
				c.Fatalf("ReadFrom read too much or too little: %d reads left", len(r.steps)-1)
			}
			wantErr := err
			if err == io.EOF {
				wantErr = nil
			}
			if n != int64(len(all)) || gotErr != wantErr {
				c.Fatalf("ReadFrom returned %d, %v, want %d, %v", n, gotErr, len(all), wantErr)
			}
			if len(all) > 0 {
				write(all)
			}
			desc = fmt.Sprintf("readfrom %d %v", len(all), err)
		case "newline":
			b.EnsureNewline()
			if len(model) > 0 && model[len(model)-1] != '\n' {
				model = append(model, '\n')
				c.Label("newline added")
			} else {
				c.Label("newline not needed")
			}
		case "reset":
			b.Reset()
			model, writes = nil, 0
			c.LabelIf(wrote, "reset after writes")
		case "wait":
			d := time.Duration(hz.Int(c.T, 1, 5000, "ms")) * time.Millisecond
			time.Sleep(d)
			desc = fmt.Sprintf("wait %v", d)
		case "copy":
			cp := b.CopyBytes()
			if !bytes.Equal(cp, model) {
				c.Fatalf("wrong copy")
			}
			copies = append(copies, [2][]byte{cp, append([]byte(nil), cp...)})
			if len(cp) > 0 && hz.Chance(c.T, 30, "modify the copy") {
				cp[0] ^= 0xff
				copies[len(copies)-1][1][0] ^= 0xff
			}
		}
		trace = append(trace, desc)
		verify(op)
	}

	c.LabelIf(grown, "grown beyond the initial capacity")
	c.Label("initial capacity %d", capacity)
	if wrote && (n >= 4 || grown) {
		c.NonTrivial(capacity, strings.Join(trace, ";"), model)
	}
	c.Sample(func() string { return fmt.Sprintf("capacity %d: %s", capacity, strings.Join(trace, "; ")) })
}
