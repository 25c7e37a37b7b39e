package pure

import (
	"bytes"
	"fmt"
	"math"
	"testing"

	"github.com/c2h5oh/datasize"
	"github.com/jumptrading/influx-spout/v2/batchsplitter"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/ref"
)

// fill makes a line of n bytes (including the newline) whose content
// depends on its position.
func fill(out []byte, n int, nl bool) []byte {
	for i := 0; i < n-1; i++ {
		out = append(out, byte('a'+(len(out)*7+len(out)/26)%26))
	}
	if nl {
		return append(out, '\n')
	}
	return append(out, 'Z')
}

func describeChunks(cs [][]byte) string {
	s := ""
	for i, c := range cs {
		if i == 20 {
			return s + "..."
		}
		s += fmt.Sprintf("%d ", len(c))
	}
	return s
}

func checkSplit(c *hz.C, buf []byte, limit uint64) {
	want := ref.Split(buf, limit)
	orig := append([]byte(nil), buf...)

	s := batchsplitter.New(buf, datasize.ByteSize(limit))
	var got [][]byte
	for s.Next() {
		got = append(got, append([]byte(nil), s.Chunk()...))
		if len(got) > len(want)+2 {
			c.Fatalf("too many chunks for %d bytes with limit %d: %s..., want %s", len(buf), limit, describeChunks(got), describeChunks(want))
		}
	}
	if s.Next() {
		c.Fatalf("Next returned true after the end")
	}
	if !bytes.Equal(buf, orig) {
		c.Fatalf("the buffer was modified")
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || !bytes.Equal(got[i], want[i]) {
			c.Fatalf("%d bytes with limit %d: wrong chunks: lengths %s, want %s (first difference in chunk %d)",
				len(buf), limit, describeChunks(got), describeChunks(want), i)
		}
	}

	c.LabelIf(len(want) == 0, "empty buffer")
	c.LabelIf(len(want) == 1, "one chunk")
	c.LabelIf(len(want) > 1, "several chunks")
	for _, w := range want {
		c.LabelIf(uint64(len(w)) == limit, "chunk of exactly the limit")
		c.LabelIf(w[len(w)-1] != '\n', "chunk without newline at the end")
	}
	for i := range want {
		if i > 0 && want[i-1][len(want[i-1])-1] != '\n' {
			c.Label("long line cut")
		}
	}
	if len(want) > 1 {
		c.NonTrivial(limit, buf)
	}
	c.Sample(func() string {
		return fmt.Sprintf("limit %d, buffer of %d bytes, chunks %s", limit, len(buf), describeChunks(want))
	})
}

// Lines whose lengths are chosen relative to the limit.
func TestC06_Lines(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30000, Thorough: 1000000,
		Rule: "buffers made of lines with lengths around fractions and multiples of the limit; non-trivial: more than one chunk"},
		func(c *hz.C) {
			limit := hz.One(c.T, "kind", 1, 2, 3, 7, 16, 100, 1000)
			if hz.Chance(c.T, 30, "any limit") {
				limit = hz.Int(c.T, 1, 300, "limit")
			}
			var buf []byte
			lines := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) int {
				base := hz.One(t, "base", 1, limit/3, limit/2, limit, limit, 2*limit, 3*limit)
				n := base + hz.Int(t, -2, 2, "offset")
				if n < 1 {
					n = 1
				}
				return n
			}), 0, 12).Draw(c.T, "lines")
			for i, n := range lines {
				nl := true
				if i == len(lines)-1 {
					nl = hz.Chance(c.T, 60, "final newline")
				}
				buf = fill(buf, n, nl)
			}
			checkSplit(c, buf, uint64(limit))
		})
}

// Arbitrary bytes with many newlines, also blank lines, any limit.
func TestC06_Bytes(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 30000, Thorough: 1000000,
		Rule: "arbitrary bytes rich in newlines; non-trivial: more than one chunk"},
		func(c *hz.C) {
			buf := rapid.SliceOfN(hz.Bytes(10, '\n', 'a', 0, '\r', 0xff), 0, 80).Draw(c.T, "buf")
			limit := uint64(hz.Int(c.T, 1, 90, "limit"))
			if hz.Chance(c.T, 5, "huge") {
				limit = hz.One(c.T, "huge limit", uint64(math.MaxUint64), math.MaxInt64, math.MaxInt64+1, 1<<40, 1<<32)
			}
			checkSplit(c, buf, limit)
		})
}

// The sizes which are used in production.
func TestC06_Large(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60, Thorough: 2000,
		Rule: "buffers of several MB made of runs of equally long lines, limits about 64 KB to 10 MB; non-trivial: more than one chunk"},
		func(c *hz.C) {
			limit := hz.One(c.T, "limit", 1<<20, 1<<20, 1<<16, 65535, 1<<20-1, 10<<20)
			var buf []byte
			for i := hz.Int(c.T, 1, 6, "runs"); i > 0; i-- {
				n := hz.One(c.T, "length", 1, 80, 1000, 65536, limit-1, limit, limit+1, 2*limit, 2*limit+1)
				max := 3*limit/n + 1
				if max > 20000 {
					max = 20000
				}
				for k := hz.Int(c.T, 1, max, "count"); k > 0 && len(buf) < 12<<20; k-- {
					buf = fill(buf, n, true)
				}
			}
			if hz.Chance(c.T, 30, "unterminated") {
				buf = fill(buf, hz.Int(c.T, 1, 5, "rest"), false)
			}
			checkSplit(c, buf, uint64(limit))
		})
}
