package listener

import (
	"bytes"
	"fmt"

	"pgregory.net/rapid"

	"verif/harness/hz"
)

// fill makes n bytes without newlines, all different by seed.
func fill(n int, seed uint64) []byte {
	x := seed*0x9e3779b97f4a7c15 + 0x1234567
	b := make([]byte, n)
	const chars = "abcdefghijklmnopqrstuvwxyz0123456789,= \\\"\x00\r\xff%"
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = chars[x%uint64(len(chars))]
	}
	return b
}

// data draws about n bytes of lines, perhaps without the last newline.
func data(t *rapid.T, n int, id string) []byte {
	var b []byte
	switch hz.One(t, "kind", "line", "lines", "bytes", "long") {
	case "line":
		b = append([]byte(id+" v="), fill(n, uint64(n))...)
	case "lines":
		for i := 0; len(b) < n; i++ {
			b = append(b, fmt.Sprintf("%s,i=%d v=%d\n", id, i, n)...)
		}
		b = bytes.TrimSuffix(b, []byte("\n"))
	case "bytes":
		b = append(b, rapid.SliceOfN(hz.Bytes(4, '\n', '\n', ' ', ',', 0, '%', '\r', '\\'), 1, 40).Draw(t, "bytes")...)
		b = append(b, fill(max(0, n-len(b)), uint64(n))...)
	case "long":
		b = fill(n, uint64(n)+1)
	}
	if hz.Chance(t, 50, "newline") {
		b = append(b, '\n')
	}
	return b
}

// sizeLimit draws a batch_max_size: one of the given, or one around or below
// the size of the largest datagram.
func sizeLimit(t *rapid.T, sizes ...int) int {
	sizes = append(sizes, 1<<16-2, 1<<16-1, 1<<16, 1<<16+1, -1, -1)
	n := hz.One(t, "batch_max_size", sizes...)
	if n < 0 {
		n = hz.One(t, "small batch_max_size", 10, 500, 1000, 1500, 8192, 9000, 30000, 32768, 40000, 50000, 60000, 65400, 65507, 65508)
	}
	return n
}
