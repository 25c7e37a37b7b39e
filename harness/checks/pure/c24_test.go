package pure

import (
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/jumptrading/influx-spout/v2/convert"
	"github.com/jumptrading/influx-spout/v2/influx"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/ref"
)

func checkToInt(c *hz.C, s []byte) {
	orig := string(s)
	want, ok := ref.Int(s)
	got, err := convert.ToInt(s)
	if string(s) != orig {
		c.Fatalf("ToInt(%q) modified its input", orig)
	}
	if (err == nil) != ok {
		c.Fatalf("ToInt(%q) returned %d, %v, but valid is %v", orig, got, err, ok)
	}
	if ok && got != want {
		c.Fatalf("ToInt(%q) returned %d", orig, got)
	}
	digits := len(strings.TrimLeft(orig, "-0"))
	c.LabelIf(ok, "valid")
	c.LabelIf(ok && want < 0, "valid negative")
	c.LabelIf(ok && digits == 19, "valid with 19 digits")
	c.LabelIf(!ok && digits >= 19 && strings.Trim(orig, "-0123456789") == "", "overflow")
	c.LabelIf(!ok && digits >= 20, "overflow with 20 or more digits")
	if len(orig) > 1 {
		c.NonTrivial(orig)
	}
	c.Sample(func() string { return fmt.Sprintf("%q", orig) })
}

// bigNear draws a number near a multiple of a power of two, or of ten.
func bigNear(t *rapid.T) *big.Int {
	v := new(big.Int)
	switch hz.One(t, "base", "2^63", "2^64", "k*2^64", "10^k", "small", "2^63/k") {
	case "2^63":
		v.Lsh(big.NewInt(1), 63)
	case "2^64":
		v.Lsh(big.NewInt(1), 64)
	case "k*2^64":
		v.Lsh(big.NewInt(int64(hz.Int(t, 1, 2000, "k"))), 64)
		v.Add(v, new(big.Int).SetUint64(rapid.Uint64().Draw(t, "offset")))
	case "10^k":
		v.Exp(big.NewInt(10), big.NewInt(int64(hz.Int(t, 0, 30, "k"))), nil)
	case "2^63/k":
		v.Lsh(big.NewInt(1), 63)
		v.Div(v, big.NewInt(hz.One(t, "k", int64(1000), 1000000, 1000000000, 60000000000, 3600000000000, 10)))
	}
	v.Add(v, big.NewInt(int64(hz.Int(t, -3, 3, "delta"))))
	if hz.Chance(t, 40, "negative") {
		v.Neg(v)
	}
	return v
}

func drawInt(t *rapid.T) string {
	s := ""
	switch hz.One(t, "kind", "near", "near", "int64", "digits", "short") {
	case "near":
		s = bigNear(t).String()
	case "int64":
		s = fmt.Sprint(rapid.Int64().Draw(t, "v"))
	case "digits":
		s = rapid.StringMatching(`-?[0-9]{17,40}`).Draw(t, "digits")
	case "short":
		s = rapid.StringMatching(`-?[0-9]{0,6}`).Draw(t, "digits")
	}
	if hz.Chance(t, 15, "zeros") {
		z := strings.Repeat("0", hz.Int(t, 1, 30, "n"))
		if strings.HasPrefix(s, "-") {
			s = "-" + z + s[1:]
		} else {
			s = z + s
		}
	}
	return s
}

func TestC24_Near(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 150000, Thorough: 5000000,
		Rule: "integers near the limits of 64 bits, multiples of 2^64 and powers of ten, with leading zeros, some with one byte changed; non-trivial: two or more bytes"},
		func(c *hz.C) {
			s := []byte(drawInt(c.T))
			if len(s) > 0 && hz.Chance(c.T, 25, "mutate") {
				i := hz.Int(c.T, 0, len(s)-1, "position")
				b := hz.One(c.T, "byte", '+', '-', ' ', 'e', '.', '_', '/', ':', 'i', 0, 0xff, '\n', 'x')
				if hz.Chance(c.T, 50, "insert") {
					s = append(s[:i], append([]byte{byte(b)}, s[i:]...)...)
				} else {
					s[i] = byte(b)
				}
				c.Label("mutated")
			}
			checkToInt(c, s)
		})
}

func TestC24_Bytes(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 50000, Thorough: 2000000, Rule: "arbitrary short byte strings over digits, signs and others; non-trivial: two or more bytes"},
		func(c *hz.C) {
			checkToInt(c, rapid.SliceOfN(hz.Bytes(16, '0', '1', '5', '9', '-', '-', '+', ' '), 0, 8).Draw(c.T, "s"))
		})
}

// ---------------------------------------------------------------------

func drawStamp(t *rapid.T) string {
	switch hz.One(t, "stamp", "19", "19", "near", "near", "short", "none", "junk") {
	case "19":
		return rapid.StringMatching(`-?[0-9]{19}`).Draw(t, "digits")
	case "near":
		return drawInt(t)
	case "short":
		return rapid.StringMatching(`-?[0-9]{1,12}`).Draw(t, "digits")
	case "none":
		return ""
	}
	return rapid.StringMatching(`[-+0-9a-z. "]{0,22}`).Draw(t, "junk")
}

func TestC25_Extract(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 120000, Thorough: 4000000,
		Rule: "lines with all kinds of endings, in particular integers of about 19 digits; non-trivial: the line has a timestamp, or something following the last space which looks like one"},
		func(c *hz.C) {
			var head string
			switch hz.One(c.T, "head", "line", "line", "short", "empty", "bytes") {
			case "line":
				head = "foo,a=b x=1i"
			case "short":
				head = rapid.StringMatching(`[a-z=, ]{1,6}`).Draw(c.T, "head")
			case "bytes":
				head = string(rapid.SliceOfN(hz.Bytes(10, ' ', '1', '-', '\n', '\\'), 0, 40).Draw(c.T, "head"))
			}
			sep := hz.One(c.T, "separator", " ", " ", " ", " ", "", "  ", " -", "\t", ",", "1", " 0", "- ")
			line := []byte(head + sep + drawStamp(c.T) + hz.One(c.T, "end", "", "\n", "\n", "\n", " ", "\n\n", "\r\n"))

			orig := string(line)
			wantTs, wantOff, ok := ref.Timestamp(line)
			ts, off := influx.ExtractTimestamp(line)
			if string(line) != orig {
				c.Fatalf("ExtractTimestamp(%q) modified its input", orig)
			}
			if !ok {
				wantTs, wantOff = -1, -1
			}
			if (ts != wantTs || off != wantOff) && !(len(line) < 6 && off == -1) {
				c.Fatalf("ExtractTimestamp(%q) returned %d at %d, want %d at %d", orig, ts, off, wantTs, wantOff)
			}

			digits := 0
			if ok {
				digits = len(strings.Trim(orig[off0(wantOff):], "-\n"))
			}
			nts, noff := influx.ExtractNanos(line)
			if string(line) != orig {
				c.Fatalf("ExtractNanos(%q) modified its input", orig)
			}
			if digits == 19 && (nts != wantTs || noff != wantOff) {
				c.Fatalf("ExtractNanos(%q) returned %d at %d, want %d at %d", orig, nts, noff, wantTs, wantOff)
			}
			c.LabelIf(ok, "timestamp")
			c.LabelIf(ok && wantTs < 0, "negative timestamp")
			c.LabelIf(digits == 19, "19 digits")
			c.LabelIf(digits == 19 && wantTs < 0, "negative with 19 digits")
			c.LabelIf(!ok, "no timestamp")
			c.LabelIf(len(line) < 6, "short line")
			if ok || (len(line) >= 6 && strings.Contains(orig, " ")) {
				c.NonTrivial(orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", orig) })
		})
}

func off0(i int) int {
	if i < 0 {
		return 0
	}
	return i
}

func TestC25_Scale(t *testing.T) {
	mult := map[string]int64{"u": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9, "ns": 1, "": 1}
	min := new(big.Int).Add(big.NewInt(-1<<63), big.NewInt(2))
	max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(2))
	hz.Check(t, hz.Opts{Quick: 100000, Thorough: 4000000,
		Rule: "timestamps near the representable limits divided by the unit, and any others, for all precisions; non-trivial: timestamp other than 0 and 1 with a unit other than ns"},
		func(c *hz.C) {
			prec := hz.One(c.T, "precision", "u", "ms", "s", "m", "h", "ns", "")
			var ts int64
			switch hz.One(c.T, "kind", "limit", "limit", "near", "any", "common") {
			case "limit":
				l := hz.One(c.T, "limit", min, max)
				ts = new(big.Int).Quo(l, big.NewInt(mult[prec])).Int64() + int64(hz.Int(c.T, -3, 3, "delta"))
			case "near":
				v := bigNear(c.T)
				if !v.IsInt64() {
					v.SetInt64(v.Int64())
				}
				ts = v.Int64()
			case "any":
				ts = rapid.Int64().Draw(c.T, "ts")
			case "common":
				ts = int64(hz.Int(c.T, 0, 2000000000, "ts"))
			}
			want := new(big.Int).Mul(big.NewInt(ts), big.NewInt(mult[prec]))
			ok := want.Cmp(min) >= 0 && want.Cmp(max) <= 0
			got, err := influx.SafeCalcTime(ts, prec)
			if (err == nil) != ok || (ok && got != want.Int64()) {
				c.Fatalf("SafeCalcTime(%d, %q) returned %d, %v; exact product %v, in range %v", ts, prec, got, err, want, ok)
			}
			c.LabelIf(ok, "in range")
			c.LabelIf(!ok, "out of range")
			c.LabelIf(!want.IsInt64(), "more than 64 bits")
			c.Label("precision %q", prec)
			if mult[prec] != 1 && ts != 0 && ts != 1 {
				c.NonTrivial(prec, ts)
			}
			c.Sample(func() string { return fmt.Sprintf("%d %q", ts, prec) })
		})
}
