package listener

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

var precisions = map[string]int64{"u": 1e3, "ms": 1e6, "s": 1e9, "m": 60e9, "h": 3600e9, "ns": 1, "": 1}

func TestC04_Precision(t *testing.T) {
	conf := sut.Config(sut.NATS(), "listener_http", sut.Unique())
	conf.BatchMaxCount = 1
	conf.BatchMaxAge = config.NewDuration(20 * time.Millisecond)
	l := sut.MustStart(conf)
	defer l.Stop()
	hc := httpClient()
	col := sut.Collect(sut.Conn(), conf.NATSSubject[0])

	hz.Check(t, hz.Opts{Quick: 5000, Thorough: 150000,
		Rule: "bodies of generated lines with timestamps around every limit are posted with every precision and compared with an independently computed conversion; non-trivial: a line's timestamp is converted, or must not be because it would overflow"},
		func(c *hz.C) { checkPrecision(c, conf, precisionRig{hc, col}) })
}

// timestamp draws a timestamp (or something like one) as text.
func timestamp(t *rapid.T, mult int64) string {
	limit := new(big.Int).Div(big.NewInt(math.MaxInt64), big.NewInt(mult)).Int64()
	switch hz.One(t, "ts", "now", "now", "limit", "int", "digits", "odd") {
	case "now":
		return strconv.FormatInt(time.Now().UnixNano()/mult, 10)
	case "limit":
		v := limit + int64(hz.Int(t, -2, 2, "d"))
		if limit == math.MaxInt64 {
			v = limit - int64(hz.Int(t, 0, 2, "d"))
		}
		if hz.Chance(t, 40, "neg") {
			v = -v - int64(hz.Int(t, 0, 2, "e"))
		}
		return strconv.FormatInt(v, 10)
	case "int":
		return strconv.FormatInt(rapid.Int64().Draw(t, "int64"), 10)
	case "digits":
		n := hz.Int(t, 1, 21, "n")
		s := hz.One(t, "sign", "", "", "-")
		for i := 0; i < n; i++ {
			s += string('0' + byte(hz.Int(t, 0, 9, "digit")))
		}
		return s
	}
	return hz.One(t, "odd", "0", "-0", "00012", "-", "+5", "1e3", "12i", "1.5", "٣", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999")
}

func precisionLine(t *rapid.T, mult int64, maxSize int) []byte {
	var b bytes.Buffer
	switch hz.One(t, "line", "plain", "plain", "plain", "bytes", "string", "long", "blank") {
	case "plain":
		b.WriteString(hz.One(t, "plain", "m v=1", "m,a=b v=1i,w=2", `a\ b,c=d\,e f="x"`, "x y=1 2", "m", "ab c=d"))
	case "bytes":
		b.Write(bytes.ReplaceAll(rapid.SliceOfN(hz.Bytes(4, ' ', '1', '9', '-', '\r', '\t'), 0, 12).Draw(t, "bytes"), []byte("\n"), []byte("N")))
	case "string":
		fmt.Fprintf(&b, `m s="%s"`, hz.One(t, "string", "a 12", `q\" 5`, " 1", "x "))
	case "long":
		b.WriteString("m v=")
		b.Write(fill(min(maxSize, hz.One(t, "long", 100, 4096, 65500, 65536, 70000, 1048500)), 1))
	case "blank":
		return nil
	}
	if hz.Chance(t, 80, "has ts") {
		b.WriteString(hz.One(t, "sep", " ", " ", " ", " ", "  ", "\t", ""))
		b.WriteString(timestamp(t, mult))
	}
	if hz.Chance(t, 5, "trailing") {
		b.WriteString(hz.One(t, "trail", " ", "\r", "x"))
	}
	return b.Bytes()
}

// convert returns what a line becomes. strict is false where the
// documentation leaves it open.
func convert(line []byte, mult int64) (out []byte, changed, overflow bool) {
	ts, offset, ok := ref.Timestamp(line)
	if !ok || mult == 1 {
		return line, false, false
	}
	v := new(big.Int).Mul(big.NewInt(ts), big.NewInt(mult))
	if !v.IsInt64() {
		return line, false, true
	}
	return append(append([]byte{}, line[:offset]...), v.String()...), true, false
}

type precisionRig struct {
	client *http.Client
	col    *sut.Collector
}

func checkPrecision(c *hz.C, conf *config.Config, h precisionRig) {
	prec := hz.One(c.T, "precision", "u", "ms", "s", "m", "h", "s", "ms", "ns", "")
	mult := precisions[prec]
	maxSize := hz.One(c.T, "max", 100, 100, 100, 100, 100, 100, 5000, 1100000)
	var nonBlank [][]byte
	var want []string
	anyConverted, anyOverflow := false, false
	var text strings.Builder
	for i := hz.Int(c.T, 1, 6, "lines"); i > 0; i-- {
		line := precisionLine(c.T, mult, maxSize)
		text.Write(line)
		text.WriteByte('\n')
		out, changed, over := convert(line, mult)
		anyConverted = anyConverted || changed
		anyOverflow = anyOverflow || over
		if len(line) > 0 {
			nonBlank = append(nonBlank, line)
			want = append(want, string(out))
		}
	}
	if hz.Chance(c.T, 1, "many") && text.Len() > 0 && text.Len() < 2000 {
		// The same lines many times.
		n := hz.One(c.T, "many", 20, 200, min(3000, 2000000/text.Len()))
		once, w, nb := text.String(), want, nonBlank
		for ; n > 0; n-- {
			text.WriteString(once)
			want = append(want, w...)
			nonBlank = append(nonBlank, nb...)
		}
		c.Label("many lines")
	}
	posted := []byte(text.String())
	if hz.Chance(c.T, 30, "unterminated") {
		posted = posted[:len(posted)-1]
	}
	query := map[bool]string{true: "", false: "?db=x&precision=" + prec}[prec == ""]
	if len(posted) == 0 {
		return
	}

	// Sentinels show that everything has arrived.
	sentinel := []byte("END\n")
	hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
		h.col.Reset()
		for _, p := range []struct {
			q string
			b []byte
		}{{query, posted}, {"", sentinel}} {
			status, err := send(h.client, conf.Port, p.q, p.b, false)
			if err != nil {
				return hz.Softf("POST failed: %v", err)
			}
			if status != 204 {
				return fmt.Errorf("POST status is %d", status)
			}
		}
		arrived := h.col.Wait(wait, func(ms []sut.Msg) bool {
			return len(ms) > 0 && bytes.HasSuffix(ms[len(ms)-1].Data, sentinel)
		})
		if !arrived {
			return hz.Softf("the line after the body was not published")
		}
		var got []string
		var msgs [][]byte
		for _, m := range h.col.Msgs() {
			if len(m.Data) > maxMsg {
				return fmt.Errorf("a message has %d bytes", len(m.Data))
			}
			msgs = append(msgs, m.Data)
		}
		got = split(msgs)
		got = got[:len(got)-1]
		if len(got) != len(want) {
			return fmt.Errorf("%d lines were published, not %d: %.300q, want %.300q", len(got), len(want), got, want)
		}
		for i := range got {
			if got[i] == want[i] {
				continue
			}
			if len(nonBlank[i]) < 6 && got[i] == string(nonBlank[i]) {
				continue // too short for a line with a field and a timestamp
			}
			return fmt.Errorf("with precision %q, line %.300q (%d bytes) became %.300q, not %.300q", prec, nonBlank[i], len(nonBlank[i]), got[i], want[i])
		}
		return nil
	})
	c.Label("precision %q", prec)
	c.LabelIf(anyConverted, "converted")
	c.LabelIf(anyOverflow, "overflow")
	c.LabelIf(maxSize > 5000 && len(posted) > 65536, "over 64 KB")
	if anyConverted || anyOverflow {
		c.NonTrivial(prec, posted)
	}
	c.Sample(func() string { return fmt.Sprintf("precision=%s %.200q", prec, posted) })
}
