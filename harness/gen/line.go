// Package gen generates lines and rules.
package gen

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/ref"
)

// The names are similar to each other; m78283 and m114800 (and the
// next two) have the same FNV hashes.
var (
	Names  = []string{"cpu", "cpu", "cpu", "cpu1", "cp", "CPU", "mem", "mem", "a b", "a,b", `q"q`, "x=y", "ü", "m78283", "m114800", "m763399", "m1109514", "cpu,host=web1", `b\s`}
	Keys   = []string{"host", "host", "h", "a", "b", "zone", "k k", "k=k", "k,k", "ü", "hos", "z"}
	Values = []string{"web1", "web1", "web2", "web", "x", "y", "v v", "v=v", "v,v", `v\v`, "0", "ü", `"`}
)

// Name draws a measurement name as it is meant.
func Name(t *rapid.T) string { return rapid.SampledFrom(Names).Draw(t, "name") }

// Opts tells what lines to draw.
type Opts struct {
	NoFields bool // some lines have no fields
	Odd      bool // odd tags: repeated keys
	Big      bool // a few lines are long or have many tags
}

// Line draws a well-formed line without timestamp and newline, with a
// field that makes it unique.
func Line(t *rapid.T, id string, o Opts) []byte {
	var b bytes.Buffer
	b.Write(ref.Escape([]byte(Name(t)), hz.One(t, "esc", ", ", ", ", ", ", `, "`)))
	n := hz.One(t, "tags", 0, 1, 1, 2, 2, 3, 4, 7)
	big := o.Big && hz.Chance(t, 2, "big")
	if big && hz.Chance(t, 50, "many tags") {
		n = hz.One(t, "tags", 15, 40, 110)
	}
	seen := map[string]bool{}
	for ; n > 0; n-- {
		k := rapid.SampledFrom(Keys).Draw(t, "key")
		if n > 7 {
			k = fmt.Sprintf("%s%d", k, hz.Int(t, 0, 1000, "number"))
		}
		if seen[k] && !(o.Odd && hz.Chance(t, 30, "repeat")) {
			continue
		}
		seen[k] = true
		v := rapid.SampledFrom(Values).Draw(t, "value")
		if big && hz.Chance(t, 30, "long") {
			v = strings.Repeat(v, hz.One(t, "times", 70, 300, 5000))
		}
		b.WriteByte(',')
		b.Write(ref.Escape([]byte(k), ", ="))
		b.WriteByte('=')
		b.Write(ref.Escape([]byte(v), hz.One(t, "esc value", ", =", ", =", ", ")))
	}
	if o.NoFields && hz.Chance(t, 3, "no fields") {
		return b.Bytes()
	}
	b.WriteByte(' ')
	b.WriteString(hz.One(t, "field", "", "", "", "v=1,", "v=-12i,", "b=true,", `s="a b,c=d",`, `s="q\"q \\",`, "x=1e9,", `\ f=2,`))
	if big && hz.Chance(t, 30, "long field") {
		fmt.Fprintf(&b, "s=\"%s\",", strings.Repeat(`x, =\" `, hz.One(t, "times", 50, 700, 10000)))
	}
	fmt.Fprintf(&b, "id=%si", id)
	return b.Bytes()
}

// Amplify makes, of a few lists of messages, ones with many lines or
// of many messages (all of which must end with a newline then).
func Amplify(t *rapid.T, msgs [][]byte) [][]byte {
	size := 1
	for _, m := range msgs {
		size += len(m) + 1
	}
	switch {
	case hz.Chance(t, 2, "many lines"):
		n := min(hz.One(t, "times", 30, 300, 3000, 20000), 1+200000/size)
		out := make([][]byte, len(msgs))
		for i, m := range msgs {
			if !bytes.HasSuffix(m, []byte("\n")) {
				m = append(m[:len(m):len(m)], '\n')
			}
			out[i] = bytes.Repeat(m, n)
		}
		return out
	case hz.Chance(t, 1, "many messages"):
		n := min(hz.One(t, "times", 30, 300, 3000), 1+100000/size)
		var out [][]byte
		for ; n > 0; n-- {
			out = append(out, msgs...)
		}
		return out
	}
	return msgs
}

// NearTS draws nothing or a timestamp close to now.
func NearTS(t *rapid.T, now time.Time) string {
	switch hz.One(t, "ts", "none", "none", "now", "near") {
	case "now":
		return " " + strconv.FormatInt(now.UnixNano(), 10)
	case "near":
		return " " + strconv.FormatInt(now.UnixNano()+int64(hz.Int(t, -60, 60, "s"))*1e9, 10)
	}
	return ""
}

// Patterns are regular expressions for rules.
var Patterns = []string{"cpu", "^cpu", "^cpu,", "host=web", "host=web1,", "a,b", "v=1", " v=-?[0-9]+i", `i$`, `[0-9]$`, "^a b", "k=k=", "ü", "^$", ".", `^[^ ]+$`, `(?i)MEM`, `,z=`, `q"q`, `\\`, `\n`, "x=y", "v,v"}

// Rules draws a list of rules without subjects.
func Rules(t *rapid.T, lo, hi int) []config.Rule {
	var out []config.Rule
	n := hz.Int(t, lo, hi, "rules")
	if n == hi && hz.Chance(t, 25, "many rules") {
		n = hz.One(t, "rules", 20, 40, 70)
	}
	for ; n > 0; n-- {
		r := config.Rule{Rtype: hz.One(t, "type", "basic", "basic", "tags", "tags", "regex", "negregex")}
		switch r.Rtype {
		case "basic":
			r.Match = Name(t)
		case "tags":
			for i := hz.One(t, "tags", 1, 1, 2, 3); i > 0; i-- {
				r.Tags = append(r.Tags, []string{rapid.SampledFrom(Keys).Draw(t, "key"), rapid.SampledFrom(Values).Draw(t, "value")})
			}
		default:
			r.Match = rapid.SampledFrom(Patterns).Draw(t, "pattern")
		}
		out = append(out, r)
	}
	return out
}

// RuleString describes a rule.
func RuleString(r config.Rule) string {
	if r.Rtype == "tags" {
		return fmt.Sprintf("tags %q -> %s", r.Tags, r.Subject)
	}
	return fmt.Sprintf("%s %q -> %s", r.Rtype, r.Match, r.Subject)
}

// Garbage draws a line (without newline) which might be anything.
func Garbage(t *rapid.T, id string) []byte {
	special := hz.Bytes(14, ',', ' ', '=', '\\', '"', 'a', 'h', 0, '\r', '1', 0xff)
	switch hz.One(t, "garbage", "bytes", "bytes", "mutated", "mutated", "broken tag", "digits") {
	case "bytes":
		return bytes.ReplaceAll(rapid.SliceOfN(special, 0, 20).Draw(t, "bytes"), []byte("\n"), []byte(","))
	case "mutated":
		b := Line(t, id, Opts{NoFields: true, Odd: true})
		for n := hz.Int(t, 1, 3, "mutations"); n > 0 && len(b) > 0; n-- {
			i := hz.Int(t, 0, len(b)-1, "at")
			switch hz.One(t, "mutation", "cut", "set", "insert", "delete") {
			case "cut":
				b = b[:i]
			case "set":
				b[i] = special.Draw(t, "byte")
			case "insert":
				b = append(b[:i:i], append([]byte{special.Draw(t, "byte")}, b[i:]...)...)
			case "delete":
				b = append(b[:i:i], b[i+1:]...)
			}
		}
		return bytes.ReplaceAll(b, []byte("\n"), []byte(" "))
	case "broken tag":
		return []byte(hz.One(t, "broken", "cpu,", "cpu,host", "cpu,host=", "cpu,=web1", "cpu,,", "cpu,host=web1,", "cpu,host=web1, v=1", "cpu,=", ",", ",a=b", "=", " ", `cpu\`, `cpu,a=\`, `cpu,a\=b v=1`, "cpu,host=web1,a v=1", "cpu,host= v=1", "cpu,a=b=c v=1"))
	}
	return []byte(fmt.Sprintf("%s %s", hz.One(t, "pre", "", "m", "a b=1"), hz.One(t, "num", "1", "-", "99999999999999999999", "-9223372036854775808", "123456789012345678901234567890", "1500000000000000000")))
}
