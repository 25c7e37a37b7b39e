package pure

import (
	"bytes"
	"fmt"
	"regexp"
	"testing"

	"github.com/jumptrading/influx-spout/v2/influx"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/ref"
)

var specialBytes = []byte{',', ' ', '=', '"', '\\', '\\', ',', ' ', '='}

// A backslash at the end, or directly before a double quote or equals
// sign, can't be represented in the format.
var unrepresentable = regexp.MustCompile(`(?s)\\$|\\["=]|\n`)

func drawName(t *rapid.T, label string, min int) []byte {
	b := rapid.SliceOfN(hz.Bytes(10, append(specialBytes, 'a', 'z', 0xc3, 0)...), min, 8).Draw(t, label)
	b = append([]byte(nil), b...)
	for {
		i := unrepresentable.FindIndex(b)
		if i == nil {
			return b
		}
		b[i[0]] = 'x'
	}
}

func TestC26_RoundTrip(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60000, Thorough: 2000000,
		Rule: "measurement names and tag sets made of bytes rich in special characters, escaped into a line and parsed back; non-trivial: something needs escaping"},
		func(c *hz.C) {
			name := drawName(c.T, "name", 0)
			tags := make(influx.TagSet, hz.Many(c.T, hz.Int(c.T, 0, 5, "tags"), 2, "tags", 9, 17, 33, 70, 130))
			for i := range tags {
				tags[i] = influx.NewTag(string(drawName(c.T, "key", 1)), string(drawName(c.T, "value", 1)))
			}
			rest := rapid.SliceOfN(hz.Bytes(10, specialBytes...), 0, 12).Draw(c.T, "rest")
			hasRest := len(rest) > 0 || hz.Chance(c.T, 50, "space")

			line := append([]byte(nil), influx.EscapeMeasurement(name)...)
			if len(tags) > 0 {
				line = append(line, ',')
				line = append(line, tags.Bytes()...)
			}
			if hasRest {
				line = append(line, ' ')
				line = append(line, rest...)
			}
			orig := append([]byte(nil), line...)

			gotName, gotTags, gotRest, err := influx.ParseTags(line)
			if err != nil {
				c.Fatalf("ParseTags(%q): %v", orig, err)
			}
			if !bytes.Equal(line, orig) {
				c.Fatalf("ParseTags(%q) modified its input", orig)
			}
			if !bytes.Equal(gotName, name) {
				c.Fatalf("measurement %q became %q (in %q)", name, gotName, orig)
			}
			if len(gotTags) != len(tags) {
				c.Fatalf("%d tags became %d (in %q)", len(tags), len(gotTags), orig)
			}
			for i := range tags {
				if !bytes.Equal(tags[i].Key, gotTags[i].Key) || !bytes.Equal(tags[i].Value, gotTags[i].Value) {
					c.Fatalf("tag %q=%q became %q=%q (in %q)", tags[i].Key, tags[i].Value, gotTags[i].Key, gotTags[i].Value, orig)
				}
			}
			if !bytes.Equal(gotRest, rest) {
				c.Fatalf("remainder %q became %q (in %q)", rest, gotRest, orig)
			}
			c.Label("%d tags", len(tags))
			c.LabelIf(bytes.Contains(orig, []byte(`\\`)), "backslash before an escape")
			c.LabelIf(len(name) == 0, "empty name")
			if bytes.IndexByte(orig, '\\') >= 0 {
				c.NonTrivial(orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", orig) })
		})
}

func TestC26_Strings(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 40000, Thorough: 1000000,
		Rule: "string values of bytes rich in quotes and backslashes, quoted and parsed back, followed by anything; non-trivial: the value contains a quote or a backslash"},
		func(c *hz.C) {
			value := rapid.SliceOfN(hz.Bytes(12, '"', '\\', '\\', ',', ' ', '=', 'a'), 0, 10).Draw(c.T, "value")
			rest := rapid.SliceOfN(hz.Bytes(10, specialBytes...), 0, 6).Draw(c.T, "rest")
			orig := append([]byte(nil), value...)
			quoted := influx.EscapeQuotedString(value)
			in := append(append([]byte(nil), quoted...), rest...)
			in2 := append([]byte(nil), in...)
			got, gotRest, err := influx.QuotedString(in)
			if err != nil || !bytes.Equal(got, orig) || !bytes.Equal(gotRest, rest) {
				c.Fatalf("%q quoted as %q followed by %q became %q, %q, %v", orig, quoted, rest, got, gotRest, err)
			}
			if !bytes.Equal(value, orig) || !bytes.Equal(in, in2) {
				c.Fatalf("input %q was modified", orig)
			}
			if bytes.IndexByte(value, '"') >= 0 || bytes.IndexByte(value, '\\') >= 0 {
				c.NonTrivial(orig, rest)
			}
			c.Sample(func() string { return fmt.Sprintf("%q followed by %q", orig, rest) })
		})
}

// Arbitrary bytes: everything agrees with the specification.
func TestC26_Bytes(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 60000, Thorough: 2000000,
		Rule: "arbitrary bytes rich in special characters given to the tokeniser, the tag parser, Unescape, Escape and QuotedString, compared with regular expressions; non-trivial: contains a backslash or a delimiter"},
		func(c *hz.C) {
			in := rapid.SliceOfN(hz.Bytes(12, append(specialBytes, 'a', 'k', 'v', '\n', '1')...), 0, 30).Draw(c.T, "in")
			if hz.Chance(c.T, 40, "line like") {
				in = append([]byte("m,k=v"), in...)
				if hz.Chance(c.T, 50, "rest") {
					in = append(in, []byte(",x=y f=1 1234")...)
				}
			}
			orig := append([]byte(nil), in...)
			unmodified := func(what string) {
				if !bytes.Equal(in, orig) {
					c.Fatalf("%s(%q) modified its input", what, orig)
				}
			}

			if got, want := influx.Unescape(in), ref.Unescape(orig); !bytes.Equal(got, want) {
				c.Fatalf("Unescape(%q) = %q, want %q", orig, got, want)
			}
			unmodified("Unescape")
			if got, want := influx.EscapeTagPart(in), ref.Escape(orig, ",= "); !bytes.Equal(got, want) {
				c.Fatalf("EscapeTagPart(%q) = %q, want %q", orig, got, want)
			}
			if got, want := influx.EscapeMeasurement(in), ref.Escape(orig, ", "); !bytes.Equal(got, want) {
				c.Fatalf("EscapeMeasurement(%q) = %q, want %q", orig, got, want)
			}
			unmodified("Escape")

			// Tokenising everything and joining gives back the input.
			delims := hz.One(c.T, "delimiters", " ", ",", "=", ", ", "= ,", ",=\"")
			rest := in
			var joined []byte
			for first := true; ; first = false {
				from := rest
				if !first {
					joined = append(joined, rest[0])
					from = rest[1:]
				}
				wantTok, wantRest, more := ref.SplitToken(from, delims)
				tok, rest1 := influx.TokenEscaped(from, []byte(delims))
				tok2, rest2 := influx.Token(from, []byte(delims))
				if !bytes.Equal(tok, wantTok) || !bytes.Equal(rest1, wantRest) {
					c.Fatalf("TokenEscaped(%q, %q) = %q, %q, want %q, %q", from, delims, tok, rest1, wantTok, wantRest)
				}
				if !bytes.Equal(tok2, ref.Unescape(wantTok)) || !bytes.Equal(rest2, wantRest) {
					c.Fatalf("Token(%q, %q) = %q, %q, want %q, %q", from, delims, tok2, rest2, ref.Unescape(wantTok), wantRest)
				}
				joined = append(joined, tok...)
				rest = rest1
				if !more {
					break
				}
			}
			unmodified("Token")
			if !bytes.Equal(joined, orig) {
				c.Fatalf("tokens of %q joined give %q", orig, joined)
			}

			// Tags. The newline isn't special in there.
			want, ok := ref.Parse(append(append([]byte(nil), orig...), '\n'))
			name, tags, remainder, err := influx.ParseTags(in)
			unmodified("ParseTags")
			if (err == nil) != ok {
				c.Fatalf("ParseTags(%q) returned %v, but valid is %v", orig, err, ok)
			}
			if ok {
				same := bytes.Equal(name, want.Name) && len(tags) == len(want.Tags)
				for i := range tags {
					same = same && bytes.Equal(tags[i].Key, want.Tags[i].Key) && bytes.Equal(tags[i].Value, want.Tags[i].Value)
				}
				same = same && bytes.Equal(remainder, bytes.TrimPrefix(want.Rest, []byte(" ")))
				if !same {
					c.Fatalf("ParseTags(%q) = %q, %q, %q, want %q, %q, %q", orig, name, tags, remainder, want.Name, want.Tags, want.Rest)
				}
				c.LabelIf(len(tags) > 0, "valid tags")
			} else {
				c.Label("invalid tags")
			}

			contents, srest, sok := ref.Quoted(orig)
			gotS, gotRest, serr := influx.QuotedString(in)
			unmodified("QuotedString")
			if (serr == nil) != sok || (sok && (!bytes.Equal(gotS, contents) || !bytes.Equal(gotRest, srest))) {
				c.Fatalf("QuotedString(%q) = %q, %q, %v, want %q, %q, %v", orig, gotS, gotRest, serr, contents, srest, sok)
			}
			c.LabelIf(sok, "quoted string")

			if bytes.ContainsAny(orig, `\,= "`) {
				c.NonTrivial(orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", orig) })
		})
}

func TestC26_Subset(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 20000, Thorough: 500000,
		Rule: "pairs of tag sets over few keys and values, with repetitions; non-trivial: both sets not empty"},
		func(c *hz.C) {
			draw := func(label string) influx.TagSet {
				out := make(influx.TagSet, hz.Many(c.T, hz.Int(c.T, 0, 5, label), 3, label, 9, 17, 33, 70, 130))
				for i := range out {
					out[i] = influx.NewTag(hz.One(c.T, "key", "a", "b", "c", "ab", "", fmt.Sprint(i)), hz.One(c.T, "value", "x", "y", "xy", "bx"))
				}
				return out
			}
			a, b := draw("subset"), draw("set")
			want := true
			for _, x := range a {
				found := false
				for _, y := range b {
					found = found || (string(x.Key) == string(y.Key) && string(x.Value) == string(y.Value))
				}
				want = want && found
			}
			if got := a.SubsetOf(b); got != want {
				c.Fatalf("%q.SubsetOf(%q) = %v", a, b, got)
			}
			c.LabelIf(want, "subset")
			if len(a) > 0 && len(b) > 0 {
				c.NonTrivial(fmt.Sprintf("%q %q", a, b))
			}
			c.Sample(func() string { return fmt.Sprintf("%q in %q", a, b) })
		})
}
