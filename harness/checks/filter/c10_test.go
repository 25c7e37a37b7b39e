package filter

import (
	"bytes"
	"fmt"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
)

// tagLine draws a line with tags made of arbitrary characters.
func tagLine(t *rapid.T, id string) []byte {
	part := func(label string, min int) []byte {
		b := rapid.SliceOfN(hz.Bytes(8, ',', ' ', '=', '"', '\\', 'a', 'b', 'a', 'k', 'z', 0xc3, '\r', 0), min, 5).Draw(t, label)
		b = append([]byte(nil), b...)
		for i := range b {
			if b[i] == '\n' {
				b[i] = 'n'
			}
		}
		// A final backslash would escape what follows.
		for len(b) > 0 && b[len(b)-1] == '\\' {
			b[len(b)-1] = 'e'
		}
		return b
	}
	var b bytes.Buffer
	b.Write(ref.Escape(part("name", 1), ", "))
	for n := hz.One(t, "tags", 0, 1, 2, 2, 3, 3, 5, 12, hz.One(t, "many", 8, 13, 30, 70)); n > 0; n-- {
		key := part("key", 1)
		if hz.Chance(t, 50, "short key") {
			key = []byte(hz.One(t, "key", "a", "b", "a", "aa", "a b", "a=", "host", "hos", "A", "_"))
		}
		b.WriteByte(',')
		b.Write(ref.Escape(key, ", ="))
		b.WriteByte('=')
		b.Write(ref.Escape(part("value", 1), hz.One(t, "esc", ", =", ", ", `, ="`)))
	}
	// Without fields, a name or value might look like a timestamp.
	if bytes.ContainsAny(b.Bytes(), "0123456789") || !hz.Chance(t, 5, "no fields") {
		fmt.Fprintf(&b, " %sid=%s%s", hz.One(t, "field", "", `s="a,b=c \" d",`, "x=1,,", " "), id, hz.One(t, "end", "", "", " 1x", " ", "\r"))
	}
	return b.Bytes()
}

func TestC10_Sorted(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 2500, Thorough: 20000,
		Rule: "messages of lines with generated measurements, tags and escapes pass a filter twice; each line must come out with sorted tags and otherwise unchanged, and unchanged the second time; non-trivial: some line's tags are not sorted"},
		func(c *hz.C) {
			var lines [][]byte
			unsorted := false
			for n := hz.Int(c.T, 1, 25, "lines"); n > 0; n-- {
				l := tagLine(c.T, fmt.Sprint(n))
				if n > 1 || !hz.Chance(c.T, 20, "unterminated") {
					l = append(l, '\n')
				}
				lines = append(lines, l)
				p, ok := ref.Parse(l)
				if !ok {
					c.Fatalf("generated a malformed line %q", l)
				}
				unsorted = unsorted || !bytes.Equal(p.Sorted(), l)
			}
			hz.Attempts(c, 3*time.Second, func(wait time.Duration) error {
				return checkSorting(lines, wait)
			})
			if unsorted {
				c.NonTrivial(bytes.Join(lines, nil))
			}
			c.Sample(func() string { return fmt.Sprintf("%.300q", lines) })
		})
}

func checkSorting(lines [][]byte, wait time.Duration) error {
	// Everything goes to the junkyard: the first filter has no rules.
	r := startRig(nil, nil)
	defer r.close()
	once, err := r.pass(lines, wait)
	if err != nil {
		return err
	}
	for i, out := range once {
		in := lines[i]
		if err := sortedSame(in, out); err != nil {
			return err
		}
	}
	twice, err := r.pass(once, wait)
	if err != nil {
		return err
	}
	for i := range twice {
		if !bytes.Equal(once[i], twice[i]) {
			return fmt.Errorf("line %q became %q, and that %q", lines[i], once[i], twice[i])
		}
	}
	return nil
}

func (r *rig) pass(lines [][]byte, wait time.Duration) ([][]byte, error) {
	r.col.Reset()
	r.publish(bytes.Join(lines, nil))
	r.publish([]byte(sentinel))
	if !r.col.Wait(wait, func(ms []sutMsg) bool {
		return len(ms) > 0 && string(ms[len(ms)-1].Data) == sentinel
	}) {
		return nil, hz.Softf("the output is missing")
	}
	out := bytes.TrimSuffix(bytes.Join(allData(r.col.Msgs()), nil), []byte(sentinel))
	got := ref.Lines(out)
	if len(got) != len(lines) {
		return nil, fmt.Errorf("%d lines became %d: %.500q became %.500q", len(lines), len(got), lines, got)
	}
	return got, nil
}

// sortedSame compares a line with what the filter made of it, directly
// in the terms of the property.
func sortedSame(in, out []byte) error {
	p, ok1 := ref.Parse(in)
	q, ok2 := ref.Parse(out)
	fail := func(what string) error { return fmt.Errorf("%s: line %q became %q", what, in, out) }
	switch {
	case !ok1 || !ok2:
		return fail("unparsable")
	case len(in) != len(out):
		return fail("different length")
	case p.NL != q.NL:
		return fail("different terminator")
	case !bytes.Equal(p.RawKey, q.RawKey):
		return fail("different measurement")
	case !bytes.Equal(p.Rest, q.Rest):
		return fail("different fields")
	case len(p.Tags) != len(q.Tags):
		return fail("different number of tags")
	}
	if !sort.SliceIsSorted(q.Tags, func(i, j int) bool { return string(q.Tags[i].Key) < string(q.Tags[j].Key) }) {
		return fail("tags not sorted")
	}
	raw := func(ts []ref.Tag) []string {
		var out []string
		for _, t := range ts {
			out = append(out, string(t.Raw))
		}
		sort.Strings(out)
		return out
	}
	if fmt.Sprintf("%q", raw(p.Tags)) != fmt.Sprintf("%q", raw(q.Tags)) {
		return fail("different tags")
	}
	if sort.SliceIsSorted(p.Tags, func(i, j int) bool { return string(p.Tags[i].Key) < string(p.Tags[j].Key) }) && !bytes.Equal(in, out) {
		return fail("a line with sorted tags was changed")
	}
	return nil
}
