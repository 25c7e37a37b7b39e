// Package ref contains the specification of the line protocol handling
// in an executable form, written independently of the code under test.
package ref

import (
	"bytes"
	"math/big"
	"regexp"
	"sort"
)

// A character which follows a backslash is never a delimiter.
func indexUnescaped(s []byte, chars string) int {
	for i := range s {
		if bytes.IndexByte([]byte(chars), s[i]) >= 0 && (i == 0 || s[i-1] != '\\') {
			return i
		}
	}
	return -1
}

// SplitToken returns what comes before the first unescaped delimiter,
// and the rest. ok is false if there is no delimiter.
func SplitToken(s []byte, delims string) (tok, rest []byte, ok bool) {
	i := indexUnescaped(s, delims)
	if i < 0 {
		return s, nil, false
	}
	return s[:i], s[i:], true
}

var (
	unescapeRx       = regexp.MustCompile(`\\([,"= ])`)
	quotedRx         = regexp.MustCompile(`(?s)^"((?:[^"\\]|\\.)*)"`)
	unescapeStringRx = regexp.MustCompile(`\\(["\\])`)
	timestampRx      = regexp.MustCompile(`(?s)^(.*) (-?[0-9]{1,19})$`)
	intRx            = regexp.MustCompile(`^-?[0-9]+$`)
)

// Unescape removes the backslash before , " = and space.
func Unescape(s []byte) []byte {
	return unescapeRx.ReplaceAll(s, []byte("$1"))
}

// Escape puts a backslash before each of the chars.
func Escape(s []byte, chars string) []byte {
	out := []byte{}
	for _, b := range s {
		if bytes.IndexByte([]byte(chars), b) >= 0 {
			out = append(out, '\\')
		}
		out = append(out, b)
	}
	return out
}

// Quoted parses the quoted string at the start of s.
func Quoted(s []byte) (contents, rest []byte, ok bool) {
	m := quotedRx.FindSubmatch(s)
	if m == nil {
		return nil, nil, false
	}
	return unescapeStringRx.ReplaceAll(m[1], []byte("$1")), s[len(m[0]):], true
}

// Tag is a tag of a line: raw as in the line, and its meaning.
type Tag struct {
	Raw        []byte
	Key, Value []byte
}

// Line is a parsed line.
type Line struct {
	Raw    []byte // without the newline
	NL     bool
	Name   []byte // meaning of the measurement's name
	RawKey []byte // measurement as in the line
	Tags   []Tag
	Rest   []byte // from the space before the fields (inclusive)
}

// Parse parses a line (with or without newline).
func Parse(line []byte) (*Line, bool) {
	l := &Line{Raw: line}
	if bytes.HasSuffix(line, []byte("\n")) {
		l.NL = true
		l.Raw = line[:len(line)-1]
	}
	var rest []byte
	l.RawKey, rest, _ = SplitToken(l.Raw, ", ")
	l.Name = Unescape(l.RawKey)
	for len(rest) > 0 && rest[0] == ',' {
		tag, after, _ := SplitToken(rest[1:], ", ")
		key, value, ok := SplitToken(tag, "=")
		if !ok || len(key) == 0 || len(value) == 1 {
			return nil, false
		}
		// A value may contain equals signs.
		l.Tags = append(l.Tags, Tag{Raw: tag, Key: Unescape(key), Value: Unescape(value[1:])})
		rest = after
	}
	l.Rest = rest
	return l, true
}

// Sorted returns the line with its tags sorted by key.
func (l *Line) Sorted() []byte {
	tags := append([]Tag(nil), l.Tags...)
	sort.SliceStable(tags, func(i, j int) bool { return string(tags[i].Key) < string(tags[j].Key) })
	out := append([]byte{}, l.RawKey...)
	for _, t := range tags {
		out = append(out, ',')
		out = append(out, t.Raw...)
	}
	out = append(out, l.Rest...)
	if l.NL {
		out = append(out, '\n')
	}
	return out
}

// Int parses a 64-bit integer.
func Int(s []byte) (int64, bool) {
	if !intRx.Match(s) {
		return 0, false
	}
	v, _ := new(big.Int).SetString(string(s), 10)
	if !v.IsInt64() {
		return 0, false
	}
	return v.Int64(), true
}

// Timestamp returns the timestamp of a line and where it starts.
func Timestamp(line []byte) (ts int64, offset int, ok bool) {
	line = bytes.TrimSuffix(line, []byte("\n"))
	m := timestampRx.FindSubmatchIndex(line)
	if m == nil {
		return 0, 0, false
	}
	ts, ok = Int(line[m[4]:])
	return ts, m[4], ok
}

// Lines splits a message into its lines, each with its newline (the
// last one might have none).
func Lines(msg []byte) [][]byte {
	var out [][]byte
	for len(msg) > 0 {
		n := bytes.IndexByte(msg, '\n') + 1
		if n == 0 {
			n = len(msg)
		}
		out = append(out, msg[:n])
		msg = msg[n:]
	}
	return out
}

// Split splits a buffer into chunks: each is the longest prefix which
// fits and ends in a newline, or everything if that fits, or exactly
// limit bytes.
func Split(buf []byte, limit uint64) [][]byte {
	var out [][]byte
	for len(buf) > 0 {
		n := len(buf)
		if uint64(n) > limit {
			n = bytes.LastIndexByte(buf[:limit], '\n') + 1
			if n == 0 {
				n = int(limit)
			}
		}
		out = append(out, buf[:n])
		buf = buf[n:]
	}
	return out
}
