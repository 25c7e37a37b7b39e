package ref

import (
	"regexp"

	"github.com/jumptrading/influx-spout/v2/config"
)

// Matches tells whether a rule matches a line. For the filter, pass
// the line with sorted tags.
func Matches(r config.Rule, line []byte) bool {
	l, ok := Parse(line)
	if !ok {
		return false
	}
	switch r.Rtype {
	case "basic":
		return string(l.Name) == r.Match
	case "tags":
		for _, want := range r.Tags {
			found := false
			for _, t := range l.Tags {
				found = found || string(t.Key) == want[0] && string(t.Value) == want[1]
			}
			if !found {
				return false
			}
		}
		return true
	case "regex":
		return regexp.MustCompile(r.Match).Match(Unescape(l.Raw))
	case "negregex":
		return !regexp.MustCompile(r.Match).Match(Unescape(l.Raw))
	}
	panic(r.Rtype)
}

// Route returns the index of the first rule which matches a line, or
// -1. ok is false if the line is malformed.
func Route(rules []config.Rule, line []byte) (idx int, sorted []byte, ok bool) {
	l, ok := Parse(line)
	if !ok {
		return 0, nil, false
	}
	sorted = l.Sorted()
	for i, r := range rules {
		if Matches(r, sorted) {
			return i, sorted, true
		}
	}
	return -1, sorted, true
}
