package downsampler

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
)

// kind is the type of a field's value.
type kind string

const (
	kInt    kind = "int"
	kFloat  kind = "float"
	kString kind = "string"
	kBool   kind = "bool"
)

type field struct {
	name string // as in the line
	kind kind
	text string // as in the line
}

type point struct {
	key    string // measurement and tags as in the line
	fields []field
}

func (p point) line() string {
	s := p.key + " "
	for i, f := range p.fields {
		if i > 0 {
			s += ","
		}
		s += f.name + "=" + f.text
	}
	return s
}

// agg is what must be emitted for a field.
type agg struct {
	kind   kind
	sum    *big.Float
	n      int
	maxAbs float64
	last   string
}

// model is what must be emitted for a period.
type model map[string]map[string]*agg

// add adds a point and returns the number of conflicting values.
func (m model) add(p point) (conflicts int) {
	fs := m[p.key]
	if fs == nil {
		fs = map[string]*agg{}
		m[p.key] = fs
	}
	for _, f := range p.fields {
		a := fs[f.name]
		if a == nil {
			a = &agg{kind: f.kind, sum: new(big.Float).SetPrec(3000)}
			fs[f.name] = a
		}
		if a.kind != f.kind {
			conflicts++
			continue
		}
		a.last = f.text
		a.n++
		switch f.kind {
		case kInt:
			v, _ := new(big.Float).SetPrec(3000).SetString(f.text[:len(f.text)-1])
			a.sum.Add(a.sum, v)
		case kFloat:
			v, err := strconv.ParseFloat(f.text, 64)
			if err != nil {
				panic(err)
			}
			a.maxAbs = math.Max(a.maxAbs, math.Abs(v))
			a.sum.Add(a.sum, new(big.Float).SetPrec(3000).SetFloat64(v))
		}
	}
	return conflicts
}

// check compares an emitted value with what is expected.
func (a *agg) check(text string) error {
	switch a.kind {
	case kString, kBool:
		if text != a.last {
			return fmt.Errorf("%.200q is emitted instead of the latest value %.200q", text, a.last)
		}
		return nil
	}
	mean := new(big.Float).SetPrec(3000).Quo(a.sum, big.NewFloat(float64(a.n)))
	got := new(big.Float).SetPrec(3000)
	tol := big.NewFloat(1)
	if a.kind == kInt {
		if len(text) < 2 || text[len(text)-1] != 'i' {
			return fmt.Errorf("%.200q is not an integer", text)
		}
		v, ok := ref.Int([]byte(text[:len(text)-1]))
		if !ok {
			return fmt.Errorf("%.200q is not an integer", text)
		}
		got.SetInt64(v)
	} else {
		v, err := strconv.ParseFloat(text, 64)
		if err != nil || math.IsNaN(v) || math.IsInf(v, 0) {
			return fmt.Errorf("%.200q is not a finite number", text)
		}
		got.SetFloat64(v)
		// Rounding: a few units in the last place for each value.
		tol = new(big.Float).SetPrec(3000).SetFloat64(a.maxAbs)
		tol.Mul(tol, big.NewFloat(float64(a.n+1)*0x1p-50))
		tol.Add(tol, big.NewFloat(float64(a.n+1)*0x1p-1073))
	}
	diff := new(big.Float).SetPrec(3000).Sub(got, mean)
	if c := diff.Abs(diff).Cmp(tol); a.kind == kInt && c >= 0 || c > 0 {
		return fmt.Errorf("%.100q is emitted instead of the mean %s of %d values", text, mean.Text('g', 25), a.n)
	}
	return nil
}

// emitted is a parsed line of output.
type emitted struct {
	key    string
	fields map[string]string
	ts     int64
}

// parseOutput parses a line (without newline) of the downsampler's
// output.
func parseOutput(line []byte) (*emitted, error) {
	key, rest, ok := ref.SplitToken(line, " ")
	if !ok {
		return nil, fmt.Errorf("the output %.200q can't be parsed", line)
	}
	ts, at, ok := ref.Timestamp(line)
	if !ok || at-1 < len(key) {
		return nil, fmt.Errorf("the output %.200q has no timestamp", line)
	}
	e := &emitted{string(key), map[string]string{}, ts}
	rest = line[len(key) : at-1]
	fields, err := parseFields(rest)
	if err != nil {
		return nil, fmt.Errorf("the output %.200q can't be parsed: %v", line, err)
	}
	for _, f := range fields {
		if _, ok := e.fields[f[0]]; ok {
			return nil, fmt.Errorf("the output %.200q has a field twice", line)
		}
		e.fields[f[0]] = f[1]
	}
	return e, nil
}

// parseFields parses fields, after the space which precedes them.
func parseFields(rest []byte) (out [][2]string, err error) {
	for first := true; len(rest) > 0; first = false {
		if !first && rest[0] != ',' {
			return nil, fmt.Errorf("no comma after a string")
		}
		rest = rest[1:]
		name, after, ok := ref.SplitToken(rest, "=")
		if !ok {
			return nil, fmt.Errorf("no equals sign")
		}
		if len(name) == 0 {
			return nil, fmt.Errorf("no field name")
		}
		after = after[1:]
		var value []byte
		if len(after) > 0 && after[0] == '"' {
			_, rest, ok = ref.Quoted(after)
			if !ok {
				return nil, fmt.Errorf("unterminated string")
			}
			value = after[:len(after)-len(rest)]
		} else {
			value, rest, _ = ref.SplitToken(after, ",")
			if len(value) == 0 {
				return nil, fmt.Errorf("no value")
			}
		}
		out = append(out, [2]string{string(name), string(value)})
	}
	return out, nil
}

// compare compares output, all of which must be for one period, with
// the model.
func (m model) compare(out []byte, ts int64) error {
	seen := map[string]bool{}
	for _, line := range bytes.Split(bytes.TrimSuffix(out, []byte("\n")), []byte("\n")) {
		if len(out) == 0 {
			break
		}
		e, err := parseOutput(line)
		if err != nil {
			return err
		}
		if e.ts != ts {
			return fmt.Errorf("%.200q is not stamped with the end of its period", line)
		}
		fs := m[e.key]
		if fs == nil {
			return fmt.Errorf("the series %.200q is unexpected", e.key)
		}
		if seen[e.key] {
			return fmt.Errorf("the series %.200q is emitted twice", e.key)
		}
		seen[e.key] = true
		for name, a := range fs {
			text, ok := e.fields[name]
			if !ok {
				return fmt.Errorf("the series %.200q lacks the field %.200q: %.300q", e.key, name, line)
			}
			if err := a.check(text); err != nil {
				return fmt.Errorf("series %.200q, field %.200q: %v", e.key, name, err)
			}
		}
		if len(e.fields) != len(fs) {
			return fmt.Errorf("the series %.200q has additional fields: %.300q", e.key, line)
		}
	}
	var missing []string
	for key := range m {
		if !seen[key] {
			missing = append(missing, key)
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		return fmt.Errorf("the series %.200q is missing", missing[0])
	}
	return nil
}

func genKey(t *rapid.T) string {
	return hz.One(t, "key", "cpu", "cpu", "cpu,host=a", "cpu,host=a", "cpu,host=b", "cpu,a=b,host=a", "mem", "mem,host=a", `a\ b`, `a\ b,t\=g=x\,y`, `a\,b`, "ü", `c\pu`, `cpu,host=a\ b`, `q"q`, "cpu=1", `cpu,p=c:\dir`)
}

func genName(t *rapid.T) string {
	return hz.One(t, "name", "f", "f", "f", "g", "g", "h", "ff", `f\ g`, `f\,g`, `f\=g`, "ü", `"f"`, `f"`, "a.b", `f\g`)
}

func genText(t *rapid.T, k kind) string {
	switch k {
	case kInt:
		return strconv.FormatInt(hz.One(t, "int", 0, 1, -1, 2, 3, 5, -7, 10, 1000003, math.MaxInt64, math.MinInt64, math.MaxInt64-1, math.MinInt64+1, 1<<62, rapid.Int64().Draw(t, "any")), 10) + "i"
	case kFloat:
		v := hz.One(t, "float", 0, 1, -1, 0.1, 1.5, -2.25, 1e10, 1e-10, 1e300, -1e300, math.MaxFloat64, -math.MaxFloat64, 5e-324, 2.2250738585072014e-308, 123456789.123456789, 1e15+0.5, rapid.Float64().Draw(t, "any"))
		if math.IsNaN(v) || math.IsInf(v, 0) {
			v = 7
		}
		return hz.One(t, "format", strconv.FormatFloat(v, 'g', -1, 64), strconv.FormatFloat(v, 'g', -1, 64), strconv.FormatFloat(v, 'e', -1, 64), strconv.FormatFloat(v, 'E', 17, 64))
	case kBool:
		return hz.One(t, "bool", "t", "T", "true", "True", "TRUE", "f", "F", "false", "False", "FALSE")
	}
	// A string: quotes and backslashes are escaped, mostly.
	s := `"`
	for n := hz.One(t, "length", 0, 1, 2, 5, 12); n > 0; n-- {
		s += hz.One(t, "char", "a", "b", " ", ",", "=", `\"`, `\\`, `\n`, `\,`, "ü", "'", "1", "i", "\t", "\xff", `\ `)
	}
	return s + `"`
}

func genPoint(t *rapid.T, kinds map[string]kind) point {
	p := point{key: genKey(t)}
	seen := map[string]bool{}
	for n := hz.One(t, "fields", 1, 1, 2, 3, 5); n > 0; n-- {
		name := genName(t)
		if seen[name] {
			continue
		}
		seen[name] = true
		id := p.key + " " + name
		k, ok := kinds[id]
		if !ok {
			k = hz.One(t, "kind", kInt, kInt, kFloat, kFloat, kString, kBool)
			kinds[id] = k
		} else if k != kBool && hz.Chance(t, 5, "conflict") {
			// What a field of booleans makes of other unquoted values
			// is not specified.
			k = hz.One(t, "kind", kInt, kFloat, kString, kBool)
		} else if k == kBool && hz.Chance(t, 5, "conflict") {
			k = kString
		}
		p.fields = append(p.fields, field{name, k, genText(t, k)})
	}
	return p
}

// enlarge makes points many, or their fields.
func enlarge(t *rapid.T, points []point, kinds map[string]kind) (out []point) {
	n := hz.One(t, "times", 40, 300, 1500)
	out = append(out, points...)
	add := func(q *point, f field) {
		id := q.key + " " + f.name
		k, ok := kinds[id]
		if !ok {
			kinds[id] = f.kind
		} else if k == kBool && f.kind != kBool && f.kind != kString {
			return // not specified, see genPoint
		}
		q.fields = append(q.fields, f)
	}
	switch hz.Int(t, 0, 2, "dimension") {
	case 0: // the same points again
		for ; n > 0; n-- {
			out = append(out, points...)
		}
	case 1: // in many series
		for i := 0; i < n; i++ {
			for _, p := range points {
				q := point{key: fmt.Sprintf("%s,~=%d", p.key, i*i)}
				for _, f := range p.fields {
					add(&q, f)
				}
				if len(q.fields) > 0 {
					out = append(out, q)
				}
			}
		}
	case 2: // with many fields
		for _, p := range points {
			q := point{key: p.key}
			for i := 0; i < n; i++ {
				for _, f := range p.fields {
					f.name += fmt.Sprintf("~%d", i*i)
					add(&q, f)
				}
			}
			if len(q.fields) > 0 {
				out = append(out, q)
			}
		}
	}
	return out
}

// floor returns the multiple of p (counting from year 1) at or before t.
func floor(t time.Time, p time.Duration) time.Time {
	ns := new(big.Int).Add(big.NewInt(t.Unix()), big.NewInt(62135596800))
	ns.Mul(ns, big.NewInt(1e9))
	ns.Add(ns, big.NewInt(int64(t.Nanosecond())))
	ns.Mod(ns, big.NewInt(int64(p)))
	return t.Add(-time.Duration(ns.Int64()))
}
