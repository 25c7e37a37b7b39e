package pure

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/jumptrading/influx-spout/v2/prometheus"
	"pgregory.net/rapid"

	"verif/harness/hz"
	"verif/harness/ref"
)

// metric is the model of a metric.
type metric struct {
	name   string
	labels [][2]string // unique names
	value  int64
	ms     int64
}

func (m metric) sorted() [][2]string {
	out := append([][2]string(nil), m.labels...)
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out
}

func (m metric) key() string {
	var ls []string
	for _, l := range m.sorted() {
		ls = append(ls, l[0]+`="`+l[1]+`"`)
	}
	return m.name + "{" + strings.Join(ls, ",") + "}"
}

func (m metric) text() string {
	s := m.key()
	if len(m.labels) == 0 {
		s = m.name
	}
	s += fmt.Sprintf(" %d", m.value)
	if m.ms > 0 {
		s += fmt.Sprintf(" %d", m.ms)
	}
	return s
}

func (m metric) build() *prometheus.Metric {
	out := &prometheus.Metric{Name: []byte(m.name), Value: m.value, Milliseconds: m.ms}
	for _, l := range m.labels {
		out.Labels = append(out.Labels, prometheus.NewLabel(l[0], l[1]))
	}
	return out
}

func fromMetric(m *prometheus.Metric) metric {
	out := metric{name: string(m.Name), value: m.Value, ms: m.Milliseconds}
	for _, l := range m.Labels {
		out.labels = append(out.labels, [2]string{string(l.Name), string(l.Value)})
	}
	return out
}

func drawMetric(t *rapid.T) metric {
	m := metric{
		name:  hz.One(t, "name", "foo", "bar", "foo_bar", "fo", "x:y", "a.b-c", "z", "größe"),
		value: rapid.Int64().Draw(t, "value"),
	}
	if hz.Chance(t, 60, "timestamp") {
		m.ms = rapid.Int64Range(1, 1<<62).Draw(t, "ms")
	}
	names := rapid.Permutation([]string{"host", "component", "a", "ab", "rule", "größe", "A"}).Draw(t, "labels")
	for _, n := range names[:hz.Int(t, 0, 4, "nlabels")] {
		m.labels = append(m.labels, [2]string{n, rapid.SampledFrom([]string{"", "x", "y", "foo bar", "a,b", "{}", "}", "a=b", "ü", "1 2", ",", " "}).Draw(t, "lv")})
	}
	if hz.Chance(t, 2, "many labels") {
		for i := hz.One(t, "labels", 8, 16, 40); i > 0; i-- {
			m.labels = append(m.labels, [2]string{fmt.Sprint("l", i), fmt.Sprint(i % 3)})
		}
	}
	if len(m.labels) > 0 && hz.Chance(t, 2, "long") {
		m.labels[0][1] = strings.Repeat("long ", hz.One(t, "times", 10, 60, 1000))
	}
	return m
}

// model of a metric set
type metricModel map[string]metric

func (mm metricModel) text() string {
	var keys []string
	for k := range mm {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	out := ""
	for _, k := range keys {
		out += mm[k].text() + "\n"
	}
	return out
}

func modelOf(set *prometheus.MetricSet) metricModel {
	mm := metricModel{}
	for _, m := range set.All() {
		mm[fromMetric(m).key()] = fromMetric(m)
	}
	return mm
}

func TestC27_Histories(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 15000, Thorough: 400000,
		Rule: "histories of updates, merges, rendering and parsing back of metric sets, with labels in any order, compared with a map; non-trivial: some metric is replaced"},
		func(c *hz.C) {
			set := prometheus.NewMetricSet()
			model := metricModel{}
			replaced := false
			var trace []string
			update := func(mm metricModel, m metric) {
				if _, ok := mm[m.key()]; ok {
					replaced = true
				}
				mm[m.key()] = m
			}
			drawFrom := func() metric {
				m := drawMetric(c.T)
				if len(model) > 0 && hz.Chance(c.T, 50, "existing") {
					var keys []string
					for k := range model {
						keys = append(keys, k)
					}
					sort.Strings(keys)
					old := model[rapid.SampledFrom(keys).Draw(c.T, "key")]
					m.name = old.name
					m.labels = nil
					if len(old.labels) > 0 {
						m.labels = rapid.Permutation(old.labels).Draw(c.T, "order")
					}
				}
				return m
			}
			for i := hz.Int(c.T, 1, 12, "ops"); i > 0; i-- {
				switch op := hz.One(c.T, "op", "update", "update", "merge", "roundtrip"); op {
				case "update":
					m := drawFrom()
					trace = append(trace, m.text())
					update(model, m)
					set.Update(m.build())
				case "merge":
					var text bytes.Buffer
					other := metricModel{}
					for k := hz.Many(c.T, hz.Int(c.T, 0, 5, "n"), 1, "n", 20, 70, 150); k > 0; k-- {
						m := drawFrom()
						other[m.key()] = m
						text.WriteString(m.textUnsorted() + "\n")
						if hz.Chance(c.T, 10, "blank") {
							text.WriteString("\n")
						}
					}
					trace = append(trace, "merge "+text.String())
					in := text.Bytes()
					orig := string(in)
					parsed, err := prometheus.ParseMetrics(in)
					if err != nil {
						c.Fatalf("ParseMetrics(%q): %v", orig, err)
					}
					if string(in) != orig {
						c.Fatalf("ParseMetrics modified its input")
					}
					if modelOf(parsed).text() != other.text() {
						c.Fatalf("ParseMetrics(%q) gives %q", orig, modelOf(parsed).text())
					}
					for _, m := range other {
						update(model, m)
					}
					set.UpdateFromSet(parsed)
				case "roundtrip":
					text := set.ToBytes()
					again, err := prometheus.ParseMetrics(text)
					if err != nil {
						c.Fatalf("ParseMetrics(%q): %v", text, err)
					}
					set = again
					trace = append(trace, op)
				}
				if got, want := modelOf(set).text(), model.text(); got != want || len(set.All()) != len(model) {
					c.Fatalf("after %q: set contains %q, want %q", trace, got, want)
				}
				if got, want := string(set.ToBytes()), model.text(); got != want {
					c.Fatalf("after %q: set formatted as %q, want %q", trace, got, want)
				}
				if got, want := string(set.ToBytes()), model.text(); got != want {
					c.Fatalf("after %q: set formatted a second time as %q, want %q", trace, got, want)
				}
			}
			c.LabelIf(replaced, "metric replaced")
			if replaced {
				c.NonTrivial(strings.Join(trace, ";"))
			}
			c.Sample(func() string { return strings.Join(trace, "; ") })
		})
}

func (m metric) textUnsorted() string {
	s := m.name
	if len(m.labels) > 0 {
		var ls []string
		for _, l := range m.labels {
			ls = append(ls, l[0]+`="`+l[1]+`"`)
		}
		s += "{" + strings.Join(ls, ",") + "}"
	}
	s += fmt.Sprintf(" %d", m.value)
	if m.ms > 0 {
		s += fmt.Sprintf(" %d", m.ms)
	}
	return s
}

// Label sets derived from one another are independent.
func TestC27_Labels(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 20000, Thorough: 500000,
		Rule: "trees of label sets derived from each other with With, used in metrics and rendered in any order; non-trivial: a set is extended at least twice"},
		func(c *hz.C) {
			type node struct {
				labels prometheus.Labels
				model  metric
			}
			nodes := []node{{}}
			extended := map[int]int{}
			twice := false
			deep := hz.Chance(c.T, 2, "deep")
			for i := hz.Many(c.T, hz.Int(c.T, 1, 12, "ops"), 3, "ops", 30, 60); i > 0; i-- {
				k := hz.Int(c.T, 0, len(nodes)-1, "node")
				if deep {
					k = len(nodes) - 1
				}
				n := nodes[k]
				switch hz.One(c.T, "op", "with", "with", "with", "render", "metric") {
				case "with":
					name := fmt.Sprintf("%c%d", 'z'-rune(hz.Int(c.T, 0, 25, "letter")), len(nodes))
					value := fmt.Sprint("v", len(nodes))
					m := metric{name: "m", labels: append(append([][2]string(nil), n.model.labels...), [2]string{name, value})}
					nodes = append(nodes, node{n.labels.With(name, value), m})
					extended[k]++
					twice = twice || extended[k] > 1
				case "render":
					n.labels.ToBytes()
				case "metric":
					(&prometheus.Metric{Name: []byte("m"), Labels: n.labels}).ToBytes()
				}
				for i, n := range nodes {
					got := fromMetric(&prometheus.Metric{Name: []byte("m"), Labels: n.labels})
					n.model.name = "m"
					if got.key() != n.model.key() {
						c.Fatalf("label set %d is now %s, want %s", i, got.key(), n.model.key())
					}
				}
			}
			for i, n := range nodes {
				want := strings.TrimPrefix(n.model.key(), "m")
				if got := string(n.labels.ToBytes()); got != want {
					c.Fatalf("label set %d is rendered as %s, want %s", i, got, want)
				}
			}
			c.LabelIf(twice, "extended twice")
			if twice {
				c.NonTrivial(fmt.Sprint(len(nodes)), nodes[len(nodes)-1].model.key(), fmt.Sprint(extended))
			}
			c.Sample(func() string { return fmt.Sprint(len(nodes), " sets, last ", nodes[len(nodes)-1].model.key()) })
		})
}

// refParseMetric is the specification of the supported metric format.
func refParseMetric(s string) (metric, bool) {
	var m metric
	i := strings.IndexAny(s, " {")
	if i < 0 {
		return m, false
	}
	m.name, s = s[:i], s[i:]
	if s[0] == '{' {
		s = s[1:]
		if strings.HasPrefix(s, "}") {
			s = s[1:]
		} else {
			for {
				parts := strings.SplitN(s, `="`, 2)
				if len(parts) < 2 {
					return m, false
				}
				parts2 := strings.SplitN(parts[1], `"`, 2)
				if len(parts2) < 2 || parts2[1] == "" {
					return m, false
				}
				m.labels = append(m.labels, [2]string{parts[0], parts2[0]})
				sep := parts2[1][0]
				s = parts2[1][1:]
				if sep == '}' {
					break
				}
				if sep != ',' {
					return m, false
				}
			}
		}
	}
	if !strings.HasPrefix(s, " ") {
		return m, false
	}
	fields := strings.SplitN(s[1:], " ", 2)
	var ok bool
	if m.value, ok = ref.Int([]byte(fields[0])); !ok {
		return m, false
	}
	if len(fields) == 2 {
		if m.ms, ok = ref.Int([]byte(fields[1])); !ok {
			return m, false
		}
	}
	return m, true
}

func TestC27_Malformed(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 40000, Thorough: 1000000,
		Rule: "metric texts which are cut off, mutated or arbitrary bytes, compared with a specification of the format; non-trivial: contains a space or brace"},
		func(c *hz.C) {
			var in []byte
			if hz.Chance(c.T, 15, "arbitrary") {
				in = rapid.SliceOfN(hz.Bytes(14, '{', '}', '=', '"', ' ', ',', 'a', '1', '\n', '-'), 0, 25).Draw(c.T, "in")
			} else {
				for i := hz.Int(c.T, 1, 3, "metrics"); i > 0; i-- {
					in = append(in, drawMetric(c.T).textUnsorted()...)
					in = append(in, '\n')
				}
				in = in[:len(in)-1]
				switch hz.One(c.T, "mutation", "cut", "replace", "delete", "insert", "none", "duplicate") {
				case "cut":
					in = in[:hz.Int(c.T, 0, len(in), "cut")]
				case "replace":
					in[hz.Int(c.T, 0, len(in)-1, "i")] = hz.One(c.T, "b", '{', '}', '=', '"', ' ', ',', byte('x'), '\n', '-', 0xff)
				case "delete":
					i := hz.Int(c.T, 0, len(in)-1, "i")
					in = append(in[:i:i], in[i+1:]...)
				case "insert":
					i := hz.Int(c.T, 0, len(in), "i")
					b := hz.One(c.T, "b", '{', '}', '=', '"', ' ', ',', byte('x'), '\n', '-', 0xff)
					in = append(in[:i:i], append([]byte{b}, in[i:]...)...)
				case "duplicate":
					i := hz.Int(c.T, 0, len(in), "i")
					in = append(in[:i:i], in...)
				}
			}
			orig := string(in)
			want := metricModel{}
			ok, unsure := true, false
			for _, line := range strings.Split(orig, "\n") {
				if line == "" {
					continue
				}
				m, mok := refParseMetric(line)
				unsure = unsure || (mok && len(line) < 3)
				if !mok {
					ok = false
					break
				}
				want[m.key()] = m
			}
			set, err := prometheus.ParseMetrics(in)
			if string(in) != orig {
				c.Fatalf("ParseMetrics(%q) modified its input", orig)
			}
			if unsure {
				return
			}
			if (err == nil) != ok {
				c.Fatalf("ParseMetrics(%q) returned error %v, but valid is %v", orig, err, ok)
			}
			if ok {
				got := modelOf(set)
				if len(set.All()) != len(want) || len(got) != len(want) {
					c.Fatalf("ParseMetrics(%q) gives %d metrics, want %d", orig, len(set.All()), len(want))
				}
				for k := range want {
					if fmt.Sprint(got[k].sorted(), got[k].value, got[k].ms, got[k].name) != fmt.Sprint(want[k].sorted(), want[k].value, want[k].ms, want[k].name) {
						c.Fatalf("ParseMetrics(%q) gives %v for %s, want %v", orig, got[k], k, want[k])
					}
				}
			}
			if !strings.Contains(orig, "\n") {
				_, err := prometheus.ParseMetric(in)
				if (err == nil) != (ok && orig != "") {
					c.Fatalf("ParseMetric(%q) returned error %v, but valid is %v", orig, err, ok)
				}
			}
			c.LabelIf(ok, "valid")
			c.LabelIf(!ok, "invalid")
			if strings.ContainsAny(orig, " {") {
				c.NonTrivial(orig)
			}
			c.Sample(func() string { return fmt.Sprintf("%q", orig) })
		})
}
