package system

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// metric is a metric as reported by a component.
type metric struct {
	name   string
	labels [][2]string // unique names
	value  int64
	ms     int64
}

func (m metric) format(labels [][2]string) string {
	var ls []string
	for _, l := range labels {
		ls = append(ls, l[0]+`="`+l[1]+`"`)
	}
	return m.name + "{" + strings.Join(ls, ",") + "}"
}

// key is the name with the labels in order.
func (m metric) key() string {
	labels := append([][2]string(nil), m.labels...)
	sort.Slice(labels, func(i, j int) bool { return labels[i][0] < labels[j][0] })
	return m.format(labels)
}

func (m metric) text(key string) string {
	s := key
	if len(m.labels) == 0 {
		s = m.name
	}
	s += fmt.Sprintf(" %d", m.value)
	if m.ms > 0 {
		s += fmt.Sprintf(" %d", m.ms)
	}
	return s
}

func drawMetric(t *rapid.T) metric {
	m := metric{
		name:  hz.One(t, "name", "foo", "bar", "foo_bar", "fo", "x:y", "a.b-c", "z", "größe"),
		value: hz.One(t, "value", 0, 1, -1, 1<<63-1, -1<<63, 12, rapid.Int64().Draw(t, "any")),
	}
	if hz.Chance(t, 60, "timestamp") {
		m.ms = rapid.Int64Range(1, 1<<62).Draw(t, "ms")
	}
	names := rapid.Permutation([]string{"host", "component", "a", "ab"}).Draw(t, "labels")
	for _, n := range names[:hz.Int(t, 0, 3, "nlabels")] {
		m.labels = append(m.labels, [2]string{n, rapid.SampledFrom([]string{"", "x", "x", "y", "foo bar", "a,b", "{}", "}", "a=b", "ü", "1 2"}).Draw(t, "lv")})
	}
	if hz.Chance(t, 2, "many labels") {
		for i := hz.One(t, "labels", 8, 16, 40); i > 0; i-- {
			m.labels = append(m.labels, [2]string{fmt.Sprint("l", i), fmt.Sprint(i % 3)})
		}
	}
	if len(m.labels) > 0 && hz.Chance(t, 2, "long") {
		m.labels[0][1] = strings.Repeat("long ", hz.One(t, "times", 10, 60, 1000))
	}
	return m
}

// validMetric tells whether a line is in the supported format.
func validMetric(s string) bool {
	i := strings.IndexAny(s, " {")
	if i < 0 {
		return false
	}
	s = s[i:]
	if s[0] == '{' {
		s = s[1:]
		if strings.HasPrefix(s, "}") {
			s = s[1:]
		} else {
			for {
				_, after, ok := strings.Cut(s, `="`)
				if !ok {
					return false
				}
				_, after, ok = strings.Cut(after, `"`)
				if !ok || after == "" {
					return false
				}
				s = after[1:]
				if after[0] == '}' {
					break
				}
				if after[0] != ',' {
					return false
				}
			}
		}
	}
	if !strings.HasPrefix(s, " ") {
		return false
	}
	value, ts, more := strings.Cut(s[1:], " ")
	if _, ok := ref.Int([]byte(value)); !ok {
		return false
	}
	if more {
		_, ok := ref.Int([]byte(ts))
		return ok
	}
	return true
}

// invalidLine draws a line which is not a metric.
func invalidLine(t *rapid.T) string {
	for i := 0; i < 20; i++ {
		m := drawMetric(t)
		s := m.text(m.format(m.labels))
		at := hz.Int(t, 0, len(s)-1, "at")
		switch hz.Int(t, 0, 4, "how") {
		case 0:
			s = s[:at]
		case 1:
			s = s[:at] + hz.One(t, "byte", "{", "}", "=", `"`, " ", ",", "x", "-", "\xff") + s[at+1:]
		case 2:
			s = s[:at] + s[at+1:]
		case 3:
			s = s[:at] + hz.One(t, "insert", "{", "}", "=", `"`, " ", ",", "x", "-", "\xff") + s[at:]
		case 4:
			s = string(rapid.SliceOfN(hz.Bytes(14, '{', '}', '=', '"', ' ', ',', 'a', '1', '-'), 1, 25).Draw(t, "bytes"))
		}
		if s = strings.ReplaceAll(s, "\n", ""); s != "" && !validMetric(s) {
			return s
		}
	}
	return "invalid"
}

type metricState map[string]metric

func (ms metricState) text() string {
	var keys []string
	for k := range ms {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out strings.Builder
	for _, k := range keys {
		out.WriteString(ms[k].text(k))
		out.WriteByte('\n')
	}
	return out.String()
}

func httpGet(url string) (int, string, error) {
	resp, err := httpClient.Get(url)
	if err != nil {
		return 0, "", err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

var httpClient = &http.Client{
	Timeout: 20 * time.Second,
	Transport: &http.Transport{
		DisableKeepAlives: true,
		DialContext:       (&net.Dialer{Timeout: 10 * time.Second}).DialContext,
	},
}

func TestC28_Histories(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 250, Thorough: 5000,
		Rule: "a running monitor gets a generated sequence of messages (valid ones with labels in any order, some containing an invalid line), while several clients poll /metrics; each response must be exactly one of the model's states, and never an earlier one than before; non-trivial: a metric is replaced and a message is invalid"},
		func(c *hz.C) {
			state := metricState{}
			states := []string{""}
			var msgs []string
			replaced, invalid := false, false
			count := hz.Many(c.T, hz.One(c.T, "messages", 1, 3, 8, 20, 40), 3, "messages", 150, 400)
			for n := count; n > 0; n-- {
				next := metricState{}
				for k, m := range state {
					next[k] = m
				}
				var lines []string
				size := hz.One(c.T, "lines", 0, 1, 1, 2, 5)
				if count <= 40 && hz.Chance(c.T, 3, "large") {
					size = 300
				}
				for k := size; k > 0; k-- {
					m := drawMetric(c.T)
					if len(state) > 0 && hz.Chance(c.T, 50, "existing") {
						var keys []string
						for key := range state {
							keys = append(keys, key)
						}
						sort.Strings(keys)
						old := state[hz.One(c.T, "key", keys...)]
						m.name, m.labels = old.name, nil
						if len(old.labels) > 0 {
							m.labels = rapid.Permutation(old.labels).Draw(c.T, "order")
						}
						replaced = true
					}
					if size == 300 {
						m.labels = append(m.labels, [2]string{"zz", fmt.Sprint(k)})
					}
					next[m.key()] = m
					lines = append(lines, m.text(m.format(m.labels)))
				}
				if hz.Chance(c.T, 30, "invalid") {
					invalid = true
					at := hz.Int(c.T, 0, len(lines), "at")
					lines = append(lines[:at:at], append([]string{invalidLine(c.T)}, lines[at:]...)...)
				} else {
					state = next
				}
				msg := strings.Join(lines, "\n")
				if hz.Chance(c.T, 70, "newline") {
					msg += "\n"
				}
				if hz.Chance(c.T, 10, "blank") {
					msg = "\n" + msg
				}
				msgs = append(msgs, msg)
				states = append(states, state.text())
			}
			// With this, all messages are known to be processed.
			state["zzz{}"] = metric{name: "zzz", value: 1}
			msgs = append(msgs, "zzz 1")
			states = append(states, state.text())

			hz.Attempts(c, 10*time.Second, func(wait time.Duration) error {
				conf := sut.Config(sut.NATS(), "monitor", sut.Unique())
				comp := sut.MustStart(conf)
				defer sut.StopLater(comp, conf)
				url := fmt.Sprintf("http://127.0.0.1:%d/metrics", conf.Port)
				var wg sync.WaitGroup
				var mu sync.Mutex
				var failed error
				for i := 0; i < 3; i++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						k := 0
						end := time.Now().Add(wait)
						for {
							late := time.Now().After(end)
							status, body, err := httpGet(url)
							if err == nil && status != 200 {
								err = fmt.Errorf("/metrics answers with status %d", status)
							} else if err != nil {
								err = hz.Softf("can't get /metrics")
							} else {
								from := k
								for k < len(states) && states[k] != body {
									k++
								}
								if k == len(states) {
									err = fmt.Errorf("/metrics is %.2000q, which is not the state after any of the messages", body)
									for _, s := range states[:from] {
										if s == body {
											err = fmt.Errorf("/metrics goes back to %.2000q, an earlier state than seen before", body)
										}
									}
								} else if late && k < len(states)-1 {
									err = hz.Softf("/metrics remains %.2000q instead of %.2000q", body, states[len(states)-1])
								}
							}
							mu.Lock()
							if err != nil && failed == nil {
								failed = err
							}
							stop := failed != nil
							mu.Unlock()
							if stop || k == len(states)-1 {
								return
							}
						}
					}()
				}
				for _, m := range msgs {
					sut.Publish(sut.Conn(), conf.NATSSubjectMonitor, []byte(m))
				}
				sut.Flush(sut.Conn())
				wg.Wait()
				if failed != nil {
					return fmt.Errorf("%w\nmessages: %.3000q", failed, msgs)
				}
				return nil
			})
			if replaced && invalid {
				c.NonTrivial(strings.Join(msgs, "|"))
			}
			c.Sample(func() string { return fmt.Sprintf("%q", msgs) })
		})
}
