package bus

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/jumptrading/influx-spout/v2/config"
	"verif/harness/hz"
	"verif/harness/ref"
	"verif/harness/sut"
)

// consumer is a component which consumes messages.
type consumer struct {
	mode     string // writer or downsampler
	group    string // of a writer
	name     string
	subjects []int
	workers  int
}

func (m consumer) String() string {
	return fmt.Sprintf("%s %q group %q %v", m.mode, m.name, m.group, m.subjects)
}

// step is a change of the consumers, or messages on subjects.
type step struct {
	start *consumer
	stop  int // index of a running consumer, or -1
	msgs  []int
}

// running is a consumer and what it got.
type running struct {
	consumer
	conf   *config.Config
	comp   sut.Component
	influx *sut.Influx
	col    *sut.Collector
}

// got counts the lines consumed so far.
func (r *running) got() map[string]int {
	out := map[string]int{}
	add := func(b []byte) {
		for _, l := range ref.Lines(b) {
			out[strings.Fields(string(l))[0]]++
		}
	}
	if r.influx != nil {
		add(sut.Bodies(r.influx.Reqs()))
	} else {
		for _, m := range r.col.Msgs() {
			add(m.Data)
		}
	}
	return out
}

func TestC36_Groups(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 120, Thorough: 4000,
		Rule: "histories of starting and stopping writers (with and without queue groups) and downsamplers with generated subjects, and of messages on these subjects in between; every message must be consumed once by each consumer without a group, and once by the members of each group together; non-trivial: a group has two members with a common subject, or two consumers without a group have one"},
		checkGroups)
}

func checkGroups(c *hz.C) {
	const subjects = 3
	drawConsumer := func() *consumer {
		m := &consumer{mode: hz.One(c.T, "mode", "writer", "writer", "writer", "downsampler"), workers: hz.One(c.T, "workers", 1, 2, 4)}
		m.name = hz.One(c.T, "name", "a", "a", "b", "")
		if m.mode == "writer" {
			m.group = hz.One(c.T, "group", "", "", "a", "g1", "g1", "g2")
		}
		first := hz.Int(c.T, 0, subjects-1, "subject")
		m.subjects = []int{first}
		for s := 0; s < subjects; s++ {
			if s != first && hz.Chance(c.T, 40, "more") {
				m.subjects = append(m.subjects, s)
			}
		}
		return m
	}
	var steps []step
	var live []*consumer
	shared := false
	for n := hz.Int(c.T, 2, 10, "steps"); n > 0; n-- {
		switch what := hz.One(c.T, "step", "start", "start", "stop", "messages"); {
		case what == "stop" && len(live) > 0:
			i := hz.Int(c.T, 0, len(live)-1, "which")
			steps = append(steps, step{stop: i})
			live = append(live[:i:i], live[i+1:]...)
		case what == "start" && len(live) < 6 || len(live) == 0:
			m := drawConsumer()
			for _, o := range live {
				for _, s := range m.subjects {
					for _, q := range o.subjects {
						shared = shared || s == q && o.group == m.group && o.mode == m.mode
					}
				}
			}
			live = append(live, m)
			steps = append(steps, step{start: m, stop: -1})
		default:
			st := step{stop: -1}
			for k := hz.Int(c.T, 1, 30, "messages"); k > 0; k-- {
				st.msgs = append(st.msgs, hz.Int(c.T, 0, subjects-1, "on"))
			}
			steps = append(steps, st)
		}
	}
	last := step{stop: -1}
	for i := 0; i < 4*subjects; i++ {
		last.msgs = append(last.msgs, i%subjects)
	}
	steps = append(steps, last)

	srv := sut.NATS()
	hz.Attempts(c, 4*time.Second, func(wait time.Duration) error {
		prefix := sut.Unique()
		nc := sut.Connect(srv)
		defer nc.Close()
		subject := func(i int) string { return fmt.Sprintf("%s.s%d", prefix, i) }
		var all, live []*running
		defer func() {
			for _, r := range live {
				sut.StopNow(r.comp, r.conf)
			}
			for _, r := range all {
				if r.influx != nil {
					r.influx.Close()
				} else {
					r.col.Close()
				}
			}
		}()
		// want tells who must consume a line: sets of which one each.
		type claim struct {
			line string
			by   []*running
			what string
		}
		var claims []claim
		n := 0
		verify := func() error {
			allowed := map[*running]map[string]bool{}
			got := map[*running]map[string]int{}
			for _, r := range all {
				allowed[r] = map[string]bool{}
				got[r] = r.got()
			}
			var soft error
			for _, cl := range claims {
				times := 0
				for _, r := range cl.by {
					allowed[r][cl.line] = true
					times += got[r][cl.line]
				}
				if times > 1 {
					return fmt.Errorf("message %s was consumed %d times by %s", cl.line, times, cl.what)
				}
				if times < 1 {
					soft = hz.Softf("message %s was not consumed by %s", cl.line, cl.what)
				}
			}
			for _, r := range all {
				var lines []string
				for l := range got[r] {
					if !allowed[r][l] {
						lines = append(lines, l)
					}
				}
				if len(lines) > 0 {
					sort.Strings(lines)
					return fmt.Errorf("message %q was consumed by a %v", lines[0], r.consumer)
				}
			}
			return soft
		}
		for _, st := range steps {
			switch {
			case st.start != nil:
				r := &running{consumer: *st.start}
				r.conf = sut.Config(srv, r.mode, prefix)
				r.conf.StatsInterval = config.NewDuration(50 * time.Millisecond)
				r.conf.Name, r.conf.QueueGroup, r.conf.Workers = r.name, r.group, r.workers
				r.conf.BatchMaxCount = 1
				r.conf.NATSSubject = nil
				var outs []string
				for _, s := range r.subjects {
					r.conf.NATSSubject = append(r.conf.NATSSubject, subject(s))
				}
				if r.mode == "writer" {
					r.influx = sut.NewInflux(nil)
					r.conf.InfluxDBPort = r.influx.Port
				} else {
					r.conf.DownsampleSuffix = fmt.Sprintf("-%d", len(all))
					r.conf.DownsamplePeriod = config.NewDuration(30 * time.Millisecond)
					for _, s := range r.subjects {
						outs = append(outs, subject(s)+r.conf.DownsampleSuffix)
					}
					r.col = sut.Collect(nc, outs...)
				}
				r.comp = sut.MustStart(r.conf)
				all = append(all, r)
				live = append(live, r)
			case st.stop >= 0:
				r := live[st.stop]
				live = append(live[:st.stop:st.stop], live[st.stop+1:]...)
				before := srv.NumClients()
				sut.StopNow(r.comp, r.conf)
				if !sut.Until(wait, func() bool { return srv.NumClients() < before }) {
					return hz.Softf("the connection of a stopped component remains")
				}
			default:
				for _, s := range st.msgs {
					n++
					line := fmt.Sprintf("m,n=%d,s=%d", n, s)
					groups := map[string][]*running{}
					for i, r := range live {
						for _, q := range r.subjects {
							if q == s {
								g := "group " + r.group
								if r.group == "" {
									g = fmt.Sprintf("alone %d", i)
								}
								groups[g] = append(groups[g], r)
							}
						}
					}
					for _, rs := range groups {
						what := fmt.Sprintf("a %v", rs[0].consumer)
						if rs[0].group != "" {
							what = fmt.Sprintf("the %d members of group %s", len(rs), rs[0].group)
						}
						claims = append(claims, claim{line, rs, what})
					}
					sut.Publish(nc, subject(s), []byte(line+" f=1i\n"))
				}
				sut.Flush(nc)
				// Everything has to be consumed before the next change.
				end := time.Now().Add(wait)
				for {
					err := verify()
					if err == nil {
						break
					}
					if _, soft := err.(*hz.Soft); !soft || time.Now().After(end) {
						return err
					}
					time.Sleep(3 * time.Millisecond)
				}
			}
		}
		// What was consumed twice might take a little longer.
		time.Sleep(40 * time.Millisecond)
		return verify()
	})
	if shared {
		c.NonTrivial(describe(steps))
	}
	c.Sample(func() string { return describe(steps) })
}

func describe(steps []step) string {
	var s []string
	for _, st := range steps {
		switch {
		case st.start != nil:
			s = append(s, "start "+st.start.String())
		case st.stop >= 0:
			s = append(s, fmt.Sprintf("stop #%d", st.stop))
		default:
			s = append(s, fmt.Sprintf("messages on %v", st.msgs))
		}
	}
	return strings.Join(s, "; ")
}
