package sut

import (
	"runtime"
	"strings"
	"time"
)

// Goroutines returns the stacks of those goroutines which run code of
// influx-spout or which were created by it.
func Goroutines() []string {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	var out []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "github.com/jumptrading/influx-spout/") {
			out = append(out, g)
		}
	}
	return out
}

// Until waits until f is true.
func Until(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for pause := time.Millisecond; ; pause = min(pause*2, 50*time.Millisecond) {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return false
		}
		time.Sleep(pause)
	}
}
