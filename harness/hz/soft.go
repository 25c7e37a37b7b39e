package hz

import (
	"errors"
	"fmt"
	"time"
)

// Soft is an error which might be due to the machine being slow. It
// only counts when it persists with much longer timeouts.
type Soft struct{ msg string }

func (s *Soft) Error() string { return s.msg }

// Softf returns a Soft error.
func Softf(format string, args ...interface{}) error {
	return &Soft{fmt.Sprintf(format, args...)}
}

// Attempts runs f until it returns something else than a Soft error,
// but not more than three times. wait is multiplied each time.
func Attempts(c *C, wait time.Duration, f func(wait time.Duration) error) {
	c.Helper()
	attempts(c, wait, 3, 3, f)
}

// Timed is like Attempts for checks of upper limits of durations, with
// wait as the slack. It grows less, so that excesses of a few times the
// slack are found.
func Timed(c *C, wait time.Duration, f func(wait time.Duration) error) {
	c.Helper()
	attempts(c, wait, 5, 1.25, f)
}

func attempts(c *C, wait time.Duration, n int, factor float64, f func(wait time.Duration) error) {
	c.Helper()
	var err error
	if c.p.failed {
		// A failure is being reproduced or shrunk.
		for ; n > 2; n-- {
			wait = time.Duration(float64(wait) * factor)
		}
		n = 1
	}
	for i := 0; i < n; i++ {
		err = f(wait)
		if err == nil {
			return
		}
		if s := (*Soft)(nil); !errors.As(err, &s) {
			break
		}
		c.Label("attempt repeated")
		wait = time.Duration(float64(wait) * factor)
	}
	c.Fatalf("%v", err)
}
