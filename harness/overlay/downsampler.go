package downsampler

import "time"

// VerifAssigner gives the checks access to an assigner.
type VerifAssigner struct{ a *assigner }

type verifClock struct{ now func() time.Time }

func (c *verifClock) Now() time.Time { return c.now() }

// VerifNewAssigner creates an assigner which gets the time from now.
func VerifNewAssigner(period time.Duration, now func() time.Time) *VerifAssigner {
	return &VerifAssigner{newAssigner(period, newAvgBucket, &verifClock{now})}
}

// Update processes lines.
func (v *VerifAssigner) Update(lines []byte) []error { return v.a.Update(lines) }

// Bytes returns a period's lines.
func (v *VerifAssigner) Bytes() []byte { return v.a.Bytes() }
