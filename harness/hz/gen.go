package hz

import "pgregory.net/rapid"

// Chance returns true in about pct percent of the cases. It shrinks to false.
func Chance(t *rapid.T, pct int, label string) bool {
	return rapid.IntRange(0, 99).Draw(t, label) >= 100-pct
}

// Many is n, or in some percent of all cases one of the (larger)
// values given.
func Many(t *rapid.T, n, pct int, label string, large ...int) int {
	if Chance(t, pct, "many "+label) {
		return One(t, label, large...)
	}
	return n
}

// Int draws a number between lo and hi.
func Int(t *rapid.T, lo, hi int, label string) int {
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// One draws one of the values.
func One[V any](t *rapid.T, label string, vs ...V) V {
	return rapid.SampledFrom(vs).Draw(t, label)
}

// Bytes draws bytes, pct percent of which are among the special ones.
func Bytes(plainWeight int, special ...byte) *rapid.Generator[byte] {
	return rapid.Custom(func(t *rapid.T) byte {
		if rapid.IntRange(0, 9).Draw(t, "k") < plainWeight/2 {
			return rapid.SampledFrom(special).Draw(t, "s")
		}
		return rapid.Byte().Draw(t, "b")
	})
}
