package downsampler

import (
	"bytes"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/harness/gen"
	"verif/harness/hz"
	"verif/harness/ref"
)

// malformed tells whether a line (without newline) can't be parsed.
func malformed(line []byte) bool {
	if _, at, ok := ref.Timestamp(line); ok {
		line = line[:at-1]
	}
	key, rest, ok := ref.SplitToken(line, " ")
	if len(key) == 0 {
		return true
	}
	if !ok || len(rest) == 0 {
		return false // no fields: not specified
	}
	_, err := parseFields(rest)
	return err != nil
}

func genMalformed(t *rapid.T) []byte {
	for i := 0; i < 20; i++ {
		p := genPoint(t, map[string]kind{})
		good := p.line()
		s := good
		switch hz.Int(t, 0, 7, "how") {
		case 0:
			s = good + hz.One(t, "end", ",", ",g", ",g=", `,g="x`, ",=1", `,g="x\"`, ",,", `,g="`, `,f="x"y`, `,f="x" `, ",g=1,,h=2", ",g=,h=2")
		case 1:
			s = p.key + " " + hz.One(t, "start", ",", "g,", "g=,", `g="x`, "=1,", `g="x\",`, "g", `f="x"y,`) + good[len(p.key)+1:]
		case 2:
			s = good[:hz.Int(t, 0, len(good), "cut")]
		case 3:
			s = good[hz.Int(t, 0, len(good), "from"):]
		case 4:
			b := []byte(good)
			b[hz.Int(t, 0, len(b)-1, "at")] = hz.One(t, "byte", byte('"'), ',', '=', ' ', '\\', 'x', 0, 0xff)
			s = string(b)
		case 5:
			at := hz.Int(t, 0, len(good), "at")
			s = good[:at] + hz.One(t, "insert", `"`, ",", "=", " ", `\`, `"",`, "=,") + good[at:]
		case 6:
			at := hz.Int(t, 0, len(good)-1, "at")
			s = good[:at] + good[at+1:]
		case 7:
			s = string(bytes.ReplaceAll(gen.Garbage(t, "g"), []byte("\n"), nil))
		}
		if malformed([]byte(s)) {
			return []byte(s)
		}
	}
	return []byte("cpu f")
}

// A running downsampler, in real time.
func TestC23_E2E(t *testing.T) {
	hz.Check(t, hz.Opts{Quick: 4, Thorough: 60,
		Rule: "ten running downsamplers at a time, fed with generated points and malformed lines (cut, mutated, with broken fields) of the same series; the output must be that of the valid lines and each malformed line must be counted; non-trivial: all (each downsampler is a case)"},
		func(c *hz.C) {
			var ws []*world
			for i := 0; i < 10; i++ {
				w := genWorld(c, hz.Int(c.T, 1, 2, "subjects"))
				for j := range w.msgs {
					for n := hz.One(c.T, "malformed", 0, 1, 2, 4); n > 0; n-- {
						l := line{text: string(genMalformed(c.T)), malformed: true}
						if _, _, ok := ref.Timestamp([]byte(l.text)); ok {
							continue // might be outside of the periods
						}
						if l.text == "" {
							continue
						}
						l.offset = time.Duration(hz.Int(c.T, 0, int(w.period)-1, "offset"))
						l.noTS = hz.Chance(c.T, 30, "no timestamp")
						insert(c, &w.msgs[j], l)
					}
				}
				ws = append(ws, w)
			}
			for _, w := range ws {
				c.Sub(true, w.String())
			}
			c.Sample(func() string { return ws[0].String() })
			runAll(c, ws)
		})
}
