package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
)

func sortStrings(s []string) { sort.Strings(s) }

var lispFns = strings.Fields("tempo tempo! metric-modulation metric-modulation! quant quantize! quantization vol volume! track-vol track-volume pan panning! octave octave! set-duration set-duration-ms set-note-length key-sig key-signature! transpose transposition! reference-pitch tuning-constant midi-channel ppp mf! ffffff note pause slur chord duration note-length ms midi-note pitch quote list barline cram voice repeat nosuch cram")

func randSexp(r *rand.Rand, depth int) string {
	if depth == 0 || r.Intn(3) == 0 {
		switch r.Intn(7) {
		case 0:
			return fmt.Sprint(r.Intn(300) - 20)
		case 1:
			return fmt.Sprintf("%d.%d", r.Intn(20), r.Intn(100))
		case 2:
			return []string{`"4."`, `""`, `"f+ c+"`, `"x"`, `"8~8"`, `"500ms"`, `"0"`, `"4.5.."`, `"c-"`, `"h"`}[r.Intn(10)]
		case 3:
			return "'" + []string{"up", "down", "a", "(c)", "(c sharp)", "(g major)", "()", "(a (flat))", "((a))", "(g flat minor)"}[r.Intn(10)]
		case 4:
			return lispFns[r.Intn(len(lispFns))]
		default:
			return fmt.Sprint(r.Intn(9))
		}
	}
	n := r.Intn(4)
	s := "(" + lispFns[r.Intn(len(lispFns))]
	for i := 0; i < n; i++ {
		s += " " + randSexp(r, depth-1)
	}
	return s + ")"
}
