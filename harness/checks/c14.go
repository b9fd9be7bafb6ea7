package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.io/client/model"
	"alda.io/client/transmitter"

	"verif/fw"
	"verif/lang"
	"verif/oscx"
	"verif/sut"
)

// masterTempo is the tempo of the score as a step function; ok is false where
// there is no clear answer.
func masterTempo(ref *lang.Ref) (steps []lang.TempoPoint, ok bool) {
	at := map[float64]float64{0: 120}
	local := map[float64]float64{}
	for _, p := range ref.Local {
		at[p.Offset], local[p.Offset] = p.Tempo, p.Tempo
	}
	if ref.GlobalMetmod && len(ref.Local) > 0 || ref.VoiceTempo {
		return nil, false
	}
	gs := append([]lang.TempoPoint{}, ref.Global...)
	sort.SliceStable(gs, func(i, j int) bool { return gs[i].Offset < gs[j].Offset })
	last := 120.0
	global := map[float64]float64{}
	for _, g := range gs {
		if g.Ratio {
			last *= g.Tempo
		} else {
			last = g.Tempo
		}
		at[g.Offset], global[g.Offset] = last, last
	}
	for o, t := range global {
		if l, hit := local[o]; hit && math.Abs(l-t) > 1e-9 {
			return nil, false // the part's own tempo and everybody's at once
		}
	}
	for o, t := range at {
		steps = append(steps, lang.TempoPoint{Offset: o, Tempo: t})
	}
	sort.Slice(steps, func(i, j int) bool { return steps[i].Offset < steps[j].Offset })
	return steps, true
}

// tempoAt reads a step function.
func tempoAt(steps []lang.TempoPoint, t float64) float64 {
	v := math.NaN()
	for _, s := range steps {
		if s.Offset > t {
			break
		}
		v = s.Tempo
	}
	return v
}

// compareTempo checks the tempo messages against the master tempo within the
// window, away from the moments of change (offsets are rounded).
func compareTempo(c *fw.Ctx, steps, got []lang.TempoPoint, from, to float64) string {
	points := []float64{from, to}
	for _, s := range steps {
		points = append(points, s.Offset)
	}
	for _, s := range got {
		points = append(points, s.Offset+from)
	}
	sort.Float64s(points)
	check := func(t float64) string {
		if t < from || t >= to {
			return ""
		}
		for _, p := range points[0:] {
			if p != from && math.Abs(p-t) <= 0.51 {
				return ""
			}
		}
		want, have := tempoAt(steps, t), tempoAt(got, t-from)
		if c != nil {
			c.Count("tempo samples", 1)
		}
		if !(math.Abs(want-have) <= 1e-5*want) {
			return fmt.Sprintf("at %g ms (%g ms into the window) the tempo is %g, it should be %g; tempo messages: %v, tempo of the score: %v", t, t-from, have, want, got, steps)
		}
		return ""
	}
	for i, p := range points {
		if m := check(p); m != "" {
			return m
		}
		if i > 0 {
			if m := check((points[i-1] + p) / 2); m != "" {
				return m
			}
		}
	}
	last := points[len(points)-1]
	if math.IsInf(last, 1) && len(points) > 1 {
		last = points[len(points)-2]
	}
	return check(last + 5000)
}

// reference picks a from/to reference. pos is NaN if it has to be refused.
func reference(c *fw.Ctx, ref *lang.Ref, sc *model.Score, end float64) (text string, pos float64) {
	r := c.R
	names := []string{}
	for n := range ref.Markers {
		names = append(names, n)
	}
	sort.Strings(names)
	switch k := r.Intn(20); {
	case k < 8 && len(names) > 0:
		n := names[r.Intn(len(names))]
		// The same moment, give or take rounding errors.
		if m, ok := sc.Markers[n]; ok && sut.Close(m, ref.Markers[n].V()) {
			return n, m
		}
		return n, ref.Markers[n].V()
	case k < 18:
		s := r.Intn(2 + int(math.Min(end*1.3, 3e5)/1000))
		if r.Intn(8) == 0 {
			s += 60 * r.Intn(4)
		}
		m := s / 60
		f := fmt.Sprintf("%d:%02d", m, s%60)
		if s%60 < 10 && r.Intn(3) == 0 {
			f = fmt.Sprintf("%d:%d", m, s%60)
		}
		if r.Intn(8) == 0 {
			f = "0" + f
		}
		return f, float64(s) * 1000
	case k < 19:
		big := []string{"99999999999999999999:00", "9223372036854775:30", "0:99999999999999999999", "153722867280912:55", "9999:59", "153722867280912930:00", "307445734561825860:01", "0:9223372036854775"}
		return big[r.Intn(len(big))], math.Inf(1)
	default:
		bad := []string{"nosuch", "5", "0:3x", "-1:00", "1:2:3", " 0:01", "0:01 ", ":30", "1:", "0:-5", "1.5:00", "0:01.5", "%" + "x", "０:０1", "\n0:01", "0:01\n"}
		return bad[r.Intn(len(bad))], math.NaN()
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C14", Quick: 8000, Thorough: 300000, MinNontrivialPct: 25,
		Rule: "whole-language scores with many tempo changes, local and global, and markers, transmitted between random time markings and markers (given, absent, beyond the end, reversed, malformed, huge); the notes heard are compared with those of the window, moved to zero, and the tempo messages, read as a step function, with the master tempo of the reference interpreter. Non-trivial: a window that cuts off at least one note and leaves one, or at least 2 tempos.",
		Case: func(c *fw.Ctx, i int) {
			f := lang.All()
			f.Errors = false
			f.Sections, f.MaxParts, f.Len = 5, 3, 8
			if i%2 == 0 {
				f.MoreMarkers = 15
			}
			if i%3 == 0 {
				f.Voices, f.Repeats = false, false
			}
			s := (&lang.Gen{R: c.R, F: f}).Valid()
			if i%3 == 0 {
				s = tempoRich(c, i)
			}
			text := lang.Plain(s)
			ref, err := lang.Interpret(s)
			if err != nil {
				c.Count("skipped: refused or ambiguous", 1)
				return
			}
			res := sut.Compile(text)
			if res.Stage != sut.OK {
				c.Count("skipped: refused", 1)
				return
			}
			evs, err := sut.Events(res.Score)
			if err != nil {
				c.Fail(text, "%v", err)
				return
			}
			if tooLong(evs) || len(ref.Local)+len(ref.Global) > 0 && tooLongTempo(ref) {
				c.Count("skipped: longer than three weeks", 1)
				return
			}
			end := 0.0
			for _, e := range evs {
				end = math.Max(end, e.Offset)
			}
			steps, clear := masterTempo(ref)
			for try := 0; try < 4; try++ {
				from, to := 0.0, math.Inf(1)
				desc := text + "\noptions:"
				var opts []transmitter.TransmissionOption
				if try > 0 && c.R.Intn(3) > 0 {
					t, p := reference(c, ref, res.Score, end)
					opts, from = append(opts, transmitter.TransmitFrom(t)), p
					desc += fmt.Sprintf(" from %q", t)
				}
				if try > 0 && c.R.Intn(3) > 0 {
					t, p := reference(c, ref, res.Score, end)
					opts, to = append(opts, transmitter.TransmitTo(t)), p
					desc += fmt.Sprintf(" to %q", t)
				}
				if c.R.Intn(2) == 0 {
					opts = append(opts, transmitter.OneOff())
				}
				send := bundleOf
				if i%16 == 0 {
					send = sendOf
				}
				var msgs []oscx.Msg
				msgs, err := send(res.Score, opts...)
				c.Eval()
				if math.IsNaN(from) || math.IsNaN(to) {
					if err == nil {
						c.Fail(desc, "a reference that is neither a time nor a marker was accepted: %v", msgs)
						return
					}
					c.Count("references refused", 1)
					continue
				}
				if err != nil {
					if math.IsInf(from, 1) || math.IsInf(to, 1) && strings.Contains(desc, " to ") {
						c.Count("huge references refused", 1)
						continue
					}
					c.Fail(desc, "not transmitted: %v", err)
					return
				}
				pf, prob := perform(msgs)
				if prob != "" {
					c.Fail(desc, "%s", prob)
					return
				}
				want := inWindow(evs, from, to)
				c.Count("windows compared", 1)
				c.Count("notes compared", len(pf.notes))
				if m := compareNotes(want, pf.notes); m != "" {
					c.Fail(desc, "%s", m)
					return
				}
				if from >= to {
					c.Count("empty or reversed windows", 1)
				}
				if clear && from < to && !math.IsInf(from, 1) {
					c.Count("tempos compared", 1)
					if m := compareTempo(c, steps, pf.tempos, from, to); m != "" {
						c.Fail(desc, "%s", m)
						return
					}
				}
				if len(pf.notes) > 0 && (len(pf.notes) < len(evs) || clear && len(steps) > 1) {
					c.Nontrivial(desc)
					c.Sample(map[string]interface{}{"text": desc, "notes": len(pf.notes), "of": len(evs), "tempos": len(pf.tempos)})
				}
			}
		},
	})
}

func tooLongTempo(ref *lang.Ref) bool {
	for _, p := range append(append([]lang.TempoPoint{}, ref.Local...), ref.Global...) {
		if p.Offset > longest {
			return true
		}
	}
	return false
}

// tempoRich writes scores with many tempo changes and markers and nothing the
// reference interpreter could find ambiguous.
func tempoRich(c *fw.Ctx, i int) lang.Score {
	r := c.R
	var s lang.Score
	tempos := []float64{60, 75, 80, 96, 100, 120, 125, 150, 160, 200, 240, 33}
	names := []string{"piano", "violin", "flute"}
	n := 1 + r.Intn(3)
	local := i%2 == 0
	marks := 0
	for k := 0; k < n+r.Intn(3); k++ {
		s = append(s, lang.Part{Names: []string{names[k%n]}})
		for q := 0; q < 4+r.Intn(8); q++ {
			switch x := r.Intn(10); {
			case x == 0 && k == 0:
				s = append(s, lang.Marker{Name: fmt.Sprintf("mk%c", 'A'+marks)})
				marks++
			case x < 3:
				g := r.Intn(3) == 0
				if !local {
					g = true
				}
				t := tempos[r.Intn(len(tempos))]
				a := lang.Attr{Kind: "tempo", Fn: "tempo", Num: t, Args: fmt.Sprint(t), Global: g}
				if r.Intn(5) == 0 {
					a = lang.Attr{Kind: "metmod", Fn: "metric-modulation", Num: 2, Args: "4 2", Global: g}
					if r.Intn(2) == 0 {
						a.Num, a.Args = 0.5, "2 4"
					}
				}
				s = append(s, a)
			default:
				s = append(s, lang.Note{Letter: "cdefgab"[r.Intn(7)], Dur: &lang.Dur{Comps: []lang.Comp{lang.NL([]string{"1", "2", "4", "8", "16"}[r.Intn(5)], 0)}}})
			}
		}
	}
	return s
}
