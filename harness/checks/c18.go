package checks

import (
	"bytes"
	"fmt"
	"math"
	"sort"
	"strings"

	"alda.io/client/interop/musicxml/importer"
	"alda.io/client/model"
	"alda.io/client/parser"

	"verif/fw"
	"verif/sut"
)

// importXML is what "alda import" does.
func importXML(text string) (code string, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("crash: %v", x)
		}
	}()
	ups, err := importer.ImportMusicXML([]byte(text))
	if err != nil {
		return "", err
	}
	ast, err := parser.GenerateASTFromScoreUpdates(ups)
	if err != nil {
		return "", fmt.Errorf("no tree: %v", err)
	}
	var b bytes.Buffer
	if err := parser.FormatASTToCode(ast, &b); err != nil {
		return "", fmt.Errorf("no code: %v", err)
	}
	return b.String(), nil
}

// The volumes of the dynamic markings, as documented.
var xVolumes = map[string]float64{"": 0.54, "pppppp": 0.01, "ppppp": 0.08, "pppp": 0.16, "ppp": 0.23, "pp": 0.31, "p": 0.39, "mp": 0.46, "mf": 0.54, "f": 0.62, "ff": 0.69, "fff": 0.77, "ffff": 0.85, "fffff": 0.92, "ffffff": 1}

// sameAsXML compares the music of imported code with that of the document.
func sameAsXML(d *xDoc, code string) string {
	r := sut.Compile(code)
	if r.Stage != sut.OK {
		return fmt.Sprintf("the imported score is not playable: %v", r.Err)
	}
	parts := append([]*xPart{}, d.parts...)
	sort.Slice(parts, func(i, j int) bool { return parts[i].id < parts[j].id })
	if len(r.Score.Parts) != len(parts) {
		return fmt.Sprintf("%d parts in the imported score, %d in the document", len(r.Score.Parts), len(parts))
	}
	got := map[int32][]model.NoteEvent{}
	tracks := r.Score.Tracks()
	for _, e := range r.Score.Events {
		n := e.(model.NoteEvent)
		t, ok := tracks[n.Part]
		if !ok {
			return "a note of a part that is not in the score"
		}
		got[t] = append(got[t], n)
	}
	// Parts are matched by their instrument and notes; their order in the score
	// does not matter to the listener.
	taken := map[*model.Part]bool{}
	for _, pt := range parts {
		why, found := "", false
		for i, p := range r.Score.Parts {
			if taken[p] || p.StockInstrument.Name() != pt.instrument() {
				continue
			}
			if msg := samePart(pt, got[int32(i+1)]); msg != "" {
				why += "; " + msg
				continue
			}
			taken[p], found = true, true
			break
		}
		if !found && why == "" {
			return fmt.Sprintf("part %s: no part in the imported score is played by %s", pt.id, pt.instrument())
		}
		if !found {
			return fmt.Sprintf("part %s (%s)%s", pt.id, pt.instrument(), why)
		}
	}
	return ""
}

func samePart(pt *xPart, got []model.NoteEvent) string {
	want, total := pt.sounds()
	if len(want) != len(got) {
		return fmt.Sprintf("%d notes instead of %d%s", len(got), len(want), firstDiff(want, got))
	}
	tol := 1 + total*500*1e-5
	free := make([]bool, len(got))
	sort.SliceStable(got, func(i, j int) bool { return got[i].Offset < got[j].Offset })
	for _, w := range want {
		found := false
		i := sort.Search(len(got), func(i int) bool { return got[i].Offset >= w.on*500-tol })
		for ; i < len(got) && got[i].Offset <= w.on*500+tol; i++ {
			n := got[i]
			if !free[i] && matches(w, n, tol) {
				free[i], found = true, true
				break
			}
		}
		if !found {
			return fmt.Sprintf("no note like %+v%s", w, firstDiff(want, got))
		}
	}
	return ""
}

func matches(w xSound, n model.NoteEvent, tol float64) bool {
	audible := w.dur * 500 * 0.9
	if w.slurred {
		audible = w.dur * 500
	}
	return int(n.MidiNote) == w.midi && math.Abs(n.Offset-w.on*500) <= tol && math.Abs(n.Duration-w.dur*500) <= tol &&
		math.Abs(n.AudibleDuration-audible) <= tol && math.Abs(n.Volume-xVolumes[w.dyn]) < 0.01
}

func firstDiff(want []xSound, got []model.NoteEvent) string {
	w := append([]xSound{}, want...)
	sort.SliceStable(w, func(i, j int) bool {
		if math.Abs(w[i].on-w[j].on) > 1e-6 {
			return w[i].on < w[j].on
		}
		return w[i].midi < w[j].midi
	})
	g := append([]model.NoteEvent{}, got...)
	sort.SliceStable(g, func(i, j int) bool {
		if math.Abs(g[i].Offset-g[j].Offset) > 0.5 {
			return g[i].Offset < g[j].Offset
		}
		return g[i].MidiNote < g[j].MidiNote
	})
	var b strings.Builder
	for i := 0; i < len(w) || i < len(g); i++ {
		if i < len(w) && i < len(g) && matches(w[i], g[i], 1.5) {
			continue
		}
		if i < len(w) {
			fmt.Fprintf(&b, "\n  document, note %d: beat %.4f, %.4f beats, pitch %d, slurred %v, dynamics %q", i, w[i].on, w[i].dur, w[i].midi, w[i].slurred, w[i].dyn)
		}
		if i < len(g) {
			fmt.Fprintf(&b, "\n  imported, note %d: beat %.4f, %.4f beats (%.4f audible), pitch %d, volume %.10f", i, g[i].Offset/500, g[i].Duration/500, g[i].AudibleDuration/500, g[i].MidiNote, g[i].Volume)
		}
		break
	}
	return b.String()
}

func init() {
	fw.Register(&fw.Check{
		ID: "C18", Quick: 6000, Thorough: 200000, MinNontrivialPct: 60,
		Rule:  "MusicXML documents made up together with what they sound like, imported, printed as Alda code, compiled, and compared note by note (instrument, onset, length, slur, pitch, volume). Non-trivial: at least 8 notes.",
		Fixed: xKnownCases,
		Need:  []string{"ties", "chords tied in part", "chords", "slurred", "repeats", "repeats without a forward sign", "endings", "last endings with a repeat sign", "key changes", "dynamics", "grace notes", "cue notes", "gaps", "percussion parts", "parts with several voices", "transposed parts"},
		Case: func(c *fw.Ctx, i int) {
			g := &xGen{r: c.R, count: map[string]int{}}
			d := g.doc()
			text := d.print(c.R)
			n := 0
			for _, pt := range d.parts {
				s, _ := pt.sounds()
				n += len(s)
				if pt.program == -1 {
					g.count["percussion parts"]++
				}
				if len(pt.voiceNames) > 1 {
					g.count["parts with several voices"]++
				}
				for _, m := range pt.measures {
					if m.transpose != nil {
						g.count["transposed parts"]++
						break
					}
				}
			}
			code, err := importXML(text)
			c.Eval()
			for k, v := range g.count {
				c.Count(k, v)
			}
			c.Count("sounding notes", n)
			if n >= 8 {
				c.Nontrivial(text)
			}
			if err != nil {
				c.Fail(text, "a valid document is not imported: %v", err)
				return
			}
			if msg := sameAsXML(d, code); msg != "" {
				c.Fail(text+"\n\n"+code, "%s", msg)
			}
		},
	})
}

// Documents that are known to be imported wrongly (see known_findings.txt), and
// what they sound like: pitch, beat, beats.
func xKnown(name, measures string, want ...[3]float64) fw.Fixed {
	return fw.Fixed{Name: name, Run: func(c *fw.Ctx) {
		text := `<?xml version="1.0" encoding="UTF-8"?>
<score-partwise version="3.1"><part-list><score-part id="P1"><part-name>Music</part-name></score-part></part-list>
<part id="P1">` + measures + `</part></score-partwise>`
		c.Eval()
		code, err := importXML(text)
		if err != nil {
			c.Fail(text, "a valid document is not imported: %v", err)
			return
		}
		r := sut.Compile(code)
		if r.Stage != sut.OK {
			c.Fail(text+"\n\n"+code, "the imported score is not playable: %v", r.Err)
			return
		}
		var got [][3]float64
		for _, e := range r.Score.Events {
			n := e.(model.NoteEvent)
			got = append(got, [3]float64{float64(n.MidiNote), n.Offset / 500, n.Duration / 500})
		}
		order := func(s [][3]float64) {
			sort.Slice(s, func(i, j int) bool {
				a, b := s[i], s[j]
				return a[1] < b[1] || a[1] == b[1] && a[0] < b[0]
			})
		}
		order(got)
		order(want)
		if fmt.Sprintf("%.3f", got) != fmt.Sprintf("%.3f", want) {
			c.FailKey(name+"/"+strings.ReplaceAll(fmt.Sprintf("%.1f", got), " ", ","), text+"\n\n"+code, "notes (pitch, beat, beats) %.2f instead of %.2f", got, want)
		}
	}}
}

func xn(step string, octave, beats int, more string) string {
	chord := ""
	if strings.HasPrefix(more, "<chord/>") {
		chord, more = "<chord/>", strings.TrimPrefix(more, "<chord/>")
	}
	return fmt.Sprintf("<note>%s<pitch><step>%s</step><octave>%d</octave></pitch><duration>%d</duration>%s<voice>1</voice></note>", chord, step, octave, beats, more)
}

const (
	xStart   = `<attributes><divisions>1</divisions><time><beats>4</beats><beat-type>4</beat-type></time></attributes>`
	xForward = `<barline location="left"><repeat direction="forward"/></barline>`
	xBack    = `<barline location="right"><repeat direction="backward"/></barline>`
)

var xKnownCases = []fw.Fixed{
	xKnown("tied-group-after-larger-chord", `<measure number="1">`+xStart+xn("C", 4, 1, `<tie type="start"/>`)+xn("E", 4, 1, "<chord/>")+xn("C", 4, 1, `<tie type="stop"/>`)+xn("D", 4, 1, "")+xn("F", 4, 1, "")+`</measure>`,
		[3]float64{60, 0, 2}, [3]float64{64, 0, 1}, [3]float64{62, 2, 1}, [3]float64{65, 3, 1}),
	xKnown("key-change-inside-repeat", `<measure number="1">`+xForward+xStart+xn("C", 4, 4, "")+`</measure><measure number="2"><attributes><key><fifths>1</fifths></key></attributes>`+xn("A", 4, 4, "")+xBack+`</measure><measure number="3">`+xn("G", 4, 4, "")+`</measure>`,
		[3]float64{60, 0, 4}, [3]float64{69, 4, 4}, [3]float64{60, 8, 4}, [3]float64{69, 12, 4}, [3]float64{67, 16, 4}),
	xKnown("transposition-change-inside-repeat", `<measure number="1">`+xForward+xStart+xn("C", 4, 4, "")+`</measure><measure number="2"><attributes><transpose><chromatic>2</chromatic></transpose></attributes>`+xn("A", 4, 4, "")+xBack+`</measure><measure number="3">`+xn("G", 4, 4, "")+`</measure>`,
		[3]float64{60, 0, 4}, [3]float64{71, 4, 4}, [3]float64{62, 8, 4}, [3]float64{71, 12, 4}, [3]float64{69, 16, 4}),
}
