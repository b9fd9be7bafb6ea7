package lang

import (
	"fmt"
	"math/rand"
	"sort"
	"strconv"
	"strings"
)

// Features weighs what the generator produces.
type Features struct {
	Chords, Crams, Repeats, OnReps, Vars, Voices, Attrs, Globals, Markers bool
	Groups                                                                bool // aliases and groups
	Lisp                                                                  bool // S-expression notes
	Slurs, MsDur, Ties, Frac                                              bool
	Keys                                                                  bool
	WideOct                                                               bool // octave changes that may leave the MIDI range
	Errors                                                                bool // sometimes refer to undefined things
	ExactTempo                                                            bool // tempos that keep times exact in binary
	Quant0                                                                bool
	MaxParts                                                              int
	Len                                                                   int // approximate number of events per part section
	Sections                                                              int
	Depth                                                                 int
	Percussion                                                            bool
	TempoAttrs                                                            bool // tempo and metric modulation
	ZeroRep                                                               bool
	CramInVar                                                             bool
	MoreMarkers                                                           int // raises the share of markers (up to 47)
	MoreAttrs                                                             int // same for attribute changes
	MoreVars, MoreVoices                                                  int
	Odd                                                                   int  // percentage of very long, very short and decimal numbers
	Apart                                                                 bool // groups of up to five instruments, positions that often differ
}

// All turns on every feature.
func All() Features {
	return Features{Chords: true, Crams: true, Repeats: true, OnReps: true, Vars: true, Voices: true,
		Attrs: true, Globals: true, Markers: true, Groups: true, Lisp: true, Slurs: true, MsDur: true,
		Ties: true, Frac: true, Keys: true, MaxParts: 4, Len: 7, Sections: 4, Depth: 3, Percussion: true,
		TempoAttrs: true, Quant0: true, ZeroRep: true, ExactTempo: true}
}

// Gen generates scores.
type Gen struct {
	R *rand.Rand
	F Features

	vars    []string
	nvars   int
	markers []string
	nmark   int
	voiceN  int
}

// Pool is a list of stock instruments (canonical names) with distinct patches.
var Pool = []string{
	"midi-acoustic-grand-piano", "midi-violin", "midi-flute", "midi-trumpet", "midi-cello",
	"midi-oboe", "midi-clarinet", "midi-tuba", "midi-harpsichord", "midi-banjo", "midi-sitar",
	"midi-viola", "midi-bassoon", "midi-ocarina", "midi-kalimba", "midi-shamisen",
}

// Nick maps shorter stock aliases to the canonical name.
var Nick = map[string]string{
	"piano": "midi-acoustic-grand-piano", "violin": "midi-violin", "flute": "midi-flute",
	"trumpet": "midi-trumpet", "cello": "midi-cello", "oboe": "midi-oboe", "clarinet": "midi-clarinet",
	"tuba": "midi-tuba", "harpsichord": "midi-harpsichord", "banjo": "midi-banjo", "sitar": "midi-sitar",
	"viola": "midi-viola", "bassoon": "midi-bassoon", "ocarina": "midi-ocarina", "kalimba": "midi-kalimba",
	"shamisen": "midi-shamisen", "percussion": "midi-percussion",
	"guitar": "midi-acoustic-guitar-nylon",
}

func canon(name string) (string, bool) {
	if c, ok := Nick[name]; ok {
		return c, true
	}
	for _, c := range Nick {
		if c == name {
			return c, true
		}
	}
	return "", false
}

func (g *Gen) p(pct int) bool { return g.R.Intn(100) < pct }

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// NL is a note length component.
func NL(text string, dots int) Comp {
	v, err := strconv.ParseFloat(text, 64)
	if err != nil {
		panic(err)
	}
	return Comp{Kind: 'n', Val: v, Text: text, Dots: dots}
}

func (g *Gen) comp() Comp {
	r := g.R
	k := r.Intn(100)
	if g.p(g.F.Odd) {
		switch r.Intn(4) {
		case 0:
			t := pick(r, "0.5", "12.25", "333.375", "1000000", "1234567", "0.001", "2000000.5")
			v, _ := strconv.ParseFloat(t, 64)
			return Comp{Kind: 'm', Val: v, Text: t}
		case 1:
			t := pick(r, "0.001", "1000", "12.125", "0.00001", "3600")
			v, _ := strconv.ParseFloat(t, 64)
			return Comp{Kind: 's', Val: v, Text: t}
		default:
			return NL(pick(r, "0.015625", "0.001", "1000000", "2097152", "123.456", "0.00001", "64", "128", "256"), pick(r, 0, 0, 1, 4, 7))
		}
	}
	switch {
	case g.F.MsDur && k < 8:
		v := pick(r, 1, 10, 50, 125, 250, 333, 400, 1000, 1500)
		return Comp{Kind: 'm', Val: float64(v), Text: strconv.Itoa(v)}
	case g.F.MsDur && k < 12:
		t := pick(r, "1", "2", "0.5", "0.25", "1.5")
		v, _ := strconv.ParseFloat(t, 64)
		return Comp{Kind: 's', Val: v, Text: t}
	case g.F.Frac && k < 18:
		return NL(pick(r, "0.5", "3", "6", "12", "5", "7", "1.5", "2.5", "10", "24", "0.25"), pick(r, 0, 0, 1))
	default:
		return NL(pick(r, "1", "2", "2", "4", "4", "4", "8", "8", "16", "32"), pick(r, 0, 0, 0, 0, 1, 2, 3))
	}
}

func (g *Gen) dur() *Dur {
	d := &Dur{Comps: []Comp{g.comp()}}
	if g.F.Ties {
		for g.p(15) && len(d.Comps) < 4 {
			if g.p(20) {
				d.Comps[len(d.Comps)-1].Bar = 1 + g.R.Intn(2)
			}
			if g.p(8) {
				d.Comps[len(d.Comps)-1].Bar2 = 1 + g.R.Intn(2)
			}
			if g.p(8) {
				d.Comps[len(d.Comps)-1].Ties = 1 + g.R.Intn(2)
			}
			d.Comps = append(d.Comps, g.comp())
		}
	}
	return d
}

func (g *Gen) lispDur() *Dur {
	d := g.dur()
	for i := range d.Comps {
		if d.Comps[i].Kind == 's' {
			d.Comps[i] = NL("4", 0)
		}
	}
	return d
}

func (g *Gen) acc() []int {
	if !g.p(25) {
		return nil
	}
	n := 1
	if g.p(20) {
		n = 2 + g.R.Intn(2)
	}
	if g.p(15) {
		return []int{0}
	}
	a := []int{}
	v := pick(g.R, -1, 1)
	for i := 0; i < n; i++ {
		if g.p(10) {
			a = append(a, pick(g.R, -1, 0, 1))
		} else {
			a = append(a, v)
		}
	}
	return a
}

type ctx struct {
	depth  int
	noDur  bool // no explicit durations below (uniform cram)
	inCram bool
	inSeq  bool // directly inside a sequence (endings allowed)
	inRep  bool // somewhere inside a repeated sequence
	inVar  bool
	noMark bool
	voices bool // voices allowed here
}

func (g *Gen) note(c ctx) Note {
	n := Note{Letter: "abcdefg"[g.R.Intn(7)], Acc: g.acc()}
	if !c.noDur && g.p(40) {
		n.Dur = g.dur()
	}
	if g.F.Slurs && g.p(12) {
		n.Slur = true
	}
	return n
}

func (g *Gen) noteOrRest(c ctx) Node {
	if g.p(15) {
		r := Rest{}
		if !c.noDur && g.p(40) {
			r.Dur = g.dur()
		}
		if g.F.Lisp && g.p(25) {
			r.Lisp = true
			if r.Dur != nil {
				r.Dur = g.lispDur()
			}
		}
		return r
	}
	n := g.note(c)
	if g.F.Lisp && g.p(15) {
		n.Lisp = true
		if n.Dur != nil {
			n.Dur = g.lispDur()
		}
		if g.p(40) {
			n.IsMidi = true
			n.Midi = 30 + g.R.Intn(60)
			n.Acc = nil
		}
	}
	return n
}

func (g *Gen) chord(c ctx) Chord {
	n := 2 + g.R.Intn(3)
	var ev []Node
	for i := 0; i < n; i++ {
		if i > 0 {
			for g.p(25) {
				ev = append(ev, g.octChange())
			}
			if g.F.Attrs && g.p(8) {
				kinds := []string{"vol", "pan", "dyn", "quant", "tvol"}
				if !c.noDur {
					kinds = append(kinds, "dur")
				}
				if g.F.TempoAttrs {
					kinds = append(kinds, "tempo")
				}
				ev = append(ev, g.attr(false, pick(g.R, kinds...)))
			}
		}
		if i > 0 && g.p(10) {
			r := Rest{}
			if !c.noDur && g.p(50) {
				r.Dur = g.dur()
			}
			ev = append(ev, r)
			continue
		}
		n := g.note(c)
		if i > 0 && g.F.Lisp && g.p(10) {
			m := n
			m.Lisp = true
			if m.Dur != nil {
				m.Dur = g.lispDur()
			}
			ev = append(ev, m)
			n = g.note(c)
		}
		ev = append(ev, n)
	}
	return Chord{Events: ev}
}

func (g *Gen) octChange() Node {
	k := g.R.Intn(10)
	switch {
	case k < 3:
		return OctUp{}
	case k < 6:
		return OctDown{}
	case g.F.WideOct && k < 8:
		return OctSet{N: g.R.Intn(13)}
	default:
		return OctSet{N: 2 + g.R.Intn(5)}
	}
}

// KeyKinds gives the accidentals of the standard keys: fifths -> letters.
var sharpsOrder = "fcgdaeb"

// KeyFifths is the key signature with the given number of sharps (flats if
// negative), independent of the code under test.
func KeyFifths(n int) map[byte][]int {
	k := map[byte][]int{}
	for i := 0; i < n; i++ {
		l := sharpsOrder[i%7]
		k[l] = append(k[l], 1)
	}
	for i := 0; i < -n; i++ {
		l := sharpsOrder[6-i%7]
		k[l] = append(k[l], -1)
	}
	return k
}

var modes = []struct {
	names []string
	shift int // fifths relative to major
}{
	{[]string{"major", "ionian"}, 0},
	{[]string{"mixolydian"}, -1},
	{[]string{"dorian"}, -2},
	{[]string{"minor", "aeolian"}, -3},
	{[]string{"phrygian"}, -4},
	{[]string{"locrian"}, -5},
	{[]string{"lydian"}, 1},
}

var letterFifths = map[byte]int{'f': -1, 'c': 0, 'g': 1, 'd': 2, 'a': 3, 'e': 4, 'b': 5}

func (g *Gen) keyAttr() Attr {
	a := Attr{Kind: "key", Fn: pick(g.R, "key-signature", "key-sig")}
	switch g.R.Intn(3) {
	case 0: // scale name
		l := "abcdefg"[g.R.Intn(7)]
		m := modes[g.R.Intn(len(modes))]
		f := letterFifths[l] + m.shift
		acc := ""
		// The tonic's accidentals, which may cancel each other out.
		for _, v := range pick(g.R, []int{}, []int{}, []int{}, []int{-1}, []int{1}, []int{-1}, []int{1}, []int{-1, -1}, []int{1, 1},
			[]int{-1, -1, 1}, []int{1, 1, -1}, []int{1, -1}, []int{-1, 1}, []int{-1, -1, -1, 1}) {
			acc += " " + accName[v]
			f += 7 * v
		}
		a.Key = KeyFifths(f)
		a.Args = fmt.Sprintf("'(%c%s %s)", l, acc, pick(g.R, m.names...))
	case 1: // string
		a.Key = map[byte][]int{}
		var parts []string
		for _, i := range g.R.Perm(7)[:g.R.Intn(5)] {
			l := "abcdefg"[i]
			v := pick(g.R, -1, 1)
			n := pick(g.R, 1, 1, 1, 2)
			s := string(rune(l))
			for j := 0; j < n; j++ {
				a.Key[l] = append(a.Key[l], v)
				s += accText[v]
			}
			parts = append(parts, s)
		}
		a.Args = `"` + strings.Join(parts, " ") + `"`
	default: // list of letters and accidentals
		a.Key = map[byte][]int{}
		var parts []string
		for _, i := range g.R.Perm(7)[:1+g.R.Intn(4)] {
			l := "abcdefg"[i]
			v := pick(g.R, -1, 1)
			n := pick(g.R, 1, 1, 1, 2)
			names := []string{}
			for j := 0; j < n; j++ {
				a.Key[l] = append(a.Key[l], v)
				names = append(names, accName[v])
			}
			parts = append(parts, fmt.Sprintf("%c (%s)", l, strings.Join(names, " ")))
		}
		a.Args = "'(" + strings.Join(parts, " ") + ")"
	}
	return a
}

// Dynamics are the documented levels: equal steps between pppppp and ffffff.
var Dynamics = map[string]float64{
	"pppppp": 0.00787, "ppppp": 0.08419, "pppp": 0.16051, "ppp": 0.23683, "pp": 0.31314, "p": 0.38946,
	"mp": 0.46578, "mf": 0.54210, "f": 0.61841, "ff": 0.69473, "fff": 0.77105, "ffff": 0.84737,
	"fffff": 0.92368, "ffffff": 1.0,
}

var dynNames = []string{"pppppp", "ppppp", "pppp", "ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "ffff", "fffff", "ffffff"}

func (g *Gen) tempoNum() int {
	if g.F.ExactTempo {
		return pick(g.R, 30, 60, 75, 96, 100, 120, 125, 150, 240, 200)
	}
	return 20 + g.R.Intn(400)
}

// Percent returns a percentage; the extremes and the defaults are frequent.
func Percent(r *rand.Rand) int {
	if r.Intn(3) == 0 {
		return pick(r, 0, 0, 1, 50, 99, 100, 100)
	}
	return r.Intn(101)
}

func (g *Gen) attr(global bool, kind string) Attr {
	r := g.R
	a := Attr{Kind: kind, Global: global}
	num := func(fns []string, n int, div float64) {
		a.Fn = pick(r, fns...)
		a.Args = strconv.Itoa(n)
		a.Num = float64(n) / div
		if div == 100 && n < 100 && g.p(g.F.Odd) {
			d := pick(r, ".5", ".25", ".001", ".125", ".0625", ".123456789", ".0000152587890625", ".50000000000000000001")
			v, _ := strconv.ParseFloat(a.Args+d, 64)
			a.Args += d
			a.Num = v / div
		}
	}
	switch kind {
	case "tempo":
		a.Fn = "tempo"
		t := g.tempoNum()
		switch {
		case g.p(15):
			a.Args = fmt.Sprintf("2 %d", t)
			a.Num = 2 * float64(t)
		case g.p(15):
			a.Args = fmt.Sprintf("8 %d", 2*t)
			a.Num = float64(t)
		case g.p(15):
			a.Args = fmt.Sprintf(`"4." %d`, t)
			a.Num = 1.5 * float64(t)
		default:
			a.Args = strconv.Itoa(t)
			a.Num = float64(t)
			if !g.F.ExactTempo && g.p(g.F.Odd) {
				a.Args += ".5"
				a.Num += 0.5
			}
		}
	case "metmod":
		a.Fn = "metric-modulation"
		switch r.Intn(4) {
		case 0:
			a.Args, a.Num = "4 2", 2
		case 1:
			a.Args, a.Num = "2 4", 0.5
		case 2:
			a.Args, a.Num = `"2." 4`, 1.0/3
			if g.F.ExactTempo {
				a.Args, a.Num = `8 "4"`, 2
			}
		default:
			a.Args, a.Num = `"2" "1"`, 2
		}
	case "quant":
		n := pick(r, 10, 25, 50, 75, 90, 100, 120, 33)
		if g.F.Quant0 && g.p(10) {
			n = 0
		}
		num([]string{"quantization", "quantize", "quant"}, n, 100)
	case "vol":
		num([]string{"volume", "vol"}, Percent(r), 100)
	case "tvol":
		num([]string{"track-volume", "track-vol"}, Percent(r), 100)
	case "pan":
		num([]string{"panning", "pan"}, Percent(r), 100)
	case "dyn":
		a.Fn = pick(r, dynNames...)
		a.Num = Dynamics[a.Fn]
	case "oct":
		num([]string{"octave"}, 2+r.Intn(5), 1)
	case "octup":
		a.Fn, a.Args = "octave", "'up"
	case "octdown":
		a.Fn, a.Args = "octave", "'down"
	case "dur":
		switch r.Intn(4) {
		case 0:
			n := pick(r, 1, 2, 3, 4)
			a.Fn, a.Args = "set-duration", strconv.Itoa(n)
			a.Dur = &Dur{Comps: []Comp{{Kind: 'b', Val: float64(n)}}}
		case 1:
			n := pick(r, 50, 125, 250, 400, 1000)
			a.Fn, a.Args = "set-duration-ms", strconv.Itoa(n)
			a.Dur = &Dur{Comps: []Comp{{Kind: 'm', Val: float64(n)}}}
		case 2:
			n := pick(r, 1, 2, 4, 8, 16)
			a.Fn, a.Args = "set-note-length", strconv.Itoa(n)
			a.Dur = &Dur{Comps: []Comp{NL(strconv.Itoa(n), 0)}}
		default:
			n, d := pick(r, 1, 2, 4, 8, 16), r.Intn(3)
			a.Fn = "set-note-length"
			a.Dur = &Dur{Comps: []Comp{NL(strconv.Itoa(n), d)}}
			a.Args = strconv.Itoa(n) + strings.Repeat(".", d)
			if g.p(30) {
				a.Args += "~8"
				a.Dur.Comps = append(a.Dur.Comps, NL("8", 0))
			}
			a.Args = `"` + a.Args + `"`
		}
	case "key":
		k := g.keyAttr()
		k.Global = global
		return k
	case "transpose":
		num([]string{"transposition", "transpose"}, pick(r, 0, -12, 12, r.Intn(25)-12, r.Intn(25)-12, r.Intn(25)-12), 1)
	case "refpitch":
		num([]string{"reference-pitch", "tuning-constant"}, 430+r.Intn(20), 1)
	default:
		panic(kind)
	}
	return a
}

func (g *Gen) attrKind(c ctx, global bool) string {
	kinds := []string{"vol", "tvol", "pan", "dyn", "quant", "oct", "octup", "octdown", "transpose", "refpitch"}
	if g.F.Keys {
		kinds = append(kinds, "key", "key")
	}
	if g.F.TempoAttrs {
		kinds = append(kinds, "tempo", "tempo", "tempo", "metmod")
	}
	if !c.noDur && !(c.inCram && global) {
		kinds = append(kinds, "dur")
	}
	return pick(g.R, kinds...)
}

// event generates one event (or a few that belong together).
func (g *Gen) event(c ctx) []Node {
	r := g.R
	one := func(n Node) []Node { return []Node{n} }
	k := r.Intn(100)
	f := g.F
	if f.Attrs && g.p(f.MoreAttrs) {
		k = 40
		if f.Globals && g.p(50) {
			k = 47
		}
	}
	if f.Vars && len(g.vars) > 0 && g.p(f.MoreVars) {
		k = 33
	}
	if f.Voices && g.p(f.MoreVoices) {
		k = 55
	}
	if f.Markers && g.p(f.MoreMarkers) {
		k = 50
	}
	switch {
	case k < 8 && f.Chords:
		n := Node(g.chord(c))
		if f.Repeats && g.p(10) {
			n = Repeat{Ev: n, Times: r.Intn(3) + 1}
		}
		return one(n)
	case k < 16 && f.Crams && c.depth > 0:
		return one(g.maybeRepeat(g.cram(c)))
	case k < 25 && f.Repeats && c.depth > 0:
		return one(g.seq(c))
	case k < 31 && f.Repeats:
		n := g.note(c)
		t := 1 + r.Intn(4)
		if f.ZeroRep && g.p(8) {
			t = 0
		}
		if !c.inSeq && !c.inVar && !c.inCram && g.p(2) {
			t = 100 + r.Intn(200)
		}
		return one(Repeat{Ev: n, Times: t})
	case k < 37 && f.Vars && len(g.vars) > 0 && !c.noDur:
		v := Node(VarRef{Name: pick(r, g.vars...)})
		if f.Repeats && g.p(15) {
			v = Repeat{Ev: v, Times: 1 + r.Intn(3)}
		}
		return one(v)
	case k < 45 && f.Attrs:
		return one(g.attr(false, g.attrKind(c, false)))
	case k < 49 && f.Globals && (!c.inCram || g.p(20)) && !c.inVar:
		return one(g.attr(true, g.attrKind(c, true)))
	case k < 53 && f.Markers && !c.inCram && (!c.noMark || len(g.markers) > 0):
		if len(g.markers) > 0 && (c.noMark || g.p(60)) {
			return one(AtMarker{Name: pick(r, g.markers...)})
		}
		if c.inVar {
			return one(g.noteOrRest(c))
		}
		g.nmark++
		name := fmt.Sprintf("m%d", g.nmark)
		if len(g.markers) > 0 && g.p(15) {
			name = pick(r, g.markers...)
		} else {
			g.markers = append(g.markers, name)
		}
		return one(Marker{Name: name})
	case k < 58 && f.Voices && c.depth > 0 && c.voices && !c.inCram && !c.inVar:
		return g.voices(c)
	case k < 68:
		return one(g.octChange())
	case k < 69 && f.Errors:
		return one(pick[Node](r, VarRef{Name: "undefinedVar"}, AtMarker{Name: "undefinedMarker"}, OctSet{N: 14}))
	default:
		return one(g.noteOrRest(c))
	}
}

func (g *Gen) maybeRepeat(n Node) Node {
	if g.F.Repeats && g.p(15) {
		t := 1 + g.R.Intn(3)
		if g.F.ZeroRep && g.p(8) {
			t = 0
		}
		return Repeat{Ev: n, Times: t}
	}
	return n
}

func (g *Gen) events(c ctx, n int) []Node {
	var out []Node
	for len(out) < n {
		out = append(out, g.event(c)...)
	}
	return out
}

func (g *Gen) cram(c ctx) Cram {
	in := c
	in.depth--
	in.inCram = true
	in.inSeq = false
	in.voices = false
	var ev []Node
	n := 1 + g.R.Intn(5)
	if c.noDur || g.p(50) {
		// Uniform: nothing inside says how long it is.
		in.noDur = true
		first := g.note(in)
		ev = append(ev, first)
		ev = append(ev, g.events(in, n-1)...)
	} else {
		first := g.note(in)
		first.Dur = g.dur()
		ev = append(ev, first)
		ev = append(ev, g.events(in, n-1)...)
	}
	cr := Cram{Events: ev}
	if !c.noDur && g.p(60) {
		cr.Dur = g.dur()
	}
	return cr
}

// seq generates a sequence, usually repeated, sometimes with endings.
func (g *Gen) seq(c ctx) Node {
	in := c
	in.depth--
	in.inSeq = true
	in.noMark = true
	times := 1 + g.R.Intn(4)
	if g.F.ZeroRep && g.p(5) {
		times = 0
	}
	if !c.inCram && g.p(3) {
		times = 5 + g.R.Intn(8)
	}
	n := 1 + g.R.Intn(5)
	var ev []Node
	if c.inCram && !c.noDur {
		// Nothing: the cram starts with an explicit duration.
	}
	for len(ev) < n {
		es := g.event(in)
		if g.F.OnReps && len(es) == 1 && g.p(30) {
			switch es[0].(type) {
			case Voice, OnRep:
			default:
				es[0] = OnRep{Ev: es[0], Ranges: g.ranges(times)}
			}
		}
		ev = append(ev, es...)
	}
	s := Seq{Events: ev}
	if g.p(80) {
		return Repeat{Ev: s, Times: times}
	}
	return s
}

func (g *Gen) ranges(times int) [][2]int {
	var out [][2]int
	n := 1
	if g.p(30) {
		n = 2
	}
	for g.p(12) && n < 7 {
		n++
	}
	for i := 0; i < n; i++ {
		a := 1 + g.R.Intn(times+1)
		b := a
		if g.p(40) {
			b = a + g.R.Intn(3)
		}
		out = append(out, [2]int{a, b})
	}
	if g.p(25) {
		sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	}
	return out
}

// voices generates a voice group with an explicit end.
func (g *Gen) voices(c ctx) []Node {
	in := c
	in.depth--
	in.voices = false
	in.inSeq = false
	in.noMark = true
	n := 1 + g.R.Intn(3)
	nums := g.R.Perm(4)[:n]
	if g.p(10) {
		nums = g.R.Perm(20)[:1+g.R.Intn(6)]
		if g.p(20) {
			for k := range nums {
				nums[k] = nums[k]*64 + 63
			}
		}
	}
	var out []Node
	for _, v := range nums {
		out = append(out, Voice{N: v + 1})
		out = append(out, g.events(in, 1+g.R.Intn(4))...)
	}
	if g.p(25) {
		out = append(out, Voice{N: nums[0] + 1})
		out = append(out, g.events(in, 1+g.R.Intn(2))...)
	}
	return append(out, Voice{N: 0})
}

// varDef generates a variable definition.
func (g *Gen) varDef() VarDef {
	name := ""
	if len(g.vars) > 0 && g.p(30) {
		name = pick(g.R, g.vars...)
	} else {
		g.nvars++
		name = "var" + string(rune('A'+g.nvars%26)) + pick(g.R, "", "x", "'", "_2", "-b")
	}
	c := ctx{depth: 2, inVar: true}
	if g.F.Depth < 2 {
		c.depth = g.F.Depth
	}
	ev := g.events(c, 1+g.R.Intn(4))
	if g.F.Voices && g.p(10) {
		// A voice group, not necessarily at the end.
		v := g.voices(c)
		k := g.R.Intn(len(ev) + 1)
		ev = append(append(append([]Node{}, ev[:k]...), v...), ev[k:]...)
	}
	found := false
	for _, v := range g.vars {
		found = found || v == name
	}
	if !found {
		g.vars = append(g.vars, name)
	}
	return VarDef{Name: name, Events: ev}
}

// Valid generates a score and takes out what the reference refuses, most of
// the time.
func (g *Gen) Valid() Score {
	s := g.Score()
	for i := 0; i < 12; i++ {
		ref := NewRef()
		err := ref.Run(s)
		if _, ok := err.(*RefError); !ok {
			return s
		}
		if i == 0 && g.p(15) {
			return s
		}
		s = append(append(Score{}, s[:ref.top]...), s[ref.top+1:]...)
	}
	return s
}

// Score generates a score whose parts are declared legally.
func (g *Gen) Score() Score {
	f := g.F
	if f.MaxParts == 0 {
		f.MaxParts = 2
	}
	if f.Len == 0 {
		f.Len = 6
	}
	if f.Sections == 0 {
		f.Sections = 2
	}
	var s Score
	if f.Globals && g.p(40) {
		s = append(s, g.attr(true, g.attrKind(ctx{}, true)))
	}
	for f.Vars && g.p(55) && len(g.vars) < 3 {
		s = append(s, g.varDef())
	}
	decls := g.declarations(f)
	for _, d := range decls {
		s = append(s, d)
		c := ctx{depth: f.Depth, voices: true}
		n := 1 + g.R.Intn(f.Len)
		sec := []Node{}
		for len(sec) < n {
			if f.Vars && g.p(6) {
				sec = append(sec, g.varDef())
				continue
			}
			sec = append(sec, g.event(c)...)
		}
		if f.Voices && g.p(12) {
			// A voice group that is ended by the next part or the end of the text.
			v := g.voices(c)
			sec = append(sec, v[:len(v)-1]...)
		}
		s = append(s, sec...)
	}
	return s
}

func (g *Gen) declarations(f Features) []Part {
	r := g.R
	nicks := []string{"piano", "violin", "flute", "trumpet", "cello", "oboe", "clarinet", "tuba", "harpsichord", "banjo"}
	perm := r.Perm(len(nicks))
	inst := []string{}
	for _, i := range perm[:1+r.Intn(f.MaxParts)] {
		n := nicks[i]
		if g.p(20) {
			n = Nick[n]
		}
		inst = append(inst, n)
	}
	if f.Percussion && g.p(15) {
		inst = append(inst, "percussion")
	}
	var decls []Part
	names := []string{} // what can be referred to
	if f.Groups && g.p(50) {
		// Named parts only.
		for i, n := range inst {
			al := fmt.Sprintf("al%c", 'a'+i)
			decls = append(decls, Part{Names: []string{n}, Alias: al})
			names = append(names, al)
		}
		if len(names) > 1 && g.p(60) {
			decls = append(decls, Part{Names: append([]string{}, names[:2]...), Alias: "grp"})
			names = append(names, "grp", "grp."+names[0])
		}
	} else if f.Groups && g.p(30) && len(inst) > 1 {
		decls = append(decls, Part{Names: append([]string{}, inst...), Alias: "grp"})
		names = append(names, "grp", "grp."+inst[0], "grp."+inst[1])
	} else {
		for _, n := range inst {
			decls = append(decls, Part{Names: []string{n}})
			names = append(names, n)
		}
	}
	for len(decls) < f.Sections && g.p(75) {
		if f.Groups && len(names) > 1 && g.p(35) {
			n := 2
			for n < len(names) && n < 5 && g.p(35) {
				n++
			}
			ns := []string{}
			for _, i := range r.Perm(len(names))[:n] {
				ns = append(ns, names[i])
			}
			decls = append(decls, Part{Names: ns})
			continue
		}
		decls = append(decls, Part{Names: []string{pick(r, names...)}})
	}
	return decls
}

// Key makes a key signature change.
func (g *Gen) Key() Attr { return g.keyAttr() }

// Apart generates instruments that play something of nearly the same length
// each, and groups of them that place markers and jump.
func (g *Gen) Apart() Score {
	r := g.R
	var s Score
	names := []string{}
	nicks := []string{"piano", "violin", "flute", "trumpet", "cello", "oboe"}
	n := 2 + r.Intn(4)
	for _, i := range r.Perm(len(nicks))[:n] {
		name := nicks[i]
		d := Part{Names: []string{name}}
		if g.F.Groups {
			d.Alias = "al" + name
			name = d.Alias
		}
		names = append(names, name)
		s = append(s, d)
		dur := "4"
		if g.p(20) {
			dur = pick(r, "8", "2", "1", "4.0")
		}
		s = append(s, Note{Letter: "abcdefg"[r.Intn(7)], Dur: &Dur{Comps: []Comp{NL(dur, 0)}}})
	}
	if g.F.Groups && g.p(50) {
		s = append(s, Part{Names: append([]string{}, names...), Alias: "everyone"})
		names = append(names, "everyone")
	}
	for k := 0; k < 1+r.Intn(3); k++ {
		m := 1 + r.Intn(n)
		ns := []string{}
		for _, i := range r.Perm(n)[:m] {
			ns = append(ns, names[i])
		}
		if len(names) > n && g.p(30) {
			ns = names[n:]
		}
		s = append(s, Part{Names: ns})
		c := ctx{depth: 1, voices: true}
		s = append(s, g.events(c, r.Intn(3))...)
		g.nmark++
		name := fmt.Sprintf("m%d", g.nmark)
		g.markers = append(g.markers, name)
		s = append(s, Marker{Name: name})
		s = append(s, g.events(c, 1+r.Intn(3))...)
	}
	return s
}
