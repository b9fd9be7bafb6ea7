package checks

import (
	"fmt"
	"math"
	"math/rand"
	"sort"
	"strings"

	"verif/lang"
)

// MusicXML documents with known music.

type xNote struct {
	step              byte
	alter, octave     int
	midi              int // written pitch
	unpitched         string
	tieStart, tieStop bool
}

func (n *xNote) key() string {
	if n.unpitched != "" {
		return n.unpitched
	}
	return fmt.Sprint(string(n.step), n.octave)
}

type xItem struct {
	kind               string // note, rest, cue, grace, dyn
	notes              []*xNote
	pos, dur           float64
	slurStart, slurEnd int
	slurred            bool
	dyn                string
	dots               int
}

type xMeasure struct {
	divisions              int
	voices                 [][]*xItem
	length                 float64
	key, transpose         *int
	forward                bool
	backward               int
	endStart, endStop      []int
	first                  bool // attributes come with it
	newDivisions, midUnits bool
}

type xSection struct{ from, to int } // measures

type xPart struct {
	id, name   string
	program    int // 1..128, 0: not given, -1: percussion
	drums      []string
	pitches    map[string]int
	voiceNames []string
	measures   []*xMeasure
	order      []int // measures in the order they are played
}

type xDoc struct{ parts []*xPart }

type xGen struct {
	r *rand.Rand
	// what the document may contain
	count map[string]int
}

var steps = map[byte]int{'C': 0, 'D': 2, 'E': 4, 'F': 5, 'G': 7, 'A': 9, 'B': 11}

var sharpOrder = "FCGDAEB"

func (g *xGen) p(pct int) bool { return g.r.Intn(100) < pct }

func (g *xGen) doc() *xDoc {
	d := &xDoc{}
	n := 1
	if g.p(40) {
		n += 1 + g.r.Intn(3)
	}
	ids := g.r.Perm(20)
	programs := []int{1 + g.r.Intn(128), 1 + g.r.Intn(128), 0}
	for k := 0; k < n; k++ {
		pt := &xPart{id: fmt.Sprintf("P%d", 1+ids[k]), name: []string{"Music", "Flöte 1", "Violin I", "x", "Snare Drum", "piano"}[g.r.Intn(6)]}
		pt.program = programs[g.r.Intn(3)]
		if g.p(12) {
			pt.program = -1
			pt.pitches = map[string]int{}
			for q := 0; q <= g.r.Intn(4); q++ {
				id := fmt.Sprintf("%s-I%d", pt.id, q+30)
				pt.drums = append(pt.drums, id)
				for {
					m := 20 + g.r.Intn(80)
					if g.p(10) {
						m = g.r.Intn(128)
					}
					used := false
					for _, o := range pt.pitches {
						used = used || o == m
					}
					if !used {
						pt.pitches[id] = m
						break
					}
				}
			}
		}
		g.part(pt)
		d.parts = append(d.parts, pt)
	}
	return d
}

type voiceState struct {
	prev    []*xNote // notes that end where the voice is
	element []*xNote // notes of the last group that did not continue others
	slurs   int
	octave  int
}

func (g *xGen) part(pt *xPart) {
	nv := 1
	if g.p(40) {
		nv = 2 + g.r.Intn(3)
	}
	pt.voiceNames = []string{"1", "2", "3", "4", "5"}[:nv]
	switch {
	case g.p(20):
		pt.voiceNames = []string{"5", "1", "6", "2"}[:nv]
	case g.p(8):
		pt.voiceNames = []string{"3", "a", "v2", "12"}[:nv]
	case nv == 1 && g.p(30):
		pt.voiceNames = []string{""}
	}
	st := make([]*voiceState, nv)
	for v := range st {
		st[v] = &voiceState{octave: 2 + g.r.Intn(4)}
	}
	repeats := g.p(50)
	divisions := g.divisions()
	key := g.key()
	beats := float64(1 + g.r.Intn(5))
	var transpose int
	hasTranspose := pt.program != -1 && g.p(25)
	afterRepeat := true
	sections := 1 + g.r.Intn(4)
	for s := 0; s < sections; s++ {
		from := len(pt.measures)
		add := func(n int) (idx []int) {
			for k := 0; k < n; k++ {
				m := &xMeasure{divisions: divisions}
				if len(pt.measures) == 0 || !repeats && g.p(15) {
					if g.p(90) || len(pt.measures) > 0 {
						if len(pt.measures) > 0 {
							key = g.key()
							g.count["key changes"]++
						}
						k := key
						m.key = &k
					}
					if hasTranspose && (len(pt.measures) == 0 || g.p(30)) {
						transpose = g.r.Intn(49) - 24
						t := transpose
						m.transpose = &t
					}
					for _, v := range st {
						v.prev = nil
					}
				}
				if len(pt.measures) == 0 || g.p(8) {
					divisions = g.divisions()
					m.divisions, m.newDivisions = divisions, true
				}
				if g.p(15) {
					beats = float64(1+g.r.Intn(10)) / 2
					if g.p(25) {
						beats = []float64{6, 7, 8, 10, 12, 14, 20, 24}[g.r.Intn(8)]
					}
				}
				g.measure(pt, m, st, beats, nv == 1)
				pt.measures = append(pt.measures, m)
				idx = append(idx, len(pt.measures)-1)
			}
			return
		}
		forget := func() {
			for _, v := range st {
				v.prev, v.element = nil, nil
			}
		}
		play := func(idx ...[]int) {
			for _, i := range idx {
				pt.order = append(pt.order, i...)
			}
		}
		kind := g.r.Intn(3)
		if !repeats {
			kind = 0
		}
		switch kind {
		case 0: // plain
			play(add(1 + g.r.Intn(3)))
			afterRepeat = len(pt.measures) == 0
			continue
		case 1: // repeated
			forget()
			body := add(1 + g.r.Intn(3))
			forget()
			times := 2
			if g.p(30) {
				times = 2 + g.r.Intn(3)
				if g.p(20) {
					times = 5 + g.r.Intn(8)
					g.count["repeats of five times and more"]++
				}
			}
			pt.measures[from].forward = !afterRepeat || g.p(60)
			pt.measures[body[len(body)-1]].backward = times
			for k := 0; k < times; k++ {
				play(body)
			}
			g.count["repeats"]++
			if !pt.measures[from].forward {
				g.count["repeats without a forward sign"]++
			}
		case 2: // with endings
			forget()
			var body []int
			if g.p(95) {
				body = add(1 + g.r.Intn(2))
			}
			nend := 2 + g.r.Intn(2)
			if g.p(10) {
				nend = 4 + g.r.Intn(2)
			}
			number := 0
			var ends [][]int
			var of [][]int
			for e := 0; e < nend; e++ {
				forget()
				idx := add(1 + g.r.Intn(2))
				numbers := []int{number + 1}
				if g.p(20) {
					for q := 0; q == 0 || q < 4 && g.p(35); q++ {
						numbers = append(numbers, number+2+q)
					}
				}
				number = numbers[len(numbers)-1]
				pt.measures[idx[0]].endStart = numbers
				pt.measures[idx[len(idx)-1]].endStop = numbers
				if e < nend-1 || len(numbers) > 1 || g.p(15) {
					pt.measures[idx[len(idx)-1]].backward = 2
					if e == nend-1 {
						g.count["last endings with a repeat sign"]++
					}
				}
				ends = append(ends, idx)
				of = append(of, numbers)
			}
			// the first ending of a body-less repeat can't do without
			pt.measures[from].forward = !afterRepeat || body == nil || g.p(60)
			for k := 1; k <= number; k++ {
				play(body)
				for e := range ends {
					for _, n := range of[e] {
						if n == k {
							play(ends[e])
						}
					}
				}
			}
			// A note tied to the last ending would belong to it.
			forget()
			g.count["endings"] += nend
		}
		afterRepeat = true
	}
}

// key is a number of fifths; more than seven have double accidentals.
func (g *xGen) key() int {
	if g.p(12) {
		return g.r.Intn(29) - 14
	}
	return g.r.Intn(15) - 7
}

func (g *xGen) divisions() int {
	return []int{1, 2, 3, 4, 6, 8, 12, 16, 24, 48, 96, 120, 240, 256, 480, 960, 10080}[g.r.Intn(17)]
}

var xBeats = []float64{4, 3, 2, 2, 1.5, 1, 1, 1, 0.75, 0.5, 0.5, 0.25, 1.0 / 3, 2.0 / 3, 1.0 / 6, 1.25, 1.75, 3.5, 0.125, 4.0 / 3, 2.5,
	6, 5, 7, 8, 10, 12, 14, 20, 11.0 / 3, 3.75, 2.25, 0.0625, 0.375, 0.2, 3.9, 0.9, 1.0 / 9}

func whole(x float64) bool { return math.Abs(x-math.Round(x)) < 1e-6 }

func (g *xGen) measure(pt *xPart, m *xMeasure, st []*voiceState, beats float64, dynamics bool) {
	if !whole(beats * float64(m.divisions)) {
		beats = math.Ceil(beats)
	}
	m.length = 0
	for v := range st {
		var items []*xItem
		pos := 0.0
		if v > 0 && g.p(12) || v == 0 && len(st) > 1 && g.p(4) {
			m.voices = append(m.voices, nil)
			st[v].prev = nil
			continue
		}
		end := beats
		if g.p(12) {
			end = g.upTo(beats, m.divisions)
		}
		if v > 0 && g.p(15) {
			pos = g.upTo(end, m.divisions)
			if pos >= end {
				pos = 0
			}
		}
		if pos > 0 {
			st[v].prev = nil
		}
		for pos < end-1e-6 {
			if dynamics && g.p(5) {
				items = append(items, &xItem{kind: "dyn", pos: pos, dyn: []string{"ppp", "pp", "p", "mp", "mf", "f", "ff", "fff", "pppppp", "ffffff"}[g.r.Intn(10)]})
				g.count["dynamics"]++
			}
			if g.p(3) {
				items = append(items, &xItem{kind: "grace", pos: pos, notes: []*xNote{g.note(pt, st[v])}})
				g.count["grace notes"]++
			}
			d := g.upTo(end-pos, m.divisions)
			it := &xItem{kind: "note", pos: pos, dur: d}
			for _, b := range []float64{0.25, 0.5, 1, 2, 4} {
				if g.p(80) && math.Abs(d-1.5*b) < 1e-9 {
					it.dots = 1
				}
				if g.p(80) && math.Abs(d-1.75*b) < 1e-9 {
					it.dots = 2
				}
			}
			switch {
			case g.p(15):
				it.kind = "rest"
				st[v].prev, st[v].element = nil, nil
			case g.p(2):
				it.kind = "cue"
				it.notes = []*xNote{g.note(pt, st[v])}
				if g.p(40) {
					it.notes = append(it.notes, g.note(pt, st[v]))
					g.count["cue chords"]++
				}
				st[v].prev, st[v].element = nil, nil
				g.count["cue notes"]++
			case len(items) > 0 && g.p(6): // a gap
				if pos+d < end-1e-6 {
					pos += d
					st[v].prev, st[v].element = nil, nil
					g.count["gaps"]++
					continue
				}
				it.kind = "rest"
				st[v].prev, st[v].element = nil, nil
			default:
				g.group(pt, it, st[v])
			}
			items = append(items, it)
			pos += d
		}
		if pos < beats-1e-6 {
			st[v].prev, st[v].element = nil, nil
		}
		m.length = math.Max(m.length, pos)
		m.voices = append(m.voices, items)
	}
	for v := range st {
		its := m.voices[v]
		end := 0.0
		for _, it := range its {
			end = it.pos + it.dur
		}
		if end < m.length-1e-6 {
			st[v].prev, st[v].element = nil, nil
		}
	}
	if g.p(6) || m.length == 0 {
		m.length += 1
		for _, v := range st {
			v.prev, v.element = nil, nil
		}
	}
}

// upTo picks a number of beats that the divisions can express.
func (g *xGen) upTo(rest float64, divisions int) float64 {
	for k := 0; k < 12; k++ {
		b := xBeats[g.r.Intn(len(xBeats))]
		if b < rest+1e-9 && whole(b*float64(divisions)) {
			return b
		}
	}
	return rest
}

func (g *xGen) note(pt *xPart, st *voiceState) *xNote {
	if pt.program == -1 {
		id := pt.drums[g.r.Intn(len(pt.drums))]
		return &xNote{unpitched: id, midi: pt.pitches[id]}
	}
	if g.p(25) {
		st.octave += g.r.Intn(5) - 2
		if st.octave < 2 || st.octave > 6 {
			st.octave = 4
		}
	}
	n := &xNote{step: "CDEFGAB"[g.r.Intn(7)], octave: st.octave}
	if g.p(35) {
		n.alter = []int{-1, 1, 1, -1, 2, -2, -1, 1, 1, -1, 3, -3}[g.r.Intn(12)]
	}
	n.midi = 12*(n.octave+1) + steps[n.step] + n.alter
	return n
}

// group makes up a note or chord, in which notes may continue previous ones.
func (g *xGen) group(pt *xPart, it *xItem, st *voiceState) {
	used := map[string]bool{}
	var tied, fresh []*xNote
	if len(st.prev) > 0 && g.p(30) {
		for _, o := range st.prev {
			if g.p(70) {
				tied = append(tied, o)
			}
		}
		// Where all notes continue others, those of the last element have to.
		all := true
		for _, o := range st.element {
			in := false
			for _, x := range tied {
				in = in || x == o
			}
			all = all && in
		}
		if len(tied) > 0 && (!all || g.p(30)) || len(tied) == 0 {
			fresh = append(fresh, nil)
		}
	} else {
		fresh = append(fresh, nil)
	}
	if len(fresh) > 0 {
		for len(fresh) < 4 && g.p(25) {
			fresh = append(fresh, nil)
		}
	}
	for _, o := range tied {
		used[o.key()] = true
	}
	for _, o := range st.prev {
		used[o.key()] = used[o.key()] || len(tied) > 0
	}
	if pt.program == -1 && len(pt.drums) <= len(used) {
		tied, used = nil, map[string]bool{}
		fresh = []*xNote{nil}
	}
	for k := 0; k < len(fresh); k++ {
		for try := 0; ; try++ {
			n := g.note(pt, st)
			if try > 20 {
				st.octave = 1 + g.r.Intn(6)
			}
			if !used[n.key()] {
				fresh[k] = n
				used[n.key()] = true
				break
			}
			if try > 60 {
				break
			}
		}
		if fresh[k] == nil {
			fresh = fresh[:k]
		}
	}
	if len(tied) > 0 {
		g.count["ties"] += len(tied)
		if len(fresh) > 0 {
			g.count["chords tied in part"]++
		}
	}
	var cont []*xNote
	for _, o := range tied {
		o.tieStart = true
		n := *o
		n.tieStart, n.tieStop = false, true
		cont = append(cont, &n)
	}
	it.notes = append(append([]*xNote{}, cont...), fresh...)
	g.r.Shuffle(len(it.notes), func(i, j int) { it.notes[i], it.notes[j] = it.notes[j], it.notes[i] })
	st.prev = it.notes
	if len(fresh) > 0 {
		st.element = fresh
	} else {
		// all notes of the last element are among them
		var e []*xNote
		for i, o := range tied {
			for _, x := range st.element {
				if x == o {
					e = append(e, cont[i])
				}
			}
		}
		st.element = e
	}
	if g.p(12) {
		it.slurStart = 1 + g.r.Intn(2)/1*g.r.Intn(2)
	}
	if st.slurs > 0 && g.p(30) {
		it.slurEnd = 1
	}
	st.slurs += it.slurStart - it.slurEnd
	it.slurred = st.slurs > 0
	if it.slurred {
		g.count["slurred"]++
	}
	if len(it.notes) > 1 {
		g.count["chords"]++
	}
	g.count["notes"] += len(it.notes)
}

// ---- printing

type xPrinter struct {
	r *rand.Rand
	b strings.Builder
}

func (p *xPrinter) w(f string, args ...interface{}) {
	fmt.Fprintf(&p.b, f, args...)
	switch p.r.Intn(12) {
	case 0:
		p.b.WriteString("\n  ")
	case 1:
		p.b.WriteString("<!-- note -->\n")
	default:
		p.b.WriteString("\n")
	}
}

func (d *xDoc) print(r *rand.Rand) string {
	p := &xPrinter{r: r}
	p.b.WriteString("<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n")
	if r.Intn(2) == 0 {
		p.b.WriteString("<!DOCTYPE score-partwise PUBLIC \"-//Recordare//DTD MusicXML 3.1 Partwise//EN\" \"http://www.musicxml.org/dtds/partwise.dtd\">\n")
	}
	p.b.WriteString("<score-partwise version=\"3.1\">")
	if r.Intn(2) == 0 {
		p.w("<identification><encoding><software>x</software><supports element=\"accidental\" type=\"yes\"/></encoding></identification>")
	}
	p.w("<part-list>")
	for _, pt := range d.parts {
		p.w("<score-part id=%q><part-name>%s</part-name>", pt.id, pt.name)
		switch {
		case pt.program == -1:
			for _, id := range pt.drums {
				p.w("<score-instrument id=%q><instrument-name>%s</instrument-name></score-instrument>", id, id)
			}
			for _, id := range pt.drums {
				p.w("<midi-instrument id=%q><midi-channel>10</midi-channel><midi-program>1</midi-program><midi-unpitched>%d</midi-unpitched></midi-instrument>", id, pt.pitches[id]+1)
			}
		case pt.program > 0:
			p.w("<midi-instrument id=%q><midi-channel>1</midi-channel><midi-program>%d</midi-program><volume>78</volume></midi-instrument>", pt.id+"-I1", pt.program)
		}
		p.w("</score-part>")
	}
	p.w("</part-list>")
	for _, i := range r.Perm(len(d.parts)) {
		d.parts[i].print(p)
	}
	p.w("</score-partwise>")
	return p.b.String()
}

func numbers(n []int) string {
	var s []string
	for _, x := range n {
		s = append(s, fmt.Sprint(x))
	}
	return strings.Join(s, []string{",", ", "}[len(n)%2])
}

func (pt *xPart) print(p *xPrinter) {
	p.w("<part id=%q>", pt.id)
	D := 1
	for i, m := range pt.measures {
		p.w("<measure number=\"%d\">", i+1)
		if p.r.Intn(3) == 0 {
			p.w("<print new-system=\"no\"/>")
		}
		attributes := ""
		if m.newDivisions {
			D = m.divisions
			attributes += fmt.Sprintf("<divisions>%d</divisions>", D)
		}
		if m.key != nil {
			attributes += fmt.Sprintf("<key><fifths>%d</fifths><mode>major</mode></key>", *m.key)
		}
		if i == 0 {
			attributes += "<time><beats>4</beats><beat-type>4</beat-type></time><clef><sign>G</sign><line>2</line></clef>"
		}
		if m.transpose != nil {
			t := *m.transpose
			o := 0
			if p.r.Intn(2) == 0 {
				o = t / 12
				t %= 12
			}
			attributes += fmt.Sprintf("<transpose><diatonic>0</diatonic><chromatic>%d</chromatic>", t)
			if o != 0 || p.r.Intn(4) == 0 {
				attributes += fmt.Sprintf("<octave-change>%d</octave-change>", o)
			}
			attributes += "</transpose>"
		}
		barline := ""
		if m.forward || m.endStart != nil {
			barline = "<barline location=\"left\"><bar-style>heavy-light</bar-style>"
			if m.endStart != nil {
				barline += fmt.Sprintf("<ending number=%q type=\"start\"/>", numbers(m.endStart))
			}
			if m.forward {
				barline += "<repeat direction=\"forward\"/>"
			}
			barline += "</barline>"
		}
		if attributes != "" {
			attributes = "<attributes>" + attributes + "</attributes>"
		}
		// Exporters put the barline first; what the attributes apply to is the
		// same in the other order.
		if p.r.Intn(2) == 0 {
			p.w("%s%s", barline, attributes)
		} else {
			p.w("%s%s", attributes, barline)
		}
		pt.contents(p, m, D)
		if m.endStop != nil || m.backward > 0 {
			p.w("<barline%s><bar-style>light-heavy</bar-style>", []string{" location=\"right\"", " location=\"right\"", ""}[p.r.Intn(3)])
			if m.endStop != nil {
				kind := "stop"
				if m.backward == 0 && p.r.Intn(2) == 0 {
					kind = "discontinue"
				}
				p.w("<ending number=%q type=%q/>", numbers(m.endStop), kind)
			}
			switch {
			case m.backward == 2 && p.r.Intn(3) > 0 || m.endStop != nil && m.backward > 0:
				p.w("<repeat direction=\"backward\"/>")
			case m.backward > 0:
				p.w("<repeat direction=\"backward\" times=\"%d\"/>", m.backward)
			}
			p.w("</barline>")
		} else if i == len(pt.measures)-1 && p.r.Intn(2) == 0 {
			p.w("<barline location=\"right\"><bar-style>light-heavy</bar-style></barline>")
		}
		p.w("</measure>")
	}
	p.w("</part>")
}

// contents writes the voices of a measure, each in one or two stretches.
func (pt *xPart) contents(p *xPrinter, m *xMeasure, D int) {
	type stretch struct {
		voice int
		items []*xItem
	}
	var todo []stretch
	for v, items := range m.voices {
		if len(items) == 0 {
			continue
		}
		if len(m.voices) > 1 && p.r.Intn(4) == 0 {
			cut := p.r.Intn(len(items))
			todo = append(todo, stretch{v, items[:cut]}, stretch{v, items[cut:]})
		} else {
			todo = append(todo, stretch{v, items})
		}
	}
	if len(m.voices) > 1 {
		key := map[int]float64{}
		rank := make([]float64, len(todo))
		for i, s := range todo {
			rank[i] = key[s.voice] + p.r.Float64()
			key[s.voice] = rank[i]
		}
		sort.SliceStable(todo, func(i, j int) bool { return false })
		idx := make([]int, len(todo))
		for i := range idx {
			idx[i] = i
		}
		sort.Slice(idx, func(a, b int) bool { return rank[idx[a]] < rank[idx[b]] })
		var re []stretch
		for _, i := range idx {
			re = append(re, todo[i])
		}
		todo = re
	}
	at, furthest := 0.0, 0.0
	ticks := func(x float64) string { return fmt.Sprint(int(math.Round(x * float64(D)))) }
	move := func(to float64, voice string) {
		if to > at+1e-6 {
			v := ""
			if voice != "" && p.r.Intn(2) == 0 {
				v = "<voice>" + voice + "</voice>"
			}
			p.w("<forward><duration>%s</duration>%s</forward>", ticks(to-at), v)
		} else if to < at-1e-6 {
			p.w("<backup><duration>%s</duration></backup>", ticks(at-to))
		}
		at = to
		furthest = math.Max(furthest, at)
	}
	for _, s := range todo {
		name := pt.voiceNames[s.voice]
		for _, it := range s.items {
			move(it.pos, name)
			pt.item(p, it, name, ticks)
			at = it.pos + it.dur
			furthest = math.Max(furthest, at)
		}
	}
	if furthest < m.length-1e-6 {
		move(m.length, "")
	}
}

func (pt *xPart) item(p *xPrinter, it *xItem, voice string, ticks func(float64) string) {
	v := ""
	if voice != "" {
		v = "<voice>" + voice + "</voice>"
	}
	if it.kind == "dyn" {
		p.w("<direction placement=\"below\"><direction-type><dynamics><%s/></dynamics></direction-type>%s</direction>", it.dyn, v)
		return
	}
	if it.kind == "rest" {
		p.w("<note><rest/><duration>%s</duration>%s%s</note>", ticks(it.dur), v, strings.Repeat("<dot/>", it.dots))
		return
	}
	for i, n := range it.notes {
		s := "<note>"
		switch it.kind {
		case "cue":
			s += "<cue/>"
		case "grace":
			s += "<grace/>"
		}
		if i > 0 {
			s += "<chord/>"
		}
		if n.unpitched != "" {
			s += "<unpitched><display-step>E</display-step><display-octave>4</display-octave></unpitched>"
		} else {
			alter := ""
			if n.alter != 0 || p.r.Intn(4) == 0 {
				alter = fmt.Sprintf("<alter>%d</alter>", n.alter)
			}
			s += fmt.Sprintf("<pitch><step>%c</step>%s<octave>%d</octave></pitch>", n.step, alter, n.octave)
		}
		if it.kind != "grace" {
			s += "<duration>" + ticks(it.dur) + "</duration>"
		}
		if n.tieStop {
			s += "<tie type=\"stop\"/>"
		}
		if n.tieStart {
			s += "<tie type=\"start\"/>"
		}
		if n.unpitched != "" {
			s += fmt.Sprintf("<instrument id=%q/>", n.unpitched)
		}
		s += v
		if p.r.Intn(3) == 0 {
			s += "<type>quarter</type>"
		}
		s += strings.Repeat("<dot/>", it.dots)
		if n.unpitched == "" && n.alter == 0 && p.r.Intn(10) == 0 {
			s += "<accidental>natural</accidental>"
		}
		if p.r.Intn(4) == 0 {
			s += "<stem>up</stem>"
		}
		notations := ""
		if n.tieStop {
			notations += "<tied type=\"stop\"/>"
		}
		if n.tieStart {
			notations += "<tied type=\"start\"/>"
		}
		if i == 0 {
			for k := 0; k < it.slurEnd; k++ {
				notations += fmt.Sprintf("<slur type=\"stop\" number=\"%d\"/>", k+1)
			}
			for k := 0; k < it.slurStart; k++ {
				notations += fmt.Sprintf("<slur type=\"start\" number=\"%d\"/>", k+1)
			}
		}
		if notations != "" {
			s += "<notations>" + notations + "</notations>"
		}
		p.w("%s</note>", s)
	}
}

// ---- what a document sounds like

type xSound struct {
	on, dur float64 // beats
	midi    int
	slurred bool
	dyn     string
}

func (pt *xPart) sounds() (out []xSound, total float64) {
	start, transpose := 0.0, 0
	dyn := ""
	open := make([]map[string]int, len(pt.voiceNames))
	for v := range open {
		open[v] = map[string]int{}
	}
	for _, i := range pt.order {
		m := pt.measures[i]
		if m.transpose != nil {
			transpose = *m.transpose
		}
		for v, items := range m.voices {
			for _, it := range items {
				switch it.kind {
				case "dyn":
					dyn = it.dyn
				case "note":
					for _, n := range it.notes {
						k, ok := open[v][n.key()]
						delete(open[v], n.key())
						if n.tieStop && ok {
							out[k].dur += it.dur
							out[k].slurred = it.slurred
						} else {
							k = len(out)
							out = append(out, xSound{start + it.pos, it.dur, n.midi + transpose, it.slurred, dyn})
						}
						if n.tieStart {
							open[v][n.key()] = k
						}
					}
				}
			}
		}
		start += m.length
	}
	return out, start
}

// instrument is the name of the instrument that plays a part.
func (pt *xPart) instrument() string {
	switch pt.program {
	case -1:
		return "midi-percussion"
	case 0:
		return lang.GM[0][0]
	}
	return lang.GM[pt.program-1][0]
}
