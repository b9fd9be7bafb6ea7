package lang

import (
	"fmt"
	"math/rand"
	"strings"
)

// Layout decides the whitespace between tokens. A nil Rng gives one space
// between events and a newline around part declarations and definitions.
type Layout struct {
	Rng      *rand.Rand
	Bars     bool // also insert barlines between events
	Comments bool
	Tight    bool // sometimes leave out optional space
}

type printer struct {
	sb     strings.Builder
	l      Layout
	inLine bool // inside a variable definition: stay on the line
}

// Print writes a score as Alda source text.
func Print(s []Node, l Layout) string {
	p := &printer{l: l}
	p.list(s)
	p.sb.WriteString("\n")
	return p.sb.String()
}

// Plain prints with the default layout.
func Plain(s []Node) string { return Print(s, Layout{}) }

func (p *printer) gap(inChord bool) {
	if p.l.Rng == nil {
		p.sb.WriteByte(' ')
		return
	}
	r := p.l.Rng
	if p.l.Tight && r.Intn(3) == 0 {
		// Something else than a space, or nothing where nothing is needed.
		text := p.sb.String()
		switch k := r.Intn(4); {
		case k == 0 && text != "" && strings.IndexByte("]})><:", text[len(text)-1]) >= 0:
			return
		case k == 1 && p.l.Bars && !inChord && text != "":
			p.sb.WriteString("|")
			return
		case k == 2 && p.l.Comments && !p.inLine:
			p.sb.WriteString("#tight\n")
			return
		default:
			p.sb.WriteString("\t")
			return
		}
	}
	n := 1 + r.Intn(3)
	if r.Intn(3) > 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := r.Intn(12)
		switch {
		case k < 6:
			p.sb.WriteByte(' ')
		case k == 6:
			p.sb.WriteString("   ")
		case k == 7 && !p.inLine:
			p.sb.WriteString("\n")
		case k == 8 && !p.inLine:
			p.sb.WriteString("\r\n  ")
		case k == 9 && !p.inLine && p.l.Comments:
			p.sb.WriteString([]string{" # a comment c4 [ } (\n", " #\n", " # piano: \"x\" 'é *2\n", "\n# whole line\n\n"}[r.Intn(4)])
		case k == 10 && p.l.Bars && !inChord:
			p.sb.WriteString(" | ")
		default:
			p.sb.WriteByte(' ')
		}
	}
}

func (p *printer) newline() {
	p.sb.WriteString("\n")
	if p.l.Rng != nil && p.l.Comments && p.l.Rng.Intn(4) == 0 {
		p.sb.WriteString("# between\n")
	}
}

// tight decides to leave out a space.
func (p *printer) tight() bool { return p.l.Tight && p.l.Rng != nil && p.l.Rng.Intn(2) == 0 }

// opt writes optional white space (where none is needed).
func (p *printer) opt() {
	if p.l.Rng == nil || p.l.Rng.Intn(3) > 0 {
		return
	}
	if p.inLine || p.l.Rng.Intn(3) > 0 {
		p.sb.WriteByte(' ')
		return
	}
	if p.l.Comments && p.l.Rng.Intn(3) == 0 {
		p.sb.WriteString(" # mid\n")
		return
	}
	p.sb.WriteString("\n ")
}

func (p *printer) list(ns []Node) {
	for i, n := range ns {
		if i > 0 && !p.glued(ns[i-1], n) {
			p.gap(false)
		}
		switch n.(type) {
		case Part, VarDef:
			if p.sb.Len() > 0 {
				p.newline()
			}
		}
		p.node(n)
	}
}

// glued decides to leave out all space between a note or rest with a length
// and what follows it.
func (p *printer) glued(prev, next Node) bool {
	if p.l.Rng == nil || !p.l.Tight || p.l.Rng.Intn(4) > 0 {
		return false
	}
	var d *Dur
	switch x := prev.(type) {
	case Note:
		d = x.Dur
		if x.Lisp || x.Slur {
			return false
		}
	case Rest:
		d = x.Dur
		if x.Lisp {
			return false
		}
	case Cram:
		d = x.Dur
	}
	if d == nil {
		return false
	}
	switch next.(type) {
	case OctUp, OctDown, Seq, Cram, Attr, Marker, AtMarker, Barline:
		return true
	}
	return false
}

// DurText writes a duration in native syntax.
func DurText(d *Dur) string {
	if d == nil {
		return ""
	}
	var sb strings.Builder
	for i, c := range d.Comps {
		if i > 0 {
			sb.WriteByte('~')
			sb.WriteString(strings.Repeat("|", d.Comps[i-1].Bar2))
			sb.WriteString(strings.Repeat("~", d.Comps[i-1].Ties))
		}
		sb.WriteString(c.Text)
		switch c.Kind {
		case 'm':
			sb.WriteString("ms")
		case 's':
			sb.WriteString("s")
		}
		sb.WriteString(strings.Repeat(".", c.Dots))
		if i < len(d.Comps)-1 {
			for b := 0; b < c.Bar; b++ {
				sb.WriteString(" | ")
			}
		}
	}
	return sb.String()
}

// LispDur writes a duration as an S-expression.
func LispDur(d *Dur) string {
	parts := []string{}
	for _, c := range d.Comps {
		switch c.Kind {
		case 'm':
			parts = append(parts, "(ms "+c.Text+")")
		default:
			if c.Dots > 0 {
				parts = append(parts, `(note-length "`+c.Text+strings.Repeat(".", c.Dots)+`")`)
			} else {
				parts = append(parts, "(note-length "+c.Text+")")
			}
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(duration " + strings.Join(parts, " ") + ")"
}

var accText = map[int]string{-1: "-", 0: "_", 1: "+"}
var accName = map[int]string{-1: "flat", 0: "natural", 1: "sharp"}

func (p *printer) node(n Node) {
	w := func(s string) { p.sb.WriteString(s) }
	switch n := n.(type) {
	case Note:
		if n.Lisp {
			w(LispNoteText(n))
			return
		}
		w(string(rune(n.Letter)))
		for _, a := range n.Acc {
			w(accText[a])
		}
		if n.Dur != nil {
			if len(n.Acc) > 0 || p.l.Rng == nil {
				p.opt()
			}
			w(DurText(n.Dur))
		}
		if n.Slur {
			w("~")
		}
	case Rest:
		if n.Lisp {
			if n.Dur == nil {
				w("(pause)")
			} else {
				w("(pause " + LispDur(n.Dur) + ")")
			}
			return
		}
		w("r" + DurText(n.Dur))
	case Chord:
		sep := false
		for i, e := range n.Events {
			kind := e
			if x, ok := e.(Note); ok && x.Lisp {
				kind = Attr{} // an S-expression does not take a separator of its own
			}
			switch kind.(type) {
			case Note, Rest:
				if i > 0 && !sep {
					p.opt()
					w("/")
				}
				if i > 0 {
					p.opt()
				}
				p.node(e)
				sep = false
			default:
				// Attribute and octave changes come after or before the separator.
				if !sep && (p.l.Rng == nil || p.l.Rng.Intn(2) == 0) {
					p.opt()
					w("/")
					sep = true
				}
				w(" ")
				p.node(e)
				w(" ")
			}
		}
	case Cram:
		w("{")
		p.gap(false)
		p.list(n.Events)
		p.gap(false)
		w("}")
		w(DurText(n.Dur))
	case Seq:
		w("[")
		p.gap(false)
		p.list(n.Events)
		p.gap(false)
		w("]")
	case Repeat:
		p.node(n.Ev)
		_, oct := n.Ev.(OctSet)
		_, rep := n.Ev.(Repeat)
		if !p.tight() || oct || rep {
			w(" ")
		}
		if p.l.Rng != nil && !p.inLine && p.l.Rng.Intn(6) == 0 {
			w("\n")
		}
		w("*")
		if p.l.Rng != nil && p.l.Rng.Intn(4) == 0 {
			w(" ")
		}
		w(fmt.Sprint(n.Times))
	case OnRep:
		p.node(n.Ev)
		switch n.Ev.(type) {
		case Note, Rest, Chord, Cram, Seq, Attr:
			if !p.tight() {
				w(" ")
			}
		default:
			w(" ")
		}
		w("'")
		for i, r := range n.Ranges {
			if i > 0 {
				w(",")
			}
			if r[0] == r[1] {
				w(fmt.Sprint(r[0]))
			} else {
				w(fmt.Sprintf("%d-%d", r[0], r[1]))
			}
		}
	case OctUp:
		w(">")
	case OctDown:
		w("<")
	case OctSet:
		w(fmt.Sprintf("o%d", n.N))
	case Voice:
		w(fmt.Sprintf("V%d:", n.N))
	case Marker:
		w("%" + n.Name)
	case AtMarker:
		w("@" + n.Name)
	case VarRef:
		w(n.Name)
	case Barline:
		w("|")
	case VarDef:
		w(n.Name + " =")
		was := p.inLine
		p.inLine = true
		p.gap(false)
		p.list(n.Events)
		p.inLine = was
		p.sb.WriteString("\n")
	case Part:
		w(strings.Join(n.Names, "/"))
		if n.Alias != "" {
			w(` "` + n.Alias + `"`)
		}
		w(":")
		if p.l.Rng == nil || p.l.Rng.Intn(2) == 0 {
			w("\n ")
		}
	case Attr:
		w(AttrText(n))
	case Raw:
		w(n.Text)
	default:
		panic(fmt.Sprintf("cannot print %#v", n))
	}
}

// AttrText writes an attribute change.
func AttrText(a Attr) string {
	bang := ""
	if a.Global {
		bang = "!"
	}
	if a.Args == "" {
		return "(" + a.Fn + bang + ")"
	}
	return "(" + a.Fn + bang + " " + a.Args + ")"
}

// LispNoteText writes a note as an S-expression.
func LispNoteText(n Note) string {
	pitch := ""
	if n.IsMidi {
		pitch = fmt.Sprintf("(midi-note %d)", n.Midi)
	} else {
		pitch = "(pitch '(" + string(rune(n.Letter))
		for _, a := range n.Acc {
			pitch += " " + accName[a]
		}
		pitch += "))"
	}
	s := "(note " + pitch
	if n.Dur != nil {
		s += " " + LispDur(n.Dur)
	}
	s += ")"
	if n.Slur {
		s = "(slur " + s + ")"
	}
	return s
}
