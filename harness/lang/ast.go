// Package lang is an independent model of the Alda language: abstract syntax,
// printer, random generator and reference interpreter. It shares no code with
// alda.io/client; the checks compare the two.
package lang

// Node is an event, a part declaration or a variable definition.
type Node interface{}

// Comp is one component of a duration.
type Comp struct {
	Kind byte    // 'n' note length, 'm' milliseconds, 's' seconds, 'b' beats (only via attributes)
	Val  float64 // denominator, ms, seconds or beats
	Text string  // how Val is written
	Dots int
	Bar  int // barlines written after this component (in front of the tie)
	Bar2 int // barlines written between the tie and the next component
	Ties int // extraneous ties written in front of the next component
}

// Dur is a duration: the sum of its components. nil: not specified.
type Dur struct{ Comps []Comp }

// Note is a note, in native syntax or as an S-expression.
type Note struct {
	Letter byte
	Acc    []int // -1, 0, +1; nil: none written
	Dur    *Dur
	Slur   bool
	Lisp   bool
	Midi   int // >= 0: explicit MIDI note (S-expressions only)
	IsMidi bool
}

// Rest is a rest.
type Rest struct {
	Dur  *Dur
	Lisp bool
}

// Chord is a list of Note, Rest, OctUp, OctDown, OctSet and Attr, with at least
// two notes/rests, starting and ending with one.
type Chord struct{ Events []Node }

// Cram is {...}.
type Cram struct {
	Events []Node
	Dur    *Dur
}

// Seq is [...].
type Seq struct{ Events []Node }

// Repeat is event *N.
type Repeat struct {
	Ev    Node
	Times int
}

// OnRep is event'1,3-4 (only directly inside a Seq).
type OnRep struct {
	Ev     Node
	Ranges [][2]int
}

type OctUp struct{}
type OctDown struct{}
type OctSet struct{ N int }

// Voice is Vn:, or V0: (end of the group).
type Voice struct{ N int }

type Marker struct{ Name string }
type AtMarker struct{ Name string }
type VarDef struct {
	Name   string
	Events []Node
}
type VarRef struct{ Name string }
type Barline struct{}

// Part is a part declaration.
type Part struct {
	Names []string
	Alias string
}

// Attr is an attribute change S-expression.
type Attr struct {
	Kind   string // tempo metmod quant vol dyn tvol pan oct octup octdown dur key transpose refpitch midich
	Fn     string // the function name as written, without !
	Args   string // the arguments as written
	Global bool
	Num    float64
	Dur    *Dur
	Key    map[byte][]int
}

// Raw is verbatim source text without musical effect in the reference (used by
// special-purpose generators).
type Raw struct{ Text string }

// Score is a flat list of part declarations, variable definitions and events.
type Score []Node

// Clone makes a deep enough copy for structural edits of event lists.
func Clone(ns []Node) []Node {
	out := make([]Node, len(ns))
	for i, n := range ns {
		switch n := n.(type) {
		case Chord:
			out[i] = Chord{Events: Clone(n.Events)}
		case Cram:
			out[i] = Cram{Events: Clone(n.Events), Dur: n.Dur}
		case Seq:
			out[i] = Seq{Events: Clone(n.Events)}
		case Repeat:
			out[i] = Repeat{Ev: Clone([]Node{n.Ev})[0], Times: n.Times}
		case OnRep:
			out[i] = OnRep{Ev: Clone([]Node{n.Ev})[0], Ranges: n.Ranges}
		case VarDef:
			out[i] = VarDef{Name: n.Name, Events: Clone(n.Events)}
		default:
			out[i] = n
		}
	}
	return out
}

// Size counts nodes.
func Size(ns []Node) int {
	s := 0
	for _, n := range ns {
		s++
		switch n := n.(type) {
		case Chord:
			s += Size(n.Events)
		case Cram:
			s += Size(n.Events)
		case Seq:
			s += Size(n.Events)
		case Repeat:
			s += Size([]Node{n.Ev})
		case OnRep:
			s += Size([]Node{n.Ev})
		case VarDef:
			s += Size(n.Events)
		}
	}
	return s
}

// Walk calls f on every node.
func Walk(ns []Node, f func(Node)) {
	for _, n := range ns {
		f(n)
		switch n := n.(type) {
		case Chord:
			Walk(n.Events, f)
		case Cram:
			Walk(n.Events, f)
		case Seq:
			Walk(n.Events, f)
		case Repeat:
			Walk([]Node{n.Ev}, f)
		case OnRep:
			Walk([]Node{n.Ev}, f)
		case VarDef:
			Walk(n.Events, f)
		}
	}
}
