package lang

import (
	"errors"
	"fmt"
	"hash/fnv"
	"math"
	"strings"
)

// Event is a sounding note in absolute terms.
type Event struct {
	Track   int // 1-based position of the part in the score
	Note    int
	Offset  float64
	Dur     float64
	Audible float64
	Vol     float64
	TVol    float64
	Pan     float64
	// Node identifies the text it came from (index in the flat node list), for
	// incremental checks.
	Top int
}

// ErrAmbiguous marks scores whose outcome depends on comparing two times that
// are equal on paper but may differ in the last bits of floating point.
var ErrAmbiguous = errors.New("ambiguous comparison of times")

// RefError is an error the score itself deserves.
type RefError struct{ Msg string }

func (e *RefError) Error() string { return e.Msg }

func refErr(f string, args ...interface{}) error { return &RefError{fmt.Sprintf(f, args...)} }

// off is a point in time. id is 0 when v is exactly representable whatever the
// order of the arithmetic was, and otherwise identifies how v was computed.
type off struct {
	v  float64
	id uint64
}

func exact(v float64) bool { x := v * 1024; return x == math.Trunc(x) && math.Abs(x) < 1<<50 }

func (o off) add(d float64, tainted bool, scale float64) off {
	v := o.v + d
	if o.id == 0 && !tainted && exact(d) {
		return off{v, 0}
	}
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %x %x %v %x", o.id, math.Float64bits(o.v), math.Float64bits(d), tainted, math.Float64bits(scale))
	return off{v, h.Sum64() | 1}
}

// cmp compares two times; it panics with ErrAmbiguous when they are too close
// to call.
func cmp(a, b off) int {
	if a.id != b.id && math.Abs(a.v-b.v) < 1e-5 {
		panic(ErrAmbiguous)
	}
	switch {
	case a.v < b.v:
		return -1
	case a.v > b.v:
		return 1
	}
	return 0
}

type state struct {
	off, last  off
	oct        int
	tempo      float64
	vol, tvol  float64
	pan, quant float64
	dur        *Dur
	key        map[byte][]int
	transp     int
	rep        int
	scale      float64
	ctaint     bool // the scale was computed from inexact numbers
	gDone      bool // global changes were applied at gAt
	gAt        off
	gN         int
	over       map[string]bool
}

func (s *state) clone() *state {
	c := *s
	c.over = map[string]bool{}
	for k := range s.over {
		c.over[k] = true
	}
	return &c
}

type part struct {
	idx    int
	name   string
	stock  string
	perc   bool
	cur    *state
	tmpl   *state
	voices map[int]*state
	vorder []int
}

type globalRec struct {
	at off
	a  Attr
}

// TempoPoint is an entry of the master tempo history.
type TempoPoint struct {
	Offset float64
	Tempo  float64
	Ratio  bool // Tempo multiplies the tempo before
}

// Ref is the reference interpreter's score.
type Ref struct {
	Parts   []*part
	current []*part
	aliases map[string][]*part
	globals []globalRec
	Markers map[string]off
	vars    map[string][]Node
	Events  []Event
	measure bool // measuring the inside of a cram: emit nothing
	inCram  int
	top     int
	// Stats for coverage
	Stats map[string]int
	// Tempo history: offset -> tempo for the first part and globals.
	Local, Global []TempoPoint
	GlobalMetmod  bool
	VoiceTempo    bool // the first part changed its tempo in a voice
	chordStart    bool
}

// NewRef returns an empty score.
func NewRef() *Ref {
	return &Ref{aliases: map[string][]*part{}, Markers: map[string]off{}, vars: map[string][]Node{}, Stats: map[string]int{}}
}

// Run interprets nodes on top of what is already there.
func (r *Ref) Run(ns []Node) (err error) {
	defer func() {
		if x := recover(); x != nil {
			if x == ErrAmbiguous {
				err = ErrAmbiguous
				return
			}
			panic(x)
		}
	}()
	for i, n := range ns {
		r.top = i
		if err := r.do(n); err != nil {
			return err
		}
	}
	return nil
}

// Interpret runs a whole score.
func Interpret(ns []Node) (*Ref, error) {
	r := NewRef()
	return r, r.Run(ns)
}

// PartOffsets gives the current offset of every part.
func (r *Ref) PartOffsets() map[int]float64 {
	m := map[int]float64{}
	for _, p := range r.Parts {
		m[p.idx] = p.cur.off.v
	}
	return m
}

// InVoices says whether the part is in the middle of a voice group.
func (r *Ref) InVoices(idx int) bool { return r.Parts[idx-1].voices != nil }

// PartInfo describes the parts in order.
func (r *Ref) PartInfo() (names, stocks []string) {
	for _, p := range r.Parts {
		names = append(names, p.name)
		stocks = append(stocks, p.stock)
	}
	return
}

// CurrentIdx gives the indices of the current parts.
func (r *Ref) CurrentIdx() []int {
	out := []int{}
	for _, p := range r.current {
		out = append(out, p.idx)
	}
	return out
}

func (c Comp) ms(tempo float64) float64 {
	beat := 60000 / tempo
	switch c.Kind {
	case 'n':
		v := 4 / c.Val
		t := v
		for i := 0; i < c.Dots; i++ {
			v /= 2
			t += v
		}
		return t * beat
	case 'm':
		return c.Val
	case 's':
		return c.Val * 1000
	case 'b':
		return c.Val * beat
	}
	panic("kind")
}

func (d *Dur) ms(tempo float64) float64 {
	t := 0.0
	for _, c := range d.Comps {
		t += c.ms(tempo)
	}
	return t
}

func (s *state) durFor(d *Dur) *Dur {
	if d != nil {
		return d
	}
	return s.dur
}

var semis = map[byte]int{'c': 0, 'd': 2, 'e': 4, 'f': 5, 'g': 7, 'a': 9, 'b': 11}

func (s *state) pitch(n Note) int {
	if n.IsMidi {
		return n.Midi + s.transp
	}
	acc := n.Acc
	if acc == nil {
		acc = s.key[n.Letter]
	}
	t := 12*(s.oct+1) + semis[n.Letter] + s.transp
	for _, a := range acc {
		t += a
	}
	return t
}

func (r *Ref) applyGlobals() error {
	for _, p := range r.current {
		s := p.cur
		if s.gDone && cmp(s.gAt, s.off) == 0 {
			n := 0
			for _, g := range r.globals {
				if cmp(g.at, s.off) != 0 {
					continue
				}
				n++
				if n > s.gN {
					r.applyGlobal(p, g.a)
				}
			}
			s.gN = n
			continue
		}
		s.gDone, s.gAt = true, s.off
		s.over = map[string]bool{}
		// In order of time, then of writing.
		var due []globalRec
		n := 0
		for _, g := range r.globals {
			if cmp(g.at, s.off) == 0 {
				n++
			}
			if cmp(g.at, s.last) > 0 && cmp(g.at, s.off) <= 0 {
				due = append(due, g)
			}
		}
		for i := 1; i < len(due); i++ {
			for j := i; j > 0 && cmp(due[j].at, due[j-1].at) < 0; j-- {
				due[j], due[j-1] = due[j-1], due[j]
			}
		}
		s.gN = n
		for _, g := range due {
			r.applyGlobal(p, g.a)
		}
	}
	return nil
}

var family = map[string]string{"oct": "octave", "octup": "octave", "octdown": "octave", "tempo": "tempo", "metmod": "tempo", "vol": "volume", "dyn": "volume"}

func (r *Ref) applyGlobal(p *part, a Attr) {
	s := p.cur
	if s.over[a.Kind] {
		r.Stats["global overridden"]++
		return
	}
	if f := family[a.Kind]; f != "" {
		for k := range s.over {
			if family[k] == f {
				// A local change of the same attribute by other means.
				panic(ErrAmbiguous)
			}
		}
	}
	if r.inCram > 0 && (a.Kind == "tempo" || a.Kind == "metmod" || a.Kind == "dur") {
		// Another part's global change in the middle of a cram.
		panic(ErrAmbiguous)
	}
	r.Stats["global applied "+a.Kind]++
	s.set(a)
}

func (s *state) set(a Attr) {
	switch a.Kind {
	case "tempo":
		s.tempo = a.Num
	case "metmod":
		s.tempo *= a.Num
	case "quant":
		s.quant = a.Num
	case "vol", "dyn":
		s.vol = a.Num
	case "tvol":
		s.tvol = a.Num
	case "pan":
		s.pan = a.Num
	case "oct":
		s.oct = int(a.Num)
	case "octup":
		s.oct++
	case "octdown":
		s.oct--
	case "dur":
		s.dur = a.Dur
	case "key":
		s.key = a.Key
	case "transpose":
		s.transp = int(a.Num)
	case "refpitch", "midich":
	default:
		panic(a.Kind)
	}
}

func (r *Ref) emit(p *part, n Note, ms float64) error {
	s := p.cur
	aud := ms
	if !n.Slur {
		aud *= s.quant
	}
	if aud <= 0 {
		return nil
	}
	if r.measure {
		return nil
	}
	m := s.pitch(n)
	if m < 0 || m > 127 {
		return refErr("note %d out of range", m)
	}
	r.Stats["notes"]++
	r.Events = append(r.Events, Event{Track: p.idx, Note: m, Offset: s.off.v, Dur: ms, Audible: aud, Vol: s.vol, TVol: s.tvol, Pan: s.pan, Top: r.top})
	return nil
}

func (s *state) tainted() bool { return s.ctaint || !exact(s.scale*1024) }

func (s *state) advance(ms float64) {
	s.last = s.off
	s.off = s.off.add(ms, s.tainted(), s.scale)
}

func (r *Ref) single(n Node) error {
	if err := r.applyGlobals(); err != nil {
		return err
	}
	for _, p := range r.current {
		s := p.cur
		var d *Dur
		switch n := n.(type) {
		case Note:
			d = s.durFor(n.Dur)
		case Rest:
			d = s.durFor(n.Dur)
		}
		ms := d.ms(s.tempo) * s.scale
		if n, ok := n.(Note); ok {
			if err := r.emit(p, n, ms); err != nil {
				return err
			}
		}
		s.advance(ms)
		s.dur = d
	}
	return nil
}

func (r *Ref) attr(a Attr) error {
	if a.Global {
		var at off
		for i, p := range r.current {
			if i > 0 && cmp(p.cur.off, at) != 0 {
				return refErr("global attribute at different offsets")
			}
			at = p.cur.off
		}
		if !r.measure {
			if a.Kind == "midich" {
				panic("global midi channel not modelled")
			}
			r.Stats["global recorded"]++
			switch a.Kind {
			case "tempo":
				r.Global = append(r.Global, TempoPoint{at.v, a.Num, false})
			case "metmod":
				r.GlobalMetmod = true
				r.Global = append(r.Global, TempoPoint{at.v, a.Num, true})
			}
		}
		r.globals = append(r.globals, globalRec{at, a})
		return nil
	}
	if err := r.applyGlobals(); err != nil {
		return err
	}
	for _, p := range r.current {
		p.cur.set(a)
		if p.cur.over == nil {
			p.cur.over = map[string]bool{}
		}
		p.cur.over[a.Kind] = true
		if !r.measure && p.idx == 1 && (a.Kind == "tempo" || a.Kind == "metmod") {
			if p.voices != nil {
				r.VoiceTempo = true
			}
			r.Local = append(r.Local, TempoPoint{p.cur.off.v, p.cur.tempo, false})
		}
	}
	return nil
}

func (r *Ref) list(ns []Node) error {
	for _, n := range ns {
		if err := r.do(n); err != nil {
			return err
		}
	}
	return nil
}

func (r *Ref) do(n Node) error {
	switch n := n.(type) {
	case Note, Rest:
		r.Stats["note/rest"]++
		return r.single(n)
	case Chord:
		r.Stats["chord"]++
		if err := r.applyGlobals(); err != nil {
			return err
		}
		short := map[*part]float64{}
		for _, e := range n.Events {
			switch e.(type) {
			case Note, Rest:
			default:
				if err := r.do(e); err != nil {
					return err
				}
				continue
			}
			for _, p := range r.current {
				s := p.cur
				var d *Dur
				if x, ok := e.(Note); ok {
					d = s.durFor(x.Dur)
				} else {
					d = s.durFor(e.(Rest).Dur)
				}
				ms := d.ms(s.tempo) * s.scale
				if x, ok := e.(Note); ok {
					if err := r.emit(p, x, ms); err != nil {
						return err
					}
				}
				if m, ok := short[p]; !ok || ms < m {
					short[p] = ms
				}
				s.dur = d
			}
		}
		for _, p := range r.current {
			p.cur.advance(short[p])
		}
		return nil
	case Cram:
		r.Stats["cram"]++
		if err := r.applyGlobals(); err != nil {
			return err
		}
		prevDur := map[*part]*Dur{}
		prevScale := map[*part]float64{}
		prevTaint := map[*part]bool{}
		for _, p := range r.current {
			s := p.cur
			prevDur[p], prevScale[p] = s.dur, s.scale
			inner, err := r.innerMs(p, n.Events)
			if err != nil {
				return err
			}
			if inner <= 0 {
				panic(ErrAmbiguous) // a cram without any duration inside
			}
			outer := s.durFor(n.Dur).ms(s.tempo)
			prevTaint[p] = s.ctaint
			s.ctaint = s.ctaint || !exact(inner) || !exact(outer)
			// The result may depend on the order of the operations.
			if x := s.scale * outer / inner; x != s.scale*(outer/inner) || x != (s.scale/inner)*outer {
				s.ctaint = true
			}
			s.scale = s.scale * outer / inner
		}
		r.inCram++
		err := r.list(n.Events)
		r.inCram--
		if err != nil {
			return err
		}
		for _, p := range r.current {
			s := p.cur
			s.scale = prevScale[p]
			s.ctaint = prevTaint[p]
			if n.Dur != nil {
				s.dur = n.Dur
			} else {
				s.dur = prevDur[p]
			}
		}
		return nil
	case Seq:
		r.Stats["seq"]++
		return r.list(n.Events)
	case Repeat:
		r.Stats["repeat"]++
		outer := map[*part]int{}
		for _, p := range r.current {
			outer[p] = p.cur.rep
		}
		for i := 1; i <= n.Times; i++ {
			for _, p := range r.current {
				p.cur.rep = i
			}
			if err := r.do(n.Ev); err != nil {
				return err
			}
		}
		for _, p := range r.current {
			p.cur.rep = outer[p]
		}
		return nil
	case OnRep:
		r.Stats["ending"]++
		if len(r.current) == 0 {
			return nil
		}
		rep := r.current[0].cur.rep
		for _, g := range n.Ranges {
			if g[0] <= rep && rep <= g[1] {
				return r.do(n.Ev)
			}
		}
		r.Stats["ending skipped"]++
		return nil
	case OctUp:
		return r.attr(Attr{Kind: "octup"})
	case OctDown:
		return r.attr(Attr{Kind: "octdown"})
	case OctSet:
		return r.attr(Attr{Kind: "oct", Num: float64(n.N)})
	case Attr:
		r.Stats["attr "+n.Kind]++
		return r.attr(n)
	case Voice:
		if r.measure {
			panic(ErrAmbiguous)
		}
		r.Stats["voice marker"]++
		for _, p := range r.current {
			// The repetition is that of the repeat being carried out, whatever the
			// voice.
			rep := p.cur.rep
			if n.N == 0 {
				p.endVoices()
				p.cur.rep = rep
				continue
			}
			if p.voices == nil {
				p.tmpl = p.cur.clone()
				p.voices = map[int]*state{}
				p.vorder = nil
			}
			if p.voices[n.N] == nil {
				p.voices[n.N] = p.tmpl.clone()
				p.vorder = append(p.vorder, n.N)
			}
			p.cur = p.voices[n.N]
			p.cur.rep = rep
		}
		return nil
	case Marker:
		r.Stats["marker"]++
		if len(r.current) == 0 {
			return refErr("marker outside part")
		}
		for _, p := range r.current[1:] {
			if cmp(p.cur.off, r.current[0].cur.off) != 0 {
				return refErr("unclear marker")
			}
		}
		r.Markers[n.Name] = r.current[0].cur.off
		return nil
	case AtMarker:
		r.Stats["jump"]++
		if err := r.applyGlobals(); err != nil {
			return err
		}
		o, ok := r.Markers[n.Name]
		if !ok {
			return refErr("undefined marker")
		}
		for _, p := range r.current {
			p.cur.last = p.cur.off
			p.cur.off = o
		}
		return nil
	case VarDef:
		r.Stats["variable definition"]++
		ev, err := r.inline(n.Events)
		if err != nil {
			return err
		}
		r.vars[n.Name] = ev
		return nil
	case VarRef:
		r.Stats["variable reference"]++
		ev, ok := r.vars[n.Name]
		if !ok {
			return refErr("undefined variable %s", n.Name)
		}
		return r.list(ev)
	case Barline, Raw:
		return nil
	case Part:
		r.Stats["part declaration"]++
		return r.declare(n)
	}
	panic(fmt.Sprintf("cannot interpret %#v", n))
}

func (p *part) endVoices() {
	if p.voices == nil {
		return
	}
	best := p.voices[p.vorder[len(p.vorder)-1]]
	for _, v := range p.vorder[:len(p.vorder)-1] {
		if cmp(p.voices[v].off, best.off) > 0 {
			best = p.voices[v]
		}
	}
	p.cur = best
	p.voices, p.vorder, p.tmpl = nil, nil, nil
}

// innerMs measures how long the events would take on their own.
func (r *Ref) innerMs(p *part, ev []Node) (float64, error) {
	s := p.cur.clone()
	s.scale = 1
	s.off, s.last = off{}, off{-1, 0}
	s.gDone = false
	q := &part{idx: p.idx, cur: s}
	m := &Ref{aliases: r.aliases, Markers: r.Markers, vars: r.vars, Stats: map[string]int{}, measure: true, current: []*part{q}}
	var scan func(ns []Node)
	scan = func(ns []Node) {
		Walk(ns, func(x Node) {
			switch x := x.(type) {
			case AtMarker, Marker, Voice:
				panic(ErrAmbiguous)
			case VarRef:
				scan(r.vars[x.Name])
			}
		})
	}
	scan(ev)
	if err := m.list(ev); err != nil {
		return 0, err
	}
	return s.off.v, nil
}

// inline replaces variable references by what they mean now.
func (r *Ref) inline(ns []Node) ([]Node, error) {
	out := []Node{}
	one := func(n Node) (Node, error) {
		x, err := r.inline([]Node{n})
		if err != nil {
			return nil, err
		}
		if len(x) == 1 {
			return x[0], nil
		}
		return Seq{Events: x}, nil
	}
	for _, n := range ns {
		switch n := n.(type) {
		case VarRef:
			ev, ok := r.vars[n.Name]
			if !ok {
				return nil, refErr("undefined variable %s", n.Name)
			}
			out = append(out, Seq{Events: ev})
		case Chord:
			out = append(out, n)
		case Cram:
			ev, err := r.inline(n.Events)
			if err != nil {
				return nil, err
			}
			out = append(out, Cram{Events: ev, Dur: n.Dur})
		case Seq:
			ev, err := r.inline(n.Events)
			if err != nil {
				return nil, err
			}
			out = append(out, Seq{Events: ev})
		case Repeat:
			ev, err := one(n.Ev)
			if err != nil {
				return nil, err
			}
			out = append(out, Repeat{Ev: ev, Times: n.Times})
		case OnRep:
			ev, err := one(n.Ev)
			if err != nil {
				return nil, err
			}
			out = append(out, OnRep{Ev: ev, Ranges: n.Ranges})
		default:
			out = append(out, n)
		}
	}
	return out, nil
}

// declare implements part declarations.
func (r *Ref) declare(d Part) error {
	for _, p := range r.current {
		p.endVoices()
	}
	newPart := func(name string) (*part, error) {
		st, ok := canon(name)
		if !ok {
			return nil, refErr("unknown instrument %s", name)
		}
		s := &state{last: off{-1, 0}, oct: 4, tempo: 120, vol: Dynamics["mf"], tvol: 100.0 / 127, pan: 0.5, quant: 0.9,
			dur: &Dur{Comps: []Comp{NL("4", 0)}}, scale: 1, over: map[string]bool{}}
		return &part{name: name, stock: st, perc: st == "midi-percussion", cur: s}, nil
	}
	named := func(n string) []*part { return r.aliases[n] }
	unnamed := func(n string) []*part {
		st, ok := canon(n)
		if !ok {
			return nil
		}
		var out []*part
		for _, p := range r.Parts {
			if p.stock != st {
				continue
			}
			has := false
			for _, ps := range r.aliases {
				for _, q := range ps {
					has = has || q == p
				}
			}
			if !has {
				out = append(out, p)
			}
		}
		return out
	}
	// Instances of the instrument that have a name of their own.
	ownName := func(n string) bool {
		st, ok := canon(n)
		if !ok {
			return false
		}
		for _, ps := range r.aliases {
			if len(ps) == 1 && ps[0].stock == st {
				return true
			}
		}
		return false
	}
	var parts []*part
	if len(d.Names) == 1 {
		n := d.Names[0]
		switch {
		case d.Alias != "":
			if len(named(n)) > 0 {
				return refErr("alias for an existing instance")
			}
			if len(named(d.Alias)) > 0 {
				return refErr("alias taken")
			}
			if len(unnamed(n)) > 0 {
				return refErr("named and unnamed instances")
			}
			p, err := newPart(n)
			if err != nil {
				return err
			}
			parts = []*part{p}
		case !strings.Contains(n, ".") && ownName(n):
			return refErr("named and unnamed instances")
		case len(named(n)) > 0:
			parts = append(parts, named(n)...)
		case len(unnamed(n)) > 0:
			parts = unnamed(n)
		default:
			p, err := newPart(n)
			if err != nil {
				return err
			}
			parts = []*part{p}
		}
	} else {
		seen := map[string]bool{}
		for _, n := range d.Names {
			if seen[n] {
				return refErr("duplicate name")
			}
			seen[n] = true
		}
		var nm, st []*part
		for _, n := range d.Names {
			if ps := named(n); len(ps) > 0 {
				nm = append(nm, ps...)
			} else if ps := unnamed(n); len(ps) > 0 {
				st = append(st, ps...)
			} else {
				p, err := newPart(n)
				if err != nil {
					return err
				}
				st = append(st, p)
			}
		}
		if len(nm) > 0 && len(st) > 0 {
			return refErr("mixed group")
		}
		if d.Alias != "" && len(st) > 0 {
			for _, n := range d.Names {
				p, err := newPart(n)
				if err != nil {
					return err
				}
				parts = append(parts, p)
			}
		} else {
			in := map[*part]bool{}
			for _, p := range append(nm, st...) {
				if !in[p] {
					parts = append(parts, p)
				}
				in[p] = true
			}
		}
	}
	for _, p := range parts {
		if p.idx == 0 {
			r.Parts = append(r.Parts, p)
			p.idx = len(r.Parts)
		}
	}
	if d.Alias != "" {
		own := map[*part][]string{}
		for a, ps := range r.aliases {
			if len(ps) == 1 {
				own[ps[0]] = append(own[ps[0]], a)
			}
		}
		r.aliases[d.Alias] = parts
		for _, p := range parts {
			r.aliases[d.Alias+"."+p.name] = []*part{p}
			for _, a := range own[p] {
				r.aliases[d.Alias+"."+a] = []*part{p}
			}
		}
	}
	r.current = parts
	return nil
}

// V is the time in milliseconds.
func (o off) V() float64 { return o.v }

// Top is the index of the node interpreted last.
func (r *Ref) Top() int { return r.top }
