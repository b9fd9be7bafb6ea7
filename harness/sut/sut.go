// Package sut drives the code under test (alda.io/client) through its exported
// interface and turns what it does into plain data.
package sut

import (
	"errors"
	"fmt"
	"runtime/debug"
	"sort"

	"alda.io/client/model"
	"alda.io/client/parser"
	"verif/lang"
)

// Stage is where an input was refused.
type Stage int

// Stages.
const (
	OK Stage = iota
	SyntaxError
	ASTError
	ScoreError
	Panicked
)

func (s Stage) String() string {
	return [...]string{"ok", "syntax error", "tree error", "score error", "panic"}[s]
}

// Result is the outcome of compiling a text.
type Result struct {
	Stage   Stage
	Err     error
	Panic   string
	AST     parser.ASTNode
	Updates []model.ScoreUpdate
	Score   *model.Score
}

// Compile parses and interprets a text.
func Compile(text string) (r Result) {
	defer func() {
		if x := recover(); x != nil {
			r.Stage = Panicked
			r.Panic = fmt.Sprintf("%v\n%s", x, debug.Stack())
			r.Err = errors.New(r.Panic)
		}
	}()
	ast, err := parser.Parse("score.alda", text)
	if err != nil {
		r.Stage, r.Err = SyntaxError, err
		return
	}
	r.AST = ast
	ups, err := ast.Updates()
	if err != nil {
		r.Stage, r.Err = ASTError, err
		return
	}
	r.Updates = ups
	r.Score = model.NewScore()
	if err := r.Score.Update(ups...); err != nil {
		r.Stage, r.Err = ScoreError, err
	}
	return
}

// Ev is a sounding note of the code under test.
type Ev struct {
	lang.Event
	Channel int
	Instr   string // canonical name of the instrument
}

// Events converts the events of a score, in the order they are in.
func Events(s *model.Score) ([]Ev, error) {
	tracks := s.Tracks()
	out := make([]Ev, 0, len(s.Events))
	for _, e := range s.Events {
		n, ok := e.(model.NoteEvent)
		if !ok {
			return nil, fmt.Errorf("event of type %T", e)
		}
		t, ok := tracks[n.Part]
		if !ok {
			return nil, fmt.Errorf("event of a part that is not in the score: %+v", n)
		}
		out = append(out, Ev{lang.Event{Track: int(t), Note: int(n.MidiNote), Offset: n.Offset, Dur: n.Duration,
			Audible: n.AudibleDuration, Vol: n.Volume, TVol: n.TrackVolume, Pan: n.Panning}, int(n.MidiChannel), n.Part.StockInstrument.Name()})
	}
	return out, nil
}

// Source finds the innermost located error, as the user sees it.
func Source(err error) (model.AldaSourceContext, bool) {
	var c model.AldaSourceContext
	found := false
	for err != nil {
		var a *model.AldaSourceError
		if !errors.As(err, &a) {
			break
		}
		if a.Context.Line != 0 {
			c, found = a.Context, true
		}
		err = a.Err
	}
	return c, found
}

// Close compares numbers up to rounding.
func Close(a, b float64) bool {
	d := a - b
	if d < 0 {
		d = -d
	}
	m := 1.0
	for _, x := range []float64{a, b} {
		if x < 0 {
			x = -x
		}
		if x > m {
			m = x
		}
	}
	return d <= 1e-7*m
}

// SameEvent compares two events up to rounding.
func SameEvent(a, b lang.Event) bool {
	return a.Track == b.Track && a.Note == b.Note && Close(a.Offset, b.Offset) && Close(a.Dur, b.Dur) &&
		Close(a.Audible, b.Audible) && Close(a.Vol, b.Vol) && Close(a.TVol, b.TVol) && Close(a.Pan, b.Pan)
}

// Show writes an event.
func Show(e lang.Event) string {
	return fmt.Sprintf("track %d note %d at %.4f for %.4f (sounding %.4f) vol %.3f tvol %.3f pan %.3f",
		e.Track, e.Note, e.Offset, e.Dur, e.Audible, e.Vol, e.TVol, e.Pan)
}

// Diff compares two lists of events as multisets, up to rounding. It returns
// "" when they are the same.
func Diff(want, got []lang.Event) string {
	same := len(want) == len(got)
	if same {
		for i := range want {
			if !SameEvent(want[i], got[i]) {
				same = false
				break
			}
		}
		if same {
			return ""
		}
	}
	key := func(e lang.Event) [2]int { return [2]int{e.Track, e.Note} }
	byKey := map[[2]int][]lang.Event{}
	for _, e := range got {
		byKey[key(e)] = append(byKey[key(e)], e)
	}
	var missing []lang.Event
	for _, w := range want {
		l := byKey[key(w)]
		found := -1
		for i, g := range l {
			if SameEvent(w, g) {
				found = i
				break
			}
		}
		if found < 0 {
			missing = append(missing, w)
			continue
		}
		byKey[key(w)] = append(l[:found:found], l[found+1:]...)
	}
	var extra []lang.Event
	for _, l := range byKey {
		extra = append(extra, l...)
	}
	if len(missing) == 0 && len(extra) == 0 {
		return ""
	}
	less := func(l []lang.Event) func(i, j int) bool {
		return func(i, j int) bool {
			if l[i].Offset != l[j].Offset {
				return l[i].Offset < l[j].Offset
			}
			return l[i].Note < l[j].Note
		}
	}
	sort.Slice(missing, less(missing))
	sort.Slice(extra, less(extra))
	s := fmt.Sprintf("%d events expected, %d seen", len(want), len(got))
	for i, e := range missing {
		if i == 3 {
			break
		}
		s += "\n  missing " + Show(e)
	}
	for i, e := range extra {
		if i == 3 {
			break
		}
		s += "\n  extra   " + Show(e)
	}
	return s
}

// Plain strips the channels.
func Plain(es []Ev) []lang.Event {
	out := make([]lang.Event, len(es))
	for i, e := range es {
		out[i] = e.Event
	}
	return out
}
