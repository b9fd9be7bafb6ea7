package checks

import (
	"math"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

func langCheck(id string, quick, thorough int, rule string, feats func(i int) lang.Features, nontrivial func(*lang.Ref) bool, more func(c *fw.Ctx, s lang.Score, ref *lang.Ref, res sut.Result)) *fw.Check {
	k := &fw.Check{ID: id, Quick: quick, Thorough: thorough, Rule: rule, MinNontrivialPct: 10}
	k.Case = func(c *fw.Ctx, i int) {
		g := &lang.Gen{R: c.R, F: feats(i)}
		s := lang.Score(nil)
		if g.F.Apart {
			s = g.Apart()
		} else {
			s = g.Valid()
		}
		l := lang.Layout{}
		if i%3 == 0 {
			l = lang.Layout{Rng: c.R, Tight: true}
		}
		ref, res, ok := differential(c, s, l, nontrivial)
		if ok && more != nil {
			more(c, s, ref, res)
		}
	}
	fw.Register(k)
	return k
}

// twin checks that another text plays the same events.
func twin(c *fw.Ctx, what string, res sut.Result, text, other string) {
	if res.Stage != sut.OK {
		return
	}
	o := sut.Compile(other)
	c.Count("twins compared: "+what, 1)
	if o.Stage != sut.OK {
		c.Fail(text, "%s form is refused: %v\n%s", what, o.Err, other)
		return
	}
	a, err := sut.Events(res.Score)
	b, err2 := sut.Events(o.Score)
	if err != nil || err2 != nil {
		c.Fail(text, "%v %v", err, err2)
		return
	}
	if d := sut.Diff(sut.Plain(a), sut.Plain(b)); d != "" {
		c.Fail(text, "%s form plays something else: %s\n%s", what, d, other)
	}
}

func has(r *lang.Ref, n int, keys ...string) bool {
	if len(r.Events) < n {
		return false
	}
	for _, k := range keys {
		if r.Stats[k] > 0 {
			return true
		}
	}
	return len(keys) == 0
}

func init() {
	langCheck("C02", 12000, 400000, "random scores of notes with accidentals under random keys, octaves and transpositions (a third of them printed with irregular spacing); each emitted MIDI note is compared with the formula. Non-trivial: at least 4 notes sounded and a key, transposition or octave change was in force.",
		func(i int) lang.Features {
			f := basic()
			f.Keys, f.Attrs, f.Globals, f.Chords, f.Voices, f.Lisp, f.Vars = true, true, true, true, i%4 == 0, true, i%3 == 0
			f.WideOct = i%2 == 0
			f.MoreAttrs = 15
			f.Len = 12
			f.MaxParts = 2 + i%3
			f.Groups, f.Sections = i%3 == 1, 2+i%3
			return f
		}, func(r *lang.Ref) bool {
			return has(r, 4, "attr key", "attr transpose", "attr oct", "attr octup", "attr octdown")
		}, nil)
	langCheck("C03", 12000, 400000, "random note/rest sequences with every kind of duration (note lengths with dots and fractions, ms, s, ties across barlines), tempos, metric modulations, quantization and slurs. Non-trivial: at least 5 notes sounded.",
		func(i int) lang.Features {
			f := basic()
			f.MsDur, f.Lisp, f.TempoAttrs, f.Quant0, f.Attrs = true, true, true, true, true
			f.ExactTempo = i%4 > 0
			f.MaxParts = 1 + i%3
			f.Len = 14
			f.Groups, f.Sections = i%4 == 1, 2+i%3
			f.MoreAttrs = i % 3 * 10
			f.Odd = i % 5 / 4 * 8
			return f
		}, func(r *lang.Ref) bool { return has(r, 5) }, nil)
	langCheck("C04", 12000, 400000, "random scores of chords and crams nested up to depth 4, with rests, octave changes, attribute and duration changes inside. Non-trivial: at least 4 notes sounded and a chord or cram was played.",
		func(i int) lang.Features {
			f := basic()
			f.Chords, f.Crams, f.Attrs, f.MsDur, f.Lisp = true, true, true, true, true
			f.TempoAttrs = i%2 == 0
			f.Repeats = i%4 == 0
			f.Vars = i%5 == 0
			f.Depth = 1 + i%4
			f.Groups, f.MaxParts, f.Sections = i%3 == 0, 3, 3+i%3
			if i%8 == 2 {
				f.Globals, f.MoreAttrs = true, 15
			}
			return f
		}, func(r *lang.Ref) bool { return has(r, 4, "chord", "cram") }, nil)
	langCheck("C05", 12000, 400000, "random scores with nested repeats and endings of notes, chords, sequences, crams, variables, in parts and groups of parts; the events are compared with the reference and with the same score written out by hand. Non-trivial: at least 4 notes and a repeat.",
		func(i int) lang.Features {
			f := basic()
			f.Repeats, f.OnReps, f.ZeroRep = true, true, true
			f.Chords, f.Crams, f.Vars, f.Groups, f.Voices = i%2 == 0, i%3 == 0, i%4 < 2, true, i%5 == 0
			f.Depth = 1 + i%4
			f.Attrs = i%3 == 1
			f.Sections = 2 + i%3
			return f
		}, func(r *lang.Ref) bool { return has(r, 4, "repeat") }, func(c *fw.Ctx, s lang.Score, ref *lang.Ref, res sut.Result) {
			if u, ok := lang.Unroll(s, 3000); ok {
				twin(c, "written-out", res, lang.Plain(s), lang.Plain(u))
			}
		})
	langCheck("C06", 12000, 400000, "random scores with chains of variable definitions, redefinitions and references in several parts; events compared with the reference and with the score where every reference is replaced by its definition. Non-trivial: at least 4 notes and a variable was referred to.",
		func(i int) lang.Features {
			f := basic()
			f.Vars, f.Attrs, f.Keys, f.Chords = true, true, true, true
			f.Repeats, f.OnReps, f.Crams, f.Markers, f.Groups = i%2 == 0, i%4 == 0, i%3 == 0, i%5 == 0, i%2 == 1
			f.Errors = i%7 == 0
			f.MoreVars = 25
			f.Sections, f.MaxParts = 2+i%4, 2+i%2
			return f
		}, func(r *lang.Ref) bool { return has(r, 4, "variable reference") }, func(c *fw.Ctx, s lang.Score, ref *lang.Ref, res sut.Result) {
			if u, ok := lang.InlineVars(s); ok {
				twin(c, "inlined", res, lang.Plain(s), lang.Plain(u))
			}
		})
	langCheck("C07", 12000, 400000, "random scores with voice groups (unordered, repeated and skipped voice numbers, voices of different lengths, groups inside repeats, groups ended by V0 or by the next part), one or several instruments. Non-trivial: at least 4 notes and a voice marker.",
		func(i int) lang.Features {
			f := basic()
			f.Voices, f.Attrs, f.Chords = true, true, true
			f.Repeats, f.Crams, f.Vars, f.Markers, f.Globals = i%2 == 0, i%3 == 0, i%4 == 0, i%5 == 0, i%3 == 1
			f.Groups = i%2 == 1
			if f.Groups {
				f.Sections, f.MaxParts = 6, 3
			}
			f.MoreVoices = 20
			return f
		}, func(r *lang.Ref) bool { return has(r, 4, "voice marker") }, nil)
	langCheck("C08", 16000, 500000, "random scores of 2 to 5 instruments full of local and global attribute changes placed before, between and after the instruments, with jumps to markers, chords and crams on the way. Non-trivial: at least 4 notes and a global change was applied.",
		func(i int) lang.Features {
			f := basic()
			f.Attrs, f.Globals, f.Keys, f.TempoAttrs, f.Quant0 = true, true, true, i%2 == 0, true
			f.Chords, f.Crams, f.Repeats, f.Voices, f.Markers = i%2 == 1, i%3 == 0, i%4 == 0, i%5 == 0, i%2 == 0
			f.Groups = i%3 == 2
			f.MaxParts, f.Sections, f.Len, f.MoreAttrs = 4, 6, 7, 25
			return f
		}, func(r *lang.Ref) bool {
			for k := range r.Stats {
				if len(k) > 14 && k[:14] == "global applied" {
					return len(r.Events) >= 4
				}
			}
			return false
		}, nil)
	langCheck("C10", 12000, 400000, "random scores of several instruments with markers placed, moved and jumped to, forwards and backwards, through variables, voices and repeats; undefined and unclear markers included. Non-trivial: at least 3 notes and a jump.",
		func(i int) lang.Features {
			f := basic()
			f.Markers, f.MoreMarkers = true, 30
			f.Vars, f.Voices, f.Repeats, f.Chords, f.Crams, f.Groups, f.Globals = i%3 == 0, i%4 == 0, i%3 == 1, true, i%5 == 0, i%2 == 0, i%4 == 1
			f.Attrs = i%4 == 1
			f.Errors = i%6 == 0
			f.MaxParts, f.Sections = 3, 4
			f.Apart = i%5 == 2
			return f
		}, func(r *lang.Ref) bool { return has(r, 3, "jump") }, nil)
	k := langCheck("C11", 16000, 600000, "random scores mixing every language feature (aliases, groups, voices, variables, repeats, endings, crams, chords, markers, local and global attributes, S-expression notes), compared event by event with an independent reference interpreter. Non-trivial: at least 5 notes.",
		func(i int) lang.Features {
			f := lang.All()
			if i%3 == 1 {
				f.Len, f.Sections = 12, 6
			}
			if i%7 == 0 {
				f.Errors = true
			}
			f.ExactTempo = i%5 > 0
			f.Odd = i % 6 / 5 * 5
			return f
		}, func(r *lang.Ref) bool { return has(r, 5) }, func(c *fw.Ctx, s lang.Score, ref *lang.Ref, res sut.Result) {
			if res.Stage != sut.OK {
				return
			}
			evs, _ := sut.Events(res.Score)
			for _, e := range evs {
				if !(e.Offset >= 0 && e.Dur >= 0 && e.Audible > 0 && e.Offset < math.MaxFloat64 && e.Dur < math.MaxFloat64) {
					c.Fail(lang.Plain(s), "impossible event %s", sut.Show(e.Event))
				}
			}
			// Parts, aliases, markers and current positions.
			if d := structure(ref, res.Score); d != "" {
				c.Fail(lang.Plain(s), "%s", d)
			}
		})
	_ = k
	langCheck("C17", 12000, 400000, "random scores printed with two random layouts (spaces, line breaks, CRLF, comments, barlines between events) and plainly; all must play the same events. Non-trivial: at least 4 notes and the texts differ.",
		func(i int) lang.Features {
			f := lang.All()
			f.Len = 9
			f.Odd = i % 4 / 3 * 5
			return f
		}, func(r *lang.Ref) bool { return has(r, 4) }, func(c *fw.Ctx, s lang.Score, ref *lang.Ref, res sut.Result) {
			for j := 0; j < 2; j++ {
				o := lang.Print(s, lang.Layout{Rng: c.R, Bars: true, Comments: true, Tight: true})
				twin(c, "re-laid-out", res, lang.Plain(s), o)
			}
		})
}
