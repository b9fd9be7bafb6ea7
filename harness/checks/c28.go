package checks

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"alda.io/client/model"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

func oneOf[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// relax writes an S-expression with other white space and comments between its
// tokens, and quotes in their long form.
func relax(r *rand.Rand, text string) string {
	var b strings.Builder
	gap := func(need bool) {
		switch k := r.Intn(12); {
		case k == 0:
			b.WriteString("\n  ")
		case k == 1:
			b.WriteString("\t")
		case k == 2:
			b.WriteString(" # (vol 1) ' \"\n")
		case k < 5 || need:
			b.WriteString(" ")
		}
	}
	inStr := false
	for i := 0; i < len(text); i++ {
		c := text[i]
		if inStr {
			b.WriteByte(c)
			inStr = c != '"'
			continue
		}
		switch c {
		case '"':
			inStr = true
			b.WriteByte(c)
		case ' ':
			gap(true)
		case '(':
			b.WriteByte(c)
			gap(false)
		case ')':
			gap(false)
			b.WriteByte(c)
		case '\'':
			if r.Intn(4) > 0 {
				b.WriteByte(c)
				break
			}
			// 'x is (quote x)
			j, depth := i+1, 0
			for ; j < len(text); j++ {
				if text[j] == '(' {
					depth++
				}
				if text[j] == ')' {
					if depth == 0 {
						break
					}
					if depth--; depth == 0 {
						j++
						break
					}
				}
				if text[j] == ' ' && depth == 0 {
					break
				}
			}
			b.WriteString("(quote " + text[i+1:j] + ")")
			i = j - 1
		default:
			b.WriteByte(c)
		}
	}
	return b.String()
}

// lispLen is a random note length: text and value in beats.
func lispLen(r *rand.Rand) (text string, beats float64, plain bool) {
	n := oneOf(r, "1", "2", "4", "8", "16", "3", "6", "12", "0.5", "1.5", "32", "5")
	d := oneOf(r, 0, 0, 0, 1, 2)
	v, _ := strconv.ParseFloat(n, 64)
	return n + strings.Repeat(".", d), 4 / v * (2 - math.Pow(2, -float64(d))), d == 0
}

func lispNum(r *rand.Rand, lo, hi int) (string, float64) {
	n := lo + r.Intn(hi-lo+1)
	if r.Intn(4) > 0 || n == hi {
		return strconv.Itoa(n), float64(n)
	}
	s := fmt.Sprintf("%d.%d", n, 1+r.Intn(99))
	if n < 0 {
		s = strconv.Itoa(n)
	}
	v, _ := strconv.ParseFloat(s, 64)
	return s, v
}

// lispCall makes a valid call and what it means.
func lispCall(r *rand.Rand, g *lang.Gen) (text string, means lang.Node, sig string) {
	attr := func(kind string, num float64, fns []string, args, sg string) (string, lang.Node, string) {
		a := lang.Attr{Kind: kind, Fn: fns[r.Intn(len(fns))], Args: args, Num: num, Global: r.Intn(4) == 0}
		return lang.AttrText(a), a, fmt.Sprintf("%s%s(%s)", a.Fn, map[bool]string{true: "!"}[a.Global], sg)
	}
	lens := func() (string, float64) {
		t, b, plain := lispLen(r)
		if plain && r.Intn(2) == 0 {
			return t, b
		}
		if r.Intn(3) == 0 {
			t2, b2, _ := lispLen(r)
			return `"` + t + "~" + t2 + `"`, b + b2
		}
		return `"` + t + `"`, b
	}
	kindOfLen := func(t string) string { return map[bool]string{true: "string", false: "number"}[t[0] == '"'] }
	switch r.Intn(17) {
	case 0:
		t, v := lispNum(r, 20, 300)
		return attr("tempo", v, []string{"tempo"}, t, "number")
	case 1:
		n, b := lens()
		t, v := lispNum(r, 20, 300)
		return attr("tempo", b*v, []string{"tempo"}, n+" "+t, kindOfLen(n)+" number")
	case 2:
		a, ab := lens()
		b, bb := lens()
		return attr("metmod", bb/ab, []string{"metric-modulation"}, a+" "+b, kindOfLen(a)+" "+kindOfLen(b))
	case 3:
		t, v := lispNum(r, 0, 150)
		return attr("quant", v/100, []string{"quantization", "quantize", "quant"}, t, "number")
	case 4:
		t, v := lispNum(r, 0, 100)
		return attr("vol", v/100, []string{"volume", "vol"}, t, "number")
	case 5:
		t, v := lispNum(r, 0, 100)
		return attr("tvol", v/100, []string{"track-volume", "track-vol"}, t, "number")
	case 6:
		t, v := lispNum(r, 0, 100)
		return attr("pan", v/100, []string{"panning", "pan"}, t, "number")
	case 7:
		names := []string{}
		for n := range lang.Dynamics {
			names = append(names, n)
		}
		sortStrings(names)
		n := names[r.Intn(len(names))]
		return attr("dyn", lang.Dynamics[n], []string{n}, "", "")
	case 8:
		n := 1 + r.Intn(7)
		return attr("oct", float64(n), []string{"octave"}, strconv.Itoa(n), "number")
	case 9:
		if r.Intn(2) == 0 {
			return attr("octup", 0, []string{"octave"}, "'up", "symbol")
		}
		return attr("octdown", 0, []string{"octave"}, "'down", "symbol")
	case 10:
		t, v := lispNum(r, 0, 6)
		if v == 0 {
			t, v = "0.5", 0.5
		}
		x, _, sg := attr("dur", 0, []string{"set-duration"}, t, "number")
		return x, lang.Attr{Kind: "dur", Dur: &lang.Dur{Comps: []lang.Comp{{Kind: 'b', Val: v}}}, Fn: "set-duration", Args: t, Global: strings.Contains(sg, "!")}, sg
	case 11:
		t, v := lispNum(r, 1, 2000)
		x, _, sg := attr("dur", 0, []string{"set-duration-ms"}, t, "number")
		return x, lang.Attr{Kind: "dur", Dur: &lang.Dur{Comps: []lang.Comp{{Kind: 'm', Val: v}}}, Fn: "set-duration-ms", Args: t, Global: strings.Contains(sg, "!")}, sg
	case 12:
		t, b := lens()
		x, _, sg := attr("dur", 0, []string{"set-note-length"}, t, kindOfLen(t))
		return x, lang.Attr{Kind: "dur", Dur: &lang.Dur{Comps: []lang.Comp{{Kind: 'b', Val: b}}}, Fn: "set-note-length", Args: t, Global: strings.Contains(sg, "!")}, sg
	case 13:
		k := g.Key()
		k.Global = r.Intn(4) == 0
		sg := "list"
		if k.Args[0] == '"' {
			sg = "string"
		}
		return lang.AttrText(k), k, fmt.Sprintf("%s%s(%s)", k.Fn, map[bool]string{true: "!"}[k.Global], sg)
	case 14:
		n := r.Intn(37) - 18
		return attr("transpose", float64(n), []string{"transposition", "transpose"}, strconv.Itoa(n), "number")
	case 15:
		t, v := lispNum(r, 400, 480)
		return attr("refpitch", v, []string{"reference-pitch", "tuning-constant"}, t, "number")
	}
	// Notes and rests.
	var d *lang.Dur
	dt, ds := "", ""
	if r.Intn(3) > 0 {
		d = &lang.Dur{}
		one := func() string {
			switch r.Intn(3) {
			case 0:
				t, v := lispNum(r, 1, 1500)
				d.Comps = append(d.Comps, lang.Comp{Kind: 'm', Val: v})
				return "(ms " + t + ")"
			default:
				t, b, plain := lispLen(r)
				d.Comps = append(d.Comps, lang.Comp{Kind: 'b', Val: b})
				if plain && r.Intn(2) == 0 {
					return "(note-length " + t + ")"
				}
				return `(note-length "` + t + `")`
			}
		}
		if r.Intn(3) > 0 {
			dt = " " + one()
			ds = " " + strings.Fields(dt[2:])[0]
		} else {
			ts := []string{}
			for k := 1 + r.Intn(3); k > 0; k-- {
				ts = append(ts, one())
			}
			dt = " (duration " + strings.Join(ts, " ") + ")"
			ds = fmt.Sprintf(" duration of %d", len(ts))
		}
	}
	if r.Intn(4) == 0 {
		return "(pause" + dt + ")", lang.Rest{Dur: d}, "pause(" + ds + ")"
	}
	n := lang.Note{Dur: d}
	p, ps := "", "pitch"
	if r.Intn(3) == 0 {
		n.IsMidi, n.Midi = true, r.Intn(128)
		p, ps = fmt.Sprintf("(midi-note %d)", n.Midi), "midi-note"
	} else {
		n.Letter = "abcdefg"[r.Intn(7)]
		p = "(pitch '(" + string(rune(n.Letter))
		for k := r.Intn(3); k > 0; k-- {
			a := r.Intn(3) - 1
			n.Acc = append(n.Acc, a)
			p += " " + map[int]string{-1: "flat", 0: "natural", 1: "sharp"}[a]
		}
		p += "))"
	}
	t := "(note " + p + dt + ")"
	sg := "note(" + ps + ds + ")"
	if r.Intn(4) == 0 {
		n.Slur = true
		t = "(slur " + t + ")"
		sg = "slur(" + sg + ")"
	}
	return t, n, sg
}

// badCall makes a call that is wrong, and says how.
func badCall(r *rand.Rand) (text, how string) {
	numFns := map[string]string{ // what a single number argument must be
		"tempo": "positive", "quantization": "nonneg", "quantize": "nonneg", "quant": "nonneg",
		"volume": "percent", "vol": "percent", "track-volume": "percent", "track-vol": "percent", "panning": "percent", "pan": "percent",
		"set-duration": "positive", "set-duration-ms": "positive", "set-note-length": "positive",
		"octave": "integer", "transposition": "integer", "transpose": "integer", "reference-pitch": "positive", "tuning-constant": "positive",
		"midi-channel": "channel", "ms": "positive", "note-length": "positive", "midi-note": "integer",
	}
	names := []string{}
	for n := range numFns {
		names = append(names, n)
	}
	sortStrings(names)
	inner := map[string]string{"ms": "(note (pitch '(c)) %s)", "note-length": "(pause %s)", "midi-note": "(note %s)"}
	wrap := func(fn, call string) string {
		if w, ok := inner[fn]; ok && r.Intn(2) == 0 {
			return fmt.Sprintf(w, call)
		}
		return call
	}
	bang := func(fn string) string {
		if _, ok := inner[fn]; ok || r.Intn(4) > 0 {
			return fn
		}
		return fn + "!"
	}
	num := func(kind string) string {
		switch kind {
		case "positive":
			return oneOf(r, "0", "-1", "-0.5", "-120", "0.0")
		case "nonneg":
			return oneOf(r, "-1", "-0.5", "-90")
		case "percent":
			return oneOf(r, "-1", "101", "100.5", "-0.1", "1000", "127")
		case "integer":
			return oneOf(r, "2.5", "0.1", "-1.5", "60.25", "3000000000")
		}
		return oneOf(r, "-1", "16", "3.5", "100")
	}
	value := func() string {
		return oneOf(r, "'(1 2)", "(ms 100)", "(pitch '(c))", "(midi-note 60)", "(note (pitch '(c)))", "(list 1)", "(vol 50)", "vol", "'()")
	}
	fn := names[r.Intn(len(names))]
	switch r.Intn(11) {
	case 0:
		if r.Intn(4) == 0 { // one of two arguments
			f := oneOf(r, "tempo", "metric-modulation", "metric-modulation")
			good := oneOf(r, "4", "2", "60", `"4."`, `"1~8"`)
			if r.Intn(2) == 0 {
				return "(" + bang(f) + " " + good + " " + num("positive") + ")", "out of range"
			}
			return "(" + bang(f) + " " + num("positive") + " " + oneOf(r, "4", "60", "1.5") + ")", "out of range"
		}
		return wrap(fn, "("+bang(fn)+" "+num(numFns[fn])+")"), "out of range"
	case 1:
		return wrap(fn, "("+bang(fn)+")"), "no argument"
	case 2:
		n := oneOf(r, "1 2 3", "4 4 4 4")
		if fn != "tempo" && r.Intn(2) == 0 {
			n = "1 2"
		}
		return wrap(fn, "("+bang(fn)+" "+n+")"), "too many arguments"
	case 3:
		v := value()
		if fn != "set-note-length" && fn != "note-length" && r.Intn(3) == 0 {
			v = oneOf(r, `"4"`, `""`, `"foo"`)
		}
		if fn != "octave" && r.Intn(4) == 0 {
			v = oneOf(r, "'up", "'foo")
		}
		return wrap(fn, "("+bang(fn)+" "+v+")"), "wrong type"
	case 4:
		return oneOf(r, "(octave 'sideways)", "(octave! 'upp)", `(octave "up")`, "(octave up)", "(octave '(up))"), "wrong octave"
	case 5:
		k := oneOf(r, `"h+"`, `"f"`, `"fx"`, `"f+ c"`, `"+f"`, `"F+"`, `"f+c+"`, `"b_"`, "'(c)", "'()", "'(h major)", "'(c foo)", "'(c sharpp major)", "'(f (sharp) c)", "'(h (flat))",
			"'(bb (flat))", "'(b (flatt))", "'(b (flat) (e flat))", "'(c major flat)", "'(c major minor)", "'(1 major)", "'(cc major)", "'((c) major)", "'(c (1))", `'("c" major)`, "3", "'major", "(key-sig \"f+\")")
		return "(" + oneOf(r, "key-sig", "key-signature", "key-sig!", "key-signature!") + " " + k + ")", "wrong key signature"
	case 6:
		l := oneOf(r, `"x"`, `"0"`, `"4x"`, `""`, `"4..x"`, `".4"`, `"4~"`, `"~4"`, `"4 4"`, `"-4"`, `"4~~4"`, `"1.x"`, `"0.0"`, `"4~x"`, `"c4"`, `"4ms"`)
		return oneOf(r, "(set-note-length "+l+")", "(note (pitch '(c)) (note-length "+l+"))", "(tempo "+l+" 60)", "(metric-modulation "+l+" 4)", "(metric-modulation 4 "+l+")", "(metric-modulation! \"2.\" "+l+")"), "malformed note length"
	case 7:
		return oneOf(r, "(note (pitch '(h)))", "(note (pitch '(c sharpish)))", "(note (pitch '()))", "(note (pitch '(cc)))", "(note (pitch '(1)))", "(note (pitch '(c 1)))",
			`(note (pitch "c"))`, "(note (pitch 'c))", "(note 60)", "(note)", "(note (ms 100))", "(note (pitch '(c)) 4)", `(note (pitch '(c)) "4")`, "(note (pitch '(c)) (pitch '(d)))",
			"(note (pitch '(c)) (ms 100) (ms 100))", "(note (pitch '(sharp c)))", "(note '(c))", "(note (pitch '((c))))", "(note (note-length 4) (pitch '(c)))"), "wrong note"
	case 8:
		return oneOf(r, "(slur (pause))", "(slur 3)", "(slur)", "(slur (vol 50))", "(slur (note (pitch '(c))) (note (pitch '(d))))", "(slur '(c))", "(pause 4)", `(pause "4")`, "(pause (ms 100) (ms 100))", "(pause (pitch '(c)))",
			"(note (pitch '(c)) (duration 4))", "(note (pitch '(c)) (duration (ms 100) 4))", "(pause (duration (pitch '(c))))", "(quote)", "(quote a b)", "()", "(mf 3)", "(ff! 1)", `(pp "x")`, "(f (vol 3))"), "wrong rest, slur, duration or marking"
	case 9:
		return oneOf(r, "(volum 50)", "(VOL 50)", "(tempo? 120)", "(vol!! 3)", "(note! (pitch '(c)))", "(pause!)", "(nosuch)", "(nosuch 1 (vol 3))", "(vol (nosuch 3))", "(vol nosuch)", "(+ 1 2)",
			"(mmf)", "(fffffff)", "(ppppppp)", "(metric-modulation)", "(chord (note (pitch '(c))))", "(def x 1)", "(ms! 4)", "(Quant 90)", "(key 'c)", "(setnotelength 4)", "(quotes x)"), "unknown name"
	}
	return oneOf(r, "(4)", "(4 5)", `("vol" 50)`, "('vol 50)", "((vol 50))", "((vol 50) 4)", "((quote vol) 50)", "(-1)", "((list vol 50))", "('(vol 50))", "((note (pitch '(c))))", "((ms 4))"), "not a function"
}

// span is the place of an expression in a text, as line and column ranges.
func span(text string, from, to int) (l1, c1, l2, c2 int) {
	at := func(i int) (int, int) {
		return 1 + strings.Count(text[:i], "\n"), i - strings.LastIndex(text[:i], "\n")
	}
	l1, c1 = at(from)
	l2, c2 = at(to)
	return
}

func lispValid(c *fw.Ctx, i int) {
	r := c.R
	g := &lang.Gen{R: r, F: lang.All()}
	n := func(l string, d string) lang.Node {
		x := lang.Note{Letter: l[0]}
		if d != "" {
			x.Dur = &lang.Dur{Comps: []lang.Comp{lang.NL(d, 0)}}
		}
		return x
	}
	probe := func() []lang.Node {
		all := []lang.Node{n("c", ""), n("f", "8"), lang.Note{Letter: 'b', Acc: []int{-1}}, lang.Rest{}, n("e", ""),
			lang.Chord{Events: []lang.Node{n("a", ""), n("d", "2")}}, lang.Cram{Events: []lang.Node{n("g", ""), n("c", "")}}, lang.OctUp{}, lang.OctDown{}}
		out := []lang.Node{}
		for k := 1 + r.Intn(4); k > 0; k-- {
			out = append(out, all[r.Intn(len(all))])
		}
		return out
	}
	s := lang.Score{lang.Part{Names: []string{oneOf(r, "piano", "violin", "percussion")}}}
	var sigs []string
	texts := map[string]string{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		t, m, sig := lispCall(r, g)
		sigs = append(sigs, sig)
		tag := fmt.Sprintf("\x01%d\x02", len(sigs))
		texts[tag] = relax(r, t)
		node := m
		put := lang.Raw{Text: tag}
		_ = put
		s = append(s, callNode{node, tag})
		s = append(s, probe()...)
	}
	if r.Intn(3) == 0 {
		s = append(s, lang.Part{Names: []string{"flute"}})
		s = append(s, probe()...)
	}
	// The reference sees the meaning, the code under test the text.
	meaning, written := lang.Score{}, lang.Score{}
	for _, x := range s {
		if k, ok := x.(callNode); ok {
			meaning = append(meaning, k.means)
			written = append(written, lang.Raw{Text: k.tag})
			continue
		}
		meaning, written = append(meaning, x), append(written, x)
	}
	text := lang.Plain(written)
	for tag, t := range texts {
		text = strings.Replace(text, tag, t, 1)
	}
	ref, rerr := lang.Interpret(meaning)
	if rerr == lang.ErrAmbiguous {
		c.Count("skipped: ambiguous", 1)
		return
	}
	c.Eval()
	res := sut.Compile(text)
	for _, sg := range sigs {
		c.Count("valid: "+sg, 1)
	}
	switch {
	case res.Stage == sut.Panicked:
		c.Fail(text, "crash: %s", res.Panic)
	case rerr != nil && res.Stage == sut.OK:
		c.Fail(text, "accepted, but it should be refused: %v", rerr)
	case rerr != nil:
	case res.Stage != sut.OK:
		c.Fail(text, "refused: %v", res.Err)
	default:
		evs, err := sut.Events(res.Score)
		if err != nil {
			c.Fail(text, "%v", err)
			return
		}
		if d := sut.Diff(ref.Events, sut.Plain(evs)); d != "" {
			c.Fail(text, "%s", d)
			return
		}
		c.Count("events compared", len(evs))
		if len(evs) > 1 {
			c.Nontrivial(text)
			if i%50 == 0 {
				c.Sample(map[string]interface{}{"text": text, "events": len(evs)})
			}
		}
	}
}

type callNode struct {
	means lang.Node
	tag   string
}

func lispInvalid(c *fw.Ctx, i int) {
	r := c.R
	call, how := badCall(r)
	if strings.HasPrefix(call, "((quote") || !strings.Contains(call, "quote") {
		call = relax(r, call)
	}
	g := &lang.Gen{R: r, F: profile(lang.All(), func(f *lang.Features) { f.Sections, f.Len, f.Globals = 1, 4, false })}
	pre := lang.Plain(g.Valid())
	if r := sut.Compile(pre); r.Stage != sut.OK {
		return
	}
	pre += "xylophone:\n o4 c d4\n"
	tmpl, ctx := "%s", ""
	switch r.Intn(9) {
	case 0:
		tmpl, ctx = "[c %s d]", "sequence"
	case 1:
		tmpl, ctx = "{c %s d}2", "cram"
	case 2:
		tmpl, ctx = "[c %s]*2", "repeat"
	case 3:
		tmpl, ctx = "V1: c %s d\n V0:", "voice"
	case 4:
		tmpl, ctx = "c / %s e", "chord"
	case 5:
		if !strings.Contains(call, "\n") { // a definition ends with its line
			tmpl, ctx = "someVar = c %s\n", "variable"
		}
	case 6:
		tmpl, ctx = "[c %s '2 d]*2", "ending"
	case 7:
		tmpl, ctx = "xylophone/timpani: c %s d", "group"
	}
	at := strings.Index(tmpl, "%s")
	text := pre + " " + strings.Replace(tmpl, "%s", call, 1) + " e\n"
	from := len(pre) + 1 + at
	c.Eval()
	res := sut.Compile(text)
	c.Count("invalid: "+how, 1)
	if ctx != "" {
		c.Count("invalid inside: "+ctx, 1)
	}
	switch res.Stage {
	case sut.OK:
		c.Fail(text, "%s is accepted (%s)", call, how)
		return
	case sut.Panicked:
		c.Fail(text, "crash: %s", res.Panic)
		return
	}
	src, ok := sut.Source(res.Err)
	if !ok {
		c.Fail(text, "the refusal of %s has no place: %v", call, res.Err)
		return
	}
	l1, c1, l2, c2 := span(text, from, from+len(call))
	if src.Line < l1 || src.Line == l1 && src.Column < c1 || src.Line > l2 || src.Line == l2 && src.Column > c2 {
		c.Fail(text, "the refusal of %s at %d:%d to %d:%d is located at %d:%d: %v", call, l1, c1, l2, c2, src.Line, src.Column, res.Err)
		return
	}
	c.Count("places checked", 1)
	if ctx != "" || res.Score == nil {
		return
	}
	// What was entered before is as it was.
	before := sut.Compile(pre)
	if res.Stage != sut.ScoreError {
		return
	}
	more, err := updatesOf("c d8 {e f} c/e")
	if err != nil {
		return
	}
	e1 := before.Score.Update(more...)
	e2 := res.Score.Update(more...)
	if (e1 == nil) != (e2 == nil) {
		c.Fail(text, "after the refusal of %s the score goes on differently: %v, without it %v", call, e2, e1)
		return
	}
	a, _ := sut.Events(before.Score)
	b, _ := sut.Events(res.Score)
	if d := sut.Diff(sut.Plain(a), sut.Plain(b)); d != "" {
		c.Fail(text, "after the refusal of %s the score goes on differently: %s", call, d)
		return
	}
	c.Count("continued after a refusal", 1)
	c.Nontrivial(text)
}

func updatesOf(text string) ([]model.ScoreUpdate, error) {
	r := sut.Compile("piano: " + text)
	if r.Updates == nil {
		return nil, r.Err
	}
	return r.Updates[1:], nil
}

func init() {
	fw.Register(&fw.Check{
		ID: "C28", Quick: 60000, Thorough: 3000000, MinNontrivialPct: 20,
		Rule: "calls of every documented function, signature, name and abbreviation (local and global) with random arguments, laid out with random white space, line breaks, comments and long-form quotes, followed by probing notes; the reference is given the meaning of each call and the events must agree. And wrong calls (out of range, arity, type, unknown names, malformed note lengths, key signatures, pitches, not a function), also inside sequences, crams, chords, voices, variables, repeats and endings: they must be refused at a place inside the expression, and the score must go on as without them. Non-trivial: at least 2 events compared, or a score continued after a refusal.",
		Case: func(c *fw.Ctx, i int) {
			if i%2 == 0 {
				lispValid(c, i)
			} else {
				lispInvalid(c, i)
			}
		},
	})
}
