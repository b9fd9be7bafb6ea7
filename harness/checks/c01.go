package checks

import (
	"bytes"
	gojson "encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"
	"verif/fw"
	"verif/lang"
	"verif/sut"
)

var soup = []string{
	"c", "d", "e", "f", "g", "a", "b", "r", "c+", "d-", "e_", "c4", "g8.", "a2~2", "b1~", "r4", "c500ms", "d2s", "c~", "o4", "o", ">", "<", "|", "/", "{", "}", "[", "]",
	"*2", "*3", "* 4", "*", "'1", "'2,3", "'1-3", "'", "V1:", "V2:", "V0:", "V:", "V", "%m", "@m", "%", "@", "x = ", "x", "foo", "foo =", "piano:", "violin \"v\":", "piano/violin:",
	"v:", "g.v:", ":", "\"", "\"abc\"", "(", ")", "()", "(vol 50)", "(tempo 120)", "(tempo! 90)", "(key-sig \"f+ c+\")", "(key-sig '(g major))", "'(a b)", "(quote a)", "(quote)",
	"(octave 'up)", "(set-duration 2)", "(note (pitch '(c)))", "(pause)", "(list 1 2)", "(chord (note (pitch '(c))) (note (pitch '(e))))", "# comment\n", "#", "\n", "\r\n", " ", "\t", "=", "~", "+", "-", "_",
	".", ",", ";", "!", "?", "0", "1", "00", "1.5", "1.", ".5", "999", "é", "日本", "\u0000", "\u200b", "🎵", "\\", "c/e/g", "c /e", "{c d e}2", "[c d]*2", "[[c '1]*2 d '2]*2", "c0", "c0ms", "r0s", "*0", "o10", "o99", "V99:",
	"(midi-channel 3)", "(midi-channel! 4)", "(panning 200)", "(vol -1)", "(tempo 0)", "(tempo 4 0)", "(quant 0)", "(transpose 200)", "(print 1)", "(up)", "({", "})", "(c)", "([)", "(((((", ")))))", "''''a", "'", "(vol 'x)", "(vol \"x)", "(metric-modulation 4 \"8.\")",
	"(ppp)", "(fff!)", "(barline)", "(slur)", "(duration)", "(note-length \"4..\")", "(note-length 0)", "(ms 0)", "(key-signature \"\")", "(key-signature '())", "(key-signature '(a))", "(key-signature \"h+\")", "(octave 99)", "(octave 'sideways)", "-1", "(vol -)", "(vol 1e5)", "(vol 1.2.3)", "(1 2)", "(\"vol\" 3)", "(vol (vol 3))",
}

var repeatRe = regexp.MustCompile(`\*\s*(\d+)`)
var refRe = regexp.MustCompile(`[A-Za-z]{2,}`)

// tame bounds the size of the score a text denotes.
func tame(s string) string {
	prod := 1
	return repeatRe.ReplaceAllStringFunc(s, func(m string) string {
		n, err := strconv.Atoi(repeatRe.FindStringSubmatch(m)[1])
		if err != nil || n > 40 {
			n = 3
			m = "*3"
		}
		if n > 1 {
			if prod*n > 2000 {
				return "*1"
			}
			prod *= n
		}
		return m
	})
}

func mutate(r *rand.Rand, s string) string {
	rs := []rune(s)
	n := 1 + r.Intn(4)
	for i := 0; i < n; i++ {
		if len(rs) == 0 {
			rs = []rune("c")
		}
		a := r.Intn(len(rs))
		b := a + 1 + r.Intn(8)
		if b > len(rs) {
			b = len(rs)
		}
		tok := []rune(soup[r.Intn(len(soup))])
		switch r.Intn(8) {
		case 0: // delete
			rs = append(append([]rune{}, rs[:a]...), rs[b:]...)
		case 1, 2: // insert
			rs = append(append(append([]rune{}, rs[:a]...), tok...), rs[a:]...)
		case 3: // replace
			rs = append(append(append([]rune{}, rs[:a]...), tok...), rs[b:]...)
		case 4: // duplicate a chunk elsewhere
			c := r.Intn(len(rs))
			rs = append(append(append([]rune{}, rs[:c]...), rs[a:b]...), rs[c:]...)
		case 5: // truncate
			if r.Intn(3) == 0 {
				rs = rs[:a]
			}
		case 6: // swap chars
			c := r.Intn(len(rs))
			rs[a], rs[c] = rs[c], rs[a]
		case 7: // one random character
			rs[a] = []rune(" \n\t()[]{}/*'\"~|:=%@#<>.0123456789abcdefgrovV+-_!\x00\x7f\u00e9\u4e16")[r.Intn(51)]
		}
	}
	return string(rs)
}

func located(text, file string, err error) string {
	ctx, ok := sut.Source(err)
	if !ok {
		return "the error names no place: " + err.Error()
	}
	if ctx.Filename != file {
		return fmt.Sprintf("the error names file %q instead of %q", ctx.Filename, file)
	}
	ls := lines(text)
	if ctx.Line < 1 || ctx.Line > len(ls) {
		return fmt.Sprintf("the error is at line %d of %d: %v", ctx.Line, len(ls), err)
	}
	n := len([]rune(ls[ctx.Line-1]))
	if ctx.Column < 1 || ctx.Column > n+1 {
		return fmt.Sprintf("the error is at column %d of line %d, which has %d characters: %v", ctx.Column, ctx.Line, n, err)
	}
	if !strings.Contains(err.Error(), fmt.Sprintf("%s:%d:%d", file, ctx.Line, ctx.Column)) {
		return "the message does not show the place: " + err.Error()
	}
	return ""
}

// total runs everything that must be total on a text.
func total(text string) (msg string, stage sut.Stage) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("crash: %v\n%s", x, debug.Stack())
		}
	}()
	res := sut.Compile(text)
	stage = res.Stage
	switch res.Stage {
	case sut.Panicked:
		return "crash: " + res.Panic, stage
	case sut.SyntaxError:
		var a *model.AldaSourceError
		if !errors.As(res.Err, &a) {
			return "syntax error without a place: " + res.Err.Error(), stage
		}
		return located(text, "score.alda", res.Err), stage
	}
	// The tree can be printed whatever the score says.
	tree := res.AST.JSON()
	if !gojson.Valid(tree.Bytes()) || tree.String() == "null" {
		return "the syntax tree is not valid JSON", stage
	}
	parser.HumanReadableAST(tree)
	var out bytes.Buffer
	if err := parser.FormatASTToCode(res.AST, &out); err != nil && out.Len() > 0 {
		return "formatting failed after output was written", stage
	}
	if res.Stage != sut.OK {
		return located(text, "score.alda", res.Err), stage
	}
	js := res.Score.JSON()
	if !gojson.Valid(js.Bytes()) || js.String() == "null" {
		return "the score is not valid JSON: " + js.String(), stage
	}
	for _, u := range res.Updates {
		b := u.JSON()
		if !gojson.Valid(b.Bytes()) || b.String() == "null" {
			return fmt.Sprintf("an event is not valid JSON: %#v", u), stage
		}
	}
	if _, err := parser.GenerateASTFromScoreUpdates(res.Updates); err != nil {
		_ = err // not every event has a syntax tree
	}
	return "", stage
}

func shrinkText(s string, bad func(string) bool, budget int) string {
	rs := []rune(s)
	for size := len(rs) / 2; size >= 1; {
		progress := false
		for a := 0; a+size <= len(rs) && budget > 0; {
			cand := append(append([]rune{}, rs[:a]...), rs[a+size:]...)
			budget--
			if bad(string(cand)) {
				rs = cand
				progress = true
			} else {
				a += size
			}
		}
		if !progress || budget <= 0 {
			size /= 2
		}
		if budget <= 0 {
			break
		}
	}
	return string(rs)
}

func c01Case(c *fw.Ctx, text, kind string) {
	c.Eval()
	msg, stage := total(text)
	c.Count("outcome: "+stage.String(), 1)
	c.Count("inputs: "+kind, 1)
	if len(text) > 3 && (stage != sut.SyntaxError || strings.TrimSpace(text) != "") {
		c.Nontrivial(text)
	}
	if msg != "" {
		k := kindOf(msg)
		small := shrinkText(text, func(t string) bool { m, _ := total(t); return m != "" && kindOf(m) == k }, 2000)
		m, _ := total(small)
		if m == "" {
			m, small = msg, text
		}
		c.Fail(small, "%s", m)
	} else if stage == sut.OK {
		c.Sample(map[string]interface{}{"text": text, "outcome": stage.String()})
	}
}

func deep(open, in, close string, n int) string {
	return "piano: " + strings.Repeat(open, n) + in + strings.Repeat(close, n) + "\n"
}

func init() {
	k := &fw.Check{ID: "C01", Quick: 60000, Thorough: 3000000, MinNontrivialPct: 30,
		Rule: "token soup, mutated generated scores, mutated example scores, mutated S-expressions, raw characters (all with bounded repeats), deep nesting, huge numbers and long inputs; each is parsed, interpreted, encoded as JSON and formatted; crash, excessive CPU time, an error without a place inside the text, or invalid JSON is a violation. Non-trivial: more than 3 characters and not blank.",
		Case: func(c *fw.Ctx, i int) {
			r := c.R
			var text, kind string
			switch i % 8 {
			case 0, 1:
				kind = "token soup"
				var sb strings.Builder
				if r.Intn(2) == 0 {
					sb.WriteString("piano: ")
				}
				n := 1 + r.Intn(14)
				for j := 0; j < n; j++ {
					sb.WriteString(soup[r.Intn(len(soup))])
					if r.Intn(4) > 0 {
						sb.WriteString(" ")
					}
				}
				text = sb.String()
			case 2, 3, 4:
				kind = "mutated generated score"
				f := lang.All()
				f.Errors = true
				f.WideOct = true
				f.Len, f.Sections, f.Depth = 5, 3, 3
				g := &lang.Gen{R: r, F: f}
				text = mutate(r, lang.Print(g.Score(), lang.Layout{Rng: r, Comments: true, Bars: true, Tight: true}))
			case 5:
				kind = "mutated example"
				cs := Corpus()
				if len(cs) == 0 {
					return
				}
				t := []rune(cs[r.Intn(len(cs))])
				a := r.Intn(len(t))
				b := a + 50 + r.Intn(600)
				if b > len(t) {
					b = len(t)
				}
				text = mutate(r, "piano: "+string(t[a:b]))
			case 6:
				kind = "mutated S-expression"
				text = "piano: c " + mutate(r, randSexp(r, 3)) + " d"
			case 7:
				kind = "raw characters"
				n := 1 + r.Intn(40)
				var sb strings.Builder
				alphabet := []rune("abcdefgroV 0123456789()[]{}<>/|~.+-_*'\"=:%@#!\n\r\t msévVé\x00\x1b\u2028日🎵")
				for j := 0; j < n; j++ {
					sb.WriteRune(alphabet[r.Intn(len(alphabet))])
				}
				text = sb.String()
				if r.Intn(4) == 0 {
					b := []byte(text)
					b[r.Intn(len(b))] = byte(r.Intn(256)) // not UTF-8
					text = string(b)
				}
			}
			c01Case(c, tame(text), kind)
		}}
	fixed := map[string]string{
		"deep-seq":           deep("[", "c", "]", 2000),
		"deep-seq-open":      "piano: " + strings.Repeat("[", 20000),
		"deep-cram":          deep("{", "c", "}", 300),
		"deep-cram-open":     "piano: " + strings.Repeat("{ c ", 20000),
		"deep-list":          deep("(", "vol", ")", 1200),
		"deep-quote":         "piano: (vol " + strings.Repeat("'", 5000) + "a)",
		"deep-list-open":     "piano: " + strings.Repeat("(", 20000),
		"deep-repeat-one":    "piano: " + strings.Repeat("[", 200) + "c" + strings.Repeat("]*1 ", 200),
		"deep-voices":        "piano: " + strings.Repeat("[V1: c ", 200) + strings.Repeat("V0: ]", 200),
		"deep-chord":         "piano: c" + strings.Repeat("/c", 5000),
		"var-in-var":         "piano:\nv0 = c\n" + varChain(200) + "v200\n",
		"long-tie":           "piano: c4" + strings.Repeat("~4", 20000),
		"long-dots":          "piano: c4" + strings.Repeat(".", 20000) + " d",
		"long-accidentals":   "piano: c" + strings.Repeat("+-", 20000) + " d",
		"long-name":          "piano \"" + strings.Repeat("x", 100000) + "\": c",
		"long-string":        "piano: (key-sig \"" + strings.Repeat("f+ ", 30000) + "\")",
		"long-comment":       "# " + strings.Repeat("x", 100000),
		"unclosed-string":    "piano: (vol \"" + strings.Repeat("x\n", 1000),
		"huge-note-length":   "piano: c" + strings.Repeat("9", 400) + " d",
		"huge-ms":            "piano: c" + strings.Repeat("9", 400) + "ms d",
		"huge-s":             "piano: c" + strings.Repeat("9", 307) + "s d",
		"huge-repeat":        "piano: c *99999999999999999999 d",
		"huge-repeat-empty":  "piano: [] *99999999999999999999 d",
		"max-repeat-empty":   "piano: c *0 [c '5] *2",
		"huge-octave":        "piano: o99999999999999999999 c",
		"max-octave":         "piano: o2147483647 c",
		"huge-voice":         "piano: V99999999999999999999: c",
		"huge-ending":        "piano: [c '99999999999999999999 d]*2",
		"huge-range":         "piano: [c '1-2147483647 d]*2",
		"backward-range":     "piano: [c '3-1 d]*2",
		"huge-lisp":          "piano: (tempo " + strings.Repeat("9", 400) + ") c",
		"huge-tempo":         "piano: (tempo " + strings.Repeat("9", 300) + ") c d",
		"tiny-tempo":         "piano: (tempo 0." + strings.Repeat("0", 307) + "1) c d",
		"tiny-length":        "piano: c0." + strings.Repeat("0", 310) + "1 d",
		"huge-quant":         "piano: (quant " + strings.Repeat("9", 307) + ") c100000s d",
		"modulation-up":      "piano: [(metric-modulation \"2\" \"1\") c] *1200",
		"modulation-down":    "piano: [(metric-modulation \"1\" \"2\") c] *1200",
		"transpose-overflow": "piano: (transpose 2147483647) c (transpose -2147483648) d",
		"octave-overflow":    "piano: o2147483647 > c",
		"empty":              "", "newline": "\n", "cr": "\r", "bom": "\ufeffpiano: c", "nul": "\x00", "only-comment": "# c",
		"no-part": "c d e", "percent": "%", "at": "@", "eof-after-name": "foo", "eof-after-eq": "foo =", "eof-after-quote": "piano \"", "eof-after-slash": "piano/",
		"invalid-utf8": "piano: c \xff\xfe d", "invalid-utf8-name": "pi\xffano: c",
	}
	names := []string{}
	for n := range fixed {
		names = append(names, n)
	}
	sortStrings(names)
	for _, n := range names {
		text := fixed[n]
		k.Fixed = append(k.Fixed, fw.Fixed{Name: n, Run: func(c *fw.Ctx) { c01Case(c, text, "extreme: "+"fixed list") }})
	}
	fw.Register(k)
}

func varChain(n int) string {
	var sb strings.Builder
	for i := 1; i <= n; i++ {
		fmt.Fprintf(&sb, "v%d = v%d\n", i, i-1)
	}
	return sb.String()
}
