package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

func formatted(ast parser.ASTNode, wrap int, indent *string) (out string, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("crash: %v", x)
		}
	}()
	var b bytes.Buffer
	switch {
	case wrap > 0 && indent != nil:
		err = parser.FormatASTToCode(ast, &b, parser.ConfigureSoftWrapLen(wrap), parser.ConfigureIndentText(*indent))
	case wrap > 0:
		err = parser.FormatASTToCode(ast, &b, parser.ConfigureSoftWrapLen(wrap))
	case indent != nil:
		err = parser.FormatASTToCode(ast, &b, parser.ConfigureIndentText(*indent))
	default:
		err = parser.FormatASTToCode(ast, &b)
	}
	return b.String(), err
}

// bare is an error without its place.
func bare(err error) string {
	s := err.Error()
	return dumpRe.ReplaceAllString(placeRe.ReplaceAllString(s, ""), "")
}

// Some messages show values with their place in the text, or their address.
var dumpRe = regexp.MustCompile(`AldaSourceContext\{[^}]*\}|0x[0-9a-f]+`)

var placeRe = regexp.MustCompile(`(?:[^\s:]*\.alda|<no file>):\d+:\d+:? ?`)

// sameMusic compares what two texts do: the same events in the same order, the
// same markers and parts; or the same refusal.
func sameMusic(a, b sut.Result) string {
	switch {
	case b.Stage == sut.Panicked:
		return "crash: " + b.Panic
	case a.Stage == sut.OK && b.Stage != sut.OK:
		return "is refused: " + b.Err.Error()
	case a.Stage != sut.OK && b.Stage == sut.OK:
		return "is accepted, the original is refused: " + a.Err.Error()
	case a.Stage != sut.OK:
		if x, y := bare(a.Err), bare(b.Err); x != y {
			return fmt.Sprintf("is refused for another reason: %q, the original %q", y, x)
		}
		return ""
	}
	return sameScore(a.Score, b.Score)
}

func sameScore(a, b *model.Score) string {
	x, err := sut.Events(a)
	if err != nil {
		return err.Error()
	}
	y, err := sut.Events(b)
	if err != nil {
		return err.Error()
	}
	for i := range x {
		if i >= len(y) {
			return fmt.Sprintf("plays %d notes, not %d", len(y), len(x))
		}
		if x[i].Channel != y[i].Channel || x[i].Instr != y[i].Instr || !sut.SameEvent(x[i].Event, y[i].Event) {
			return fmt.Sprintf("plays %s on channel %d (%s) where the original plays %s on channel %d (%s)", sut.Show(y[i].Event), y[i].Channel, y[i].Instr, sut.Show(x[i].Event), x[i].Channel, x[i].Instr)
		}
	}
	if len(y) > len(x) {
		return fmt.Sprintf("plays %d notes, not %d", len(y), len(x))
	}
	mk := func(s *model.Score) string {
		o := []string{}
		for n, v := range s.Markers {
			o = append(o, fmt.Sprintf("%s at %.6f", n, v))
		}
		sort.Strings(o)
		return strings.Join(o, ", ")
	}
	if p, q := mk(a), mk(b); p != q {
		return fmt.Sprintf("has markers %s, not %s", q, p)
	}
	if len(a.Parts) != len(b.Parts) {
		return fmt.Sprintf("has %d parts, not %d", len(b.Parts), len(a.Parts))
	}
	for i := range a.Parts {
		p, q := a.Parts[i], b.Parts[i]
		if p.Name != q.Name || !sut.Close(p.CurrentOffset, q.CurrentOffset) {
			return fmt.Sprintf("leaves part %d (%s) at %g, not %s at %g", i, q.Name, q.CurrentOffset, p.Name, p.CurrentOffset)
		}
	}
	al := func(s *model.Score) string {
		o := []string{}
		idx := map[*model.Part]int{}
		for _, p := range s.Parts {
			idx[p] = len(idx)
		}
		for n, ps := range s.Aliases {
			l := []int{}
			for _, p := range ps {
				l = append(l, idx[p])
			}
			o = append(o, fmt.Sprint(n, l))
		}
		sort.Strings(o)
		return strings.Join(o, " ")
	}
	if p, q := al(a), al(b); p != q {
		return fmt.Sprintf("has aliases %s, not %s", q, p)
	}
	return ""
}

var defRe = regexp.MustCompile(`^\s*[A-Za-z]{2}[A-Za-z0-9_\-+'().]* =`)
var declRe = regexp.MustCompile(`^\s*[^ ]+ "[^"]*":$`)

// pieces counts the places a line consists of that a break could go between.
func pieces(line string) int {
	n, depth, in, str := 0, 0, false, false
	for _, r := range line {
		switch {
		case r == '"' && depth > 0:
			str = !str
		case str:
		case r == '(':
			depth++
		case r == ')':
			depth--
		}
		space := (r == ' ' || r == '\t') && depth == 0 && !str
		if !space && !in {
			n++
		}
		in = !space
	}
	return n
}

// formatCheck formats a text and compares.
func formatCheck(c *fw.Ctx, text string, quiet bool) (msg string, out string, eval bool) {
	orig := sut.Compile(text)
	if orig.Stage == sut.SyntaxError || orig.Stage == sut.Panicked {
		return "", "", false
	}
	wrap := 0
	var indent *string
	if c.R.Intn(2) == 0 {
		wrap = []int{1, 10, 20, 40, 60, 80, 100, 1000}[c.R.Intn(8)]
	}
	if c.R.Intn(2) == 0 {
		s := []string{"\t", "    ", " ", "   ", "      "}[c.R.Intn(5)]
		indent = &s
	}
	set := fmt.Sprintf(" (wrap %d", wrap)
	if indent != nil {
		set += fmt.Sprintf(", indent %q", *indent)
	}
	set += ")"
	out, err := formatted(orig.AST, wrap, indent)
	if err != nil {
		return "the formatter fails on a text that parses: " + err.Error(), "", true
	}
	re := sut.Compile(out)
	if m := sameMusic(orig, re); m != "" {
		return "the formatted text" + set + " " + m, out, true
	}
	again, err := formatted(re.AST, wrap, indent)
	if err != nil {
		return "the formatter fails on its own output: " + err.Error(), out, true
	}
	if again != out {
		return "formatting the formatted text" + set + " again changes it to\n" + again, out, true
	}
	limit := wrap
	if limit == 0 {
		limit = 80
	}
	inDef := false
	for _, l := range strings.Split(out, "\n") {
		if strings.Count(l, "\"")%2 == 1 {
			return "", out, true // strings of several lines
		}
	}
	for _, l := range strings.Split(out, "\n") {
		inDef = defRe.MatchString(l)
		if len(l) > limit && !inDef && !declRe.MatchString(l) && pieces(l) > 1 {
			return fmt.Sprintf("a line%s of %d characters could be broken: %q", set, len(l), l), out, true
		}
	}
	if !quiet {
		c.Count("lines checked", strings.Count(out, "\n"))
		if orig.Stage == sut.OK {
			c.Count("accepted scores", 1)
		} else {
			c.Count("refused scores (same refusal)", 1)
		}
	}
	return "", out, true
}

func init() {
	fw.Register(&fw.Check{
		ID: "C15", Quick: 8000, Thorough: 300000, MinNontrivialPct: 40,
		Rule: "whole-language scores (some refused) in random layouts and the example scores cut at random places, formatted with random width and indentation, compiled again and compared note by note, marker by marker, part by part, alias by alias; then formatted again. Non-trivial: the formatted text has at least 3 lines and differs from the original.",
		Case: func(c *fw.Ctx, i int) {
			var text string
			var s lang.Score
			if i%10 == 9 {
				text = exampleCut(c)
			} else if i%10 >= 7 {
				// Edited scores, until one parses.
				for k := 0; k < 20; k++ {
					f := lang.All()
					f.Odd = c.R.Intn(3) / 2 * 6
					f.Sections, f.Len = 2, 5
					text = lang.Print((&lang.Gen{R: c.R, F: f}).Score(), lang.Layout{Rng: c.R, Bars: true, Tight: true})
					if c.R.Intn(3) == 0 {
						text = exampleCut(c)
					}
					for q := 0; q <= c.R.Intn(4); q++ {
						text = mutate(c.R, text)
					}
					if text = tame(text); len(text) < 4000 {
						if _, err := parser.Parse("score.alda", text); err == nil {
							break
						}
					}
				}
			} else {
				f := lang.All()
				f.Odd = c.R.Intn(3) / 2 * 6
				f.Errors = i%7 == 0
				f.Sections = 3
				if i%3 == 0 {
					f.MoreVars, f.Len = 15, 14
				}
				if i%5 == 0 {
					f.MoreVoices = 15
				}
				s = (&lang.Gen{R: c.R, F: f}).Score()
				text = lang.Print(s, lang.Layout{Rng: c.R, Bars: true, Comments: true, Tight: i%2 == 0})
			}
			msg, out, eval := formatCheck(c, text, false)
			if !eval {
				c.Count("skipped: does not parse", 1)
				return
			}
			c.Eval()
			if strings.Count(out, "\n") >= 3 && out != text {
				c.Nontrivial(text)
				c.Sample(map[string]interface{}{"text": text, "formatted": out})
			}
			if msg == "" {
				return
			}
			if s != nil {
				kind := kindOf(strings.SplitN(msg, " at ", 2)[0])
				try := func(v []lang.Node) (m, o string) {
					for k := 0; k < 6 && m == ""; k++ {
						m, o, _ = formatCheck(c, lang.Plain(v), true)
						if m != "" && kindOf(strings.SplitN(m, " at ", 2)[0]) != kind {
							m = ""
						}
					}
					return
				}
				small := lang.Shrink(s, func(v []lang.Node) bool {
					defer func() { recover() }()
					m, _ := try(v)
					return m != ""
				}, 400)
				if m, o := try(small); m != "" {
					c.Fail(lang.Plain(small), "%s\nformatted:\n%s\noriginal input:\n%s", m, o, text)
					return
				}
			}
			if s == nil {
				kind := kindOf(strings.SplitN(msg, " at ", 2)[0])
				try := func(t string) (m, o string) {
					for k := 0; k < 6 && m == ""; k++ {
						m, o, _ = formatCheck(c, t, true)
						if m != "" && kindOf(strings.SplitN(m, " at ", 2)[0]) != kind {
							m = ""
						}
					}
					return
				}
				small := shrinkText(text, func(t string) bool { m, _ := try(t); return m != "" }, 600)
				if m, o := try(small); m != "" {
					c.Fail(small, "%s\nformatted:\n%s", m, o)
					return
				}
			}
			c.Fail(text, "%s\nformatted:\n%s", msg, out)
		},
	})
}
