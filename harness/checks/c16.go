package checks

import (
	"fmt"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

// treeDiff compares two trees but for the places in the text.
func treeDiff(a, b parser.ASTNode, path string) string {
	if a.Type != b.Type {
		return fmt.Sprintf("%s: %s instead of %s", path, b.Type, a.Type)
	}
	if fmt.Sprintf("%T %v", a.Literal, a.Literal) != fmt.Sprintf("%T %v", b.Literal, b.Literal) {
		return fmt.Sprintf("%s (%s): %T %v instead of %T %v", path, a.Type, b.Literal, b.Literal, a.Literal, a.Literal)
	}
	for i := range a.Children {
		if i >= len(b.Children) {
			return fmt.Sprintf("%s (%s): child %d, %s, is missing", path, a.Type, i, a.Children[i].Type)
		}
		if d := treeDiff(a.Children[i], b.Children[i], fmt.Sprintf("%s/%d", path, i)); d != "" {
			return d
		}
	}
	if len(b.Children) > len(a.Children) {
		return fmt.Sprintf("%s (%s): additional child %s", path, a.Type, b.Children[len(a.Children)].Type)
	}
	return ""
}

func generate(ups []model.ScoreUpdate) (ast parser.ASTNode, err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("crash: %v", x)
		}
	}()
	return parser.GenerateASTFromScoreUpdates(ups)
}

// play interprets a tree.
func play(ast parser.ASTNode) (r sut.Result) {
	defer func() {
		if x := recover(); x != nil {
			r.Stage, r.Panic = sut.Panicked, fmt.Sprint(x)
			r.Err = fmt.Errorf("crash: %v", x)
		}
	}()
	r.AST = ast
	if r.Updates, r.Err = ast.Updates(); r.Err != nil {
		r.Stage = sut.ASTError
		return
	}
	r.Score = model.NewScore()
	if r.Err = r.Score.Update(r.Updates...); r.Err != nil {
		r.Stage = sut.ScoreError
	}
	return
}

// roundTrip turns the updates of a text into a tree and back.
func roundTrip(text string, same bool) (msg string, eval bool, orig sut.Result) {
	orig = sut.Compile(text)
	if orig.Stage != sut.OK && orig.Stage != sut.ScoreError {
		return "", false, orig
	}
	// In ordinary scores, the tree is even the tree of the text. In edited ones,
	// voices may be where no group of their own can be made of them.
	tree, err := generate(orig.Updates)
	if err != nil {
		return "no tree for the score updates of a text: " + err.Error(), true, orig
	}
	if m := sameMusic(orig, play(tree)); m != "" {
		return "the tree made from the updates " + m, true, orig
	}
	if d := treeDiff(orig.AST, tree, ""); same && d != "" {
		return "the tree made from the updates is not the tree of the text: " + d, true, orig
	}
	out, err := formatted(tree, 0, nil)
	if err != nil {
		return "the tree made from the updates cannot be printed: " + err.Error(), true, orig
	}
	re := sut.Compile(out)
	if re.Stage == sut.SyntaxError || re.Stage == sut.Panicked {
		return fmt.Sprintf("the printed tree does not parse: %v\n%s", re.Err, out), true, orig
	}
	if d := treeDiff(tree, re.AST, ""); d != "" {
		return fmt.Sprintf("the printed tree parses to another tree: %s\n%s", d, out), true, orig
	}
	return "", true, orig
}

func init() {
	fw.Register(&fw.Check{
		ID: "C16", Quick: 10000, Thorough: 400000, MinNontrivialPct: 50,
		Rule: "whole-language scores, edited scores that still parse and pieces of the examples; their score updates are turned into a tree, which is compared with the tree of the text, interpreted (same notes, markers, parts, aliases), printed, and parsed again. Non-trivial: at least 5 updates and one nested inside another.",
		Case: func(c *fw.Ctx, i int) {
			var text string
			var s lang.Score
			switch {
			case i%10 == 9:
				text = exampleCut(c)
			case i%10 >= 6:
				for k := 0; k < 20; k++ {
					f := lang.All()
					f.Odd = c.R.Intn(3) / 2 * 6
					f.Sections, f.Len = 2, 5
					text = lang.Print((&lang.Gen{R: c.R, F: f}).Score(), lang.Layout{Rng: c.R, Bars: true, Tight: true})
					for q := 0; q <= c.R.Intn(4); q++ {
						text = mutate(c.R, text)
					}
					if text = tame(text); len(text) < 4000 {
						if _, err := parser.Parse("score.alda", text); err == nil {
							break
						}
					}
				}
			default:
				f := lang.All()
				f.Odd = c.R.Intn(3) / 2 * 6
				f.Errors = i%7 == 0
				f.Sections = 3
				if i%5 == 0 {
					f.MoreVoices = 15
				}
				if i%3 == 0 {
					f.MoreVars = 15
				}
				s = (&lang.Gen{R: c.R, F: f}).Score()
				text = lang.Print(s, lang.Layout{Rng: c.R, Bars: true})
			}
			msg, eval, orig := roundTrip(text, s != nil)
			if !eval {
				c.Count("skipped: does not parse", 1)
				return
			}
			c.Eval()
			if orig.Stage == sut.OK {
				c.Count("accepted scores", 1)
			} else {
				c.Count("refused scores (same refusal)", 1)
			}
			c.Count("updates", len(orig.Updates))
			if len(orig.Updates) >= 5 && strings.ContainsAny(text, "[{/(") {
				c.Nontrivial(text)
				c.Sample(map[string]interface{}{"text": text, "updates": len(orig.Updates)})
			}
			if msg == "" {
				return
			}
			kind := kindOf(strings.SplitN(msg, ": ", 2)[0])
			bad := func(t string) string {
				m, ev, _ := roundTrip(t, s != nil)
				if !ev || kindOf(strings.SplitN(m, ": ", 2)[0]) != kind {
					return ""
				}
				return m
			}
			if s != nil {
				small := lang.Shrink(s, func(v []lang.Node) bool { return bad(lang.Plain(v)) != "" }, 1000)
				if m := bad(lang.Plain(small)); m != "" {
					text, msg = lang.Plain(small), m
				}
			} else {
				text = shrinkText(text, func(t string) bool { return bad(t) != "" }, 1000)
				if m := bad(text); m != "" {
					msg = m
				}
			}
			c.Fail(text, "%s", msg)
		},
	})
}
