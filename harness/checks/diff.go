// Package checks holds the monitors, one per property.
package checks

import (
	"strings"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

// verdict compares what a score does with the reference. "" means they agree;
// skip means the reference has no opinion.
func verdict(s []lang.Node, text string) (msg string, skip bool, ref *lang.Ref, res sut.Result) {
	var rerr error
	ref, rerr = lang.Interpret(s)
	if rerr == lang.ErrAmbiguous {
		return "", true, ref, res
	}
	res = sut.Compile(text)
	switch {
	case res.Stage == sut.Panicked:
		msg = "crash: " + res.Panic
	case rerr != nil && res.Stage == sut.OK:
		msg = "accepted, but it should be refused: " + rerr.Error()
	case rerr != nil:
	case res.Stage != sut.OK:
		msg = "refused (" + res.Stage.String() + "): " + res.Err.Error()
	default:
		evs, err := sut.Events(res.Score)
		if err != nil {
			msg = err.Error()
			break
		}
		msg = sut.Diff(ref.Events, sut.Plain(evs))
	}
	return
}

// differential runs one generated score against the reference.
func differential(c *fw.Ctx, s []lang.Node, l lang.Layout, nontrivial func(*lang.Ref) bool) (ref *lang.Ref, res sut.Result, ok bool) {
	text := lang.Print(s, l)
	msg, skip, ref, res := verdict(s, text)
	if skip {
		c.Count("skipped: ambiguous", 1)
		return ref, res, false
	}
	c.Eval()
	if res.Stage == sut.OK {
		c.Count("events compared", len(ref.Events))
		c.Count("scores compared", 1)
		for k, n := range ref.Stats {
			c.Count("in scores: "+k, n)
		}
		if nontrivial(ref) {
			c.Nontrivial(text)
			c.Sample(map[string]interface{}{"text": text, "events": len(ref.Events)})
		}
	} else {
		c.Count("scores refused by both", 1)
		if _, err := lang.Interpret(s); err != nil {
			c.Count("refused: "+kindOf(err.Error()), 1)
		}
	}
	if msg == "" && res.Stage != sut.OK {
		// What comes before the offending event is fine, and plays.
		if top := ref.Top(); top > 0 {
			pre := append([]lang.Node{}, s[:top]...)
			if m, skip, _, _ := verdict(pre, lang.Plain(pre)); !skip && m != "" {
				c.Fail(lang.Plain(pre), "without the last event, which is refused: %s\n%s", m, text)
				return ref, res, false
			}
			c.Count("accepted prefixes of refused scores", 1)
		}
	}
	if msg == "" {
		return ref, res, true
	}
	kind := kindOf(msg)
	small := lang.Shrink(s, func(v []lang.Node) bool {
		defer func() { recover() }()
		m, skip, _, _ := verdict(v, lang.Plain(v))
		return !skip && m != "" && kindOf(m) == kind
	}, 3000)
	st := lang.Plain(small)
	if m, _, _, _ := verdict(small, st); m != "" && len(small) < len(s) {
		c.Fail(st, "%s\noriginal input:\n%s", m, text)
	} else {
		c.Fail(text, "%s", msg)
	}
	return ref, res, false
}

// kindOf is a message without its particulars.
func kindOf(m string) string {
	m = strings.SplitN(m, "\n", 2)[0]
	out := []rune{}
	for _, r := range m {
		if r < '0' || r > '9' {
			out = append(out, r)
		}
	}
	return string(out)
}

func profile(base lang.Features, f func(*lang.Features)) lang.Features {
	f(&base)
	return base
}

func basic() lang.Features {
	return lang.Features{Ties: true, Frac: true, Slurs: true, MaxParts: 2, Len: 8, Sections: 2, Depth: 2, ExactTempo: true}
}
