package checks

import (
	"fmt"
	"strings"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

func init() {
	fw.Register(&fw.Check{
		ID: "C09", Quick: 30000, Thorough: 1000000, MinNontrivialPct: 10,
		Rule: "random sequences of 2 to 9 part declarations over few instruments (several names for one instrument), nicknames, groups, dotted members, repeated and unknown names, each followed by notes of its own pitch; acceptance, the instruments that play each note and the instruments of the score are compared with the reference; after a refusal the declarations before it must still be accepted. Non-trivial: at least 2 declarations were accepted and a nickname, group or dotted name was used.",
		Case: func(c *fw.Ctx, i int) {
			r := c.R
			inst := []string{"piano", "violin", "midi-violin", "cello", "flute", "midi-flute", "percussion", "guitar"}
			if i%3 == 0 {
				inst = inst[:4]
			}
			alias := []string{"foo", "bar", "baz", "quux"}
			known := []string{}
			name := func() string {
				k := r.Intn(20)
				switch {
				case k < 9 || len(known) == 0:
					return inst[r.Intn(len(inst))]
				case k < 14:
					return known[r.Intn(len(known))]
				case k < 18:
					return known[r.Intn(len(known))] + "." + append(append([]string{}, inst...), alias...)[r.Intn(len(inst)+len(alias))]
				case k < 19 && i%4 == 0:
					return "nosuch"
				default:
					return alias[r.Intn(len(alias))]
				}
			}
			var s []lang.Node
			special := false
			n := 2 + r.Intn(8)
			for j := 0; j < n; j++ {
				var d lang.Part
				d.Names = []string{name()}
				for r.Intn(3) == 0 {
					d.Names = append(d.Names, name())
				}
				if r.Intn(3) == 0 {
					d.Alias = alias[r.Intn(len(alias))]
					known = append(known, d.Alias)
				}
				cand := append(append([]lang.Node{}, s...), d)
				if _, err := lang.Interpret(cand); err != nil && r.Intn(8) > 0 {
					continue // mostly legal ones
				}
				if d.Alias != "" || len(d.Names) > 1 || strings.Contains(d.Names[0], ".") {
					special = true
				}
				s = append(s, d, lang.Note{Letter: "cdefgab"[j%7], Dur: &lang.Dur{Comps: []lang.Comp{lang.NL(fmt.Sprint(1<<(j%5)), 0)}}})
			}
			if len(s) == 0 {
				return
			}
			ref, res, ok := differential(c, s, lang.Layout{}, func(rf *lang.Ref) bool { return special && len(s) >= 4 })
			if ok && res.Stage == sut.OK {
				if d := structure(ref, res.Score); d != "" {
					c.Fail(lang.Plain(s), "%s", d)
				}
				if len(res.Score.CurrentParts) != len(ref.CurrentIdx()) {
					c.Fail(lang.Plain(s), "%d instruments are current, expected %d", len(res.Score.CurrentParts), len(ref.CurrentIdx()))
				}
			}
		},
	})
}
