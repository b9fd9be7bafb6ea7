package lang

// Shrink removes and simplifies nodes as long as bad still holds.
func Shrink(s []Node, bad func([]Node) bool, budget int) []Node {
	cur := s
	for changed := true; changed && budget > 0; {
		changed = false
		for _, v := range variants(cur) {
			budget--
			if budget <= 0 {
				break
			}
			if bad(v) {
				cur = v
				changed = true
				break
			}
		}
	}
	return cur
}

func splice(ns []Node, i, n int, with ...Node) []Node {
	out := append([]Node{}, ns[:i]...)
	out = append(out, with...)
	return append(out, ns[i+n:]...)
}

func variants(ns []Node) [][]Node {
	var out [][]Node
	if len(ns) > 3 {
		h := len(ns) / 2
		out = append(out, append([]Node{}, ns[:h]...), append([]Node{}, ns[h:]...))
	}
	for i := range ns {
		out = append(out, splice(ns, i, 1))
	}
	for i, n := range ns {
		switch n := n.(type) {
		case Seq:
			out = append(out, splice(ns, i, 1, n.Events...))
			for _, v := range variants(n.Events) {
				if len(v) > 0 {
					out = append(out, splice(ns, i, 1, Seq{Events: v}))
				}
			}
		case Cram:
			out = append(out, splice(ns, i, 1, n.Events...))
			for _, v := range variants(n.Events) {
				if len(v) > 0 {
					out = append(out, splice(ns, i, 1, Cram{Events: v, Dur: n.Dur}))
				}
			}
			if n.Dur != nil {
				out = append(out, splice(ns, i, 1, Cram{Events: n.Events}))
			}
		case Chord:
			var notes []Node
			for _, e := range n.Events {
				switch x := e.(type) {
				case Note:
					x.Lisp = false
					notes = append(notes, x)
				case Rest:
					notes = append(notes, e)
				}
			}
			out = append(out, splice(ns, i, 1, notes...))
			if len(notes) < len(n.Events) {
				out = append(out, splice(ns, i, 1, Chord{Events: notes}))
			}
			if len(notes) > 2 {
				out = append(out, splice(ns, i, 1, Chord{Events: notes[1:]}))
			}
		case Repeat:
			out = append(out, splice(ns, i, 1, n.Ev))
			if n.Times > 1 {
				out = append(out, splice(ns, i, 1, Repeat{Ev: n.Ev, Times: n.Times - 1}))
			}
			for _, v := range variants([]Node{n.Ev}) {
				if len(v) == 1 {
					out = append(out, splice(ns, i, 1, Repeat{Ev: v[0], Times: n.Times}))
				}
			}
		case OnRep:
			out = append(out, splice(ns, i, 1, n.Ev))
			for _, v := range variants([]Node{n.Ev}) {
				if len(v) == 1 {
					if _, ok := v[0].(OnRep); !ok {
						out = append(out, splice(ns, i, 1, OnRep{Ev: v[0], Ranges: n.Ranges}))
					}
				}
			}
		case VarDef:
			for _, v := range variants(n.Events) {
				if len(v) > 0 {
					out = append(out, splice(ns, i, 1, VarDef{Name: n.Name, Events: v}))
				}
			}
		case Note:
			if n.Dur != nil || n.Acc != nil || n.Slur || n.Lisp {
				out = append(out, splice(ns, i, 1, Note{Letter: n.Letter, Lisp: n.Lisp, Midi: n.Midi, IsMidi: n.IsMidi && n.Lisp}))
			}
			if n.Dur != nil && len(n.Dur.Comps) > 1 {
				m := n
				m.Dur = &Dur{Comps: n.Dur.Comps[:1]}
				out = append(out, splice(ns, i, 1, m))
			}
			if n.Lisp && !n.IsMidi {
				m := n
				m.Lisp = false
				out = append(out, splice(ns, i, 1, m))
			}
		case Rest:
			if n.Dur != nil {
				out = append(out, splice(ns, i, 1, Rest{}))
			}
		case Part:
			if len(n.Names) > 1 {
				for j := range n.Names {
					m := append(append([]string{}, n.Names[:j]...), n.Names[j+1:]...)
					out = append(out, splice(ns, i, 1, Part{Names: m, Alias: n.Alias}))
				}
			}
		}
	}
	return out
}
