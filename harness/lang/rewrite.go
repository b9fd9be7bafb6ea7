package lang

// Unroll writes out every repeat and ending. It gives up (false) when the
// result has more than limit nodes or repeats things that must not be
// duplicated textually.
func Unroll(s []Node, limit int) (out []Node, ok bool) {
	u := &unroller{limit: limit, ok: true}
	out = u.list(s, 0)
	return out, u.ok
}

type unroller struct {
	limit int
	ok    bool
}

func (u *unroller) list(ns []Node, rep int) []Node {
	out := []Node{}
	for _, n := range ns {
		out = append(out, u.node(n, rep)...)
		if len(out) > u.limit {
			u.ok = false
			return out
		}
	}
	return out
}

// node writes out a node in the given repetition of the innermost repeat.
func (u *unroller) node(n Node, rep int) []Node {
	switch n := n.(type) {
	case Repeat:
		var out []Node
		for i := 1; i <= n.Times; i++ {
			out = append(out, u.node(n.Ev, i)...)
			if len(out) > u.limit {
				u.ok = false
				return out
			}
		}
		return out
	case OnRep:
		for _, r := range n.Ranges {
			if r[0] <= rep && rep <= r[1] {
				return u.node(n.Ev, rep)
			}
		}
		return nil
	case Seq:
		// A sequence that is not a repeated event has no effect of its own, but
		// keep it as one: voices depend on it.
		ev := u.list(n.Events, rep)
		if len(ev) == 0 {
			return nil
		}
		return []Node{Seq{Events: ev}}
	case Cram:
		ev := u.list(n.Events, rep)
		if len(ev) == 0 {
			u.ok = false // an empty cram is an error
		}
		return []Node{Cram{Events: ev, Dur: n.Dur}}
	case VarDef:
		// Endings directly in a variable belong to the repeat at the reference.
		bad := false
		Walk(n.Events, func(x Node) {
			if _, is := x.(OnRep); is {
				bad = true
			}
		})
		if bad {
			u.ok = false
		}
		ev := u.list(n.Events, rep)
		if len(ev) == 0 {
			u.ok = false // an empty definition is not written the same way
		}
		return []Node{VarDef{Name: n.Name, Events: ev}}
	}
	return []Node{n}
}

// InlineVars replaces every reference by the events of the definition in force
// and drops the definitions.
func InlineVars(s []Node) (out []Node, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			out, ok = nil, false
		}
	}()
	vars := map[string][]Node{}
	var sub func(ns []Node) []Node
	sub = func(ns []Node) []Node {
		out := []Node{}
		for _, n := range ns {
			switch n := n.(type) {
			case VarRef:
				ev, ok := vars[n.Name]
				if !ok {
					panic("undefined")
				}
				if len(ev) == 0 {
					continue
				}
				out = append(out, Seq{Events: ev})
			case VarDef:
				vars[n.Name] = sub(n.Events)
			case Seq:
				out = append(out, Seq{Events: sub(n.Events)})
			case Cram:
				out = append(out, Cram{Events: sub(n.Events), Dur: n.Dur})
			case Repeat:
				out = append(out, Repeat{Ev: one(sub([]Node{n.Ev})), Times: n.Times})
			case OnRep:
				out = append(out, OnRep{Ev: one(sub([]Node{n.Ev})), Ranges: n.Ranges})
			default:
				out = append(out, n)
			}
		}
		return out
	}
	return sub(s), true
}

func one(ns []Node) Node {
	if len(ns) == 1 {
		return ns[0]
	}
	panic("not one")
}
