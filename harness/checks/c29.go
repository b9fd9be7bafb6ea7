package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"alda.io/client/model"
	"alda.io/client/parser"

	"verif/fw"
	"verif/lang"
	"verif/sut"

	cjson "alda.io/client/json"
)

type obj = map[string]interface{}

// strictJSON reads exactly one document and refuses duplicate keys.
func strictJSON(text string) (interface{}, error) {
	d := json.NewDecoder(strings.NewReader(text))
	d.UseNumber()
	var value func() (interface{}, error)
	value = func() (interface{}, error) {
		t, err := d.Token()
		if err != nil {
			return nil, err
		}
		switch t {
		case json.Delim('{'):
			m := obj{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				key := k.(string)
				if _, dup := m[key]; dup {
					return nil, fmt.Errorf("the key %q occurs twice", key)
				}
				if m[key], err = value(); err != nil {
					return nil, err
				}
			}
			_, err = d.Token()
			return m, err
		case json.Delim('['):
			l := []interface{}{}
			for d.More() {
				v, err := value()
				if err != nil {
					return nil, err
				}
				l = append(l, v)
			}
			_, err = d.Token()
			return l, err
		}
		return t, nil
	}
	v, err := value()
	if err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("more after the document")
	}
	return v, nil
}

func num(v interface{}) float64 {
	n, ok := v.(json.Number)
	if !ok {
		return math.NaN()
	}
	f, err := n.Float64()
	if err != nil {
		return math.NaN()
	}
	return f
}

func field(v interface{}, path ...string) interface{} {
	for _, p := range path {
		m, ok := v.(obj)
		if !ok {
			return nil
		}
		v = m[p]
	}
	return v
}

// treeJSON compares the JSON of a tree with the tree.
func treeJSON(n parser.ASTNode, v interface{}, path string) string {
	m, ok := v.(obj)
	if !ok {
		return path + ": not an object"
	}
	if m["type"] != n.Type.String() {
		return fmt.Sprintf("%s: type %v instead of %s", path, m["type"], n.Type)
	}
	if n.Literal == nil {
		if _, has := m["literal"]; has {
			return path + ": a literal of its own"
		}
	} else {
		same := false
		switch l := n.Literal.(type) {
		case string:
			same = m["literal"] == l
		case rune: // also int32
			same = num(m["literal"]) == float64(l) || m["literal"] == string(l)
		case float64:
			same = num(m["literal"]) == l
		default:
			same = fmt.Sprint(m["literal"]) == fmt.Sprint(l)
		}
		if !same {
			return fmt.Sprintf("%s (%s): literal %v instead of %v", path, n.Type, m["literal"], n.Literal)
		}
	}
	if c := n.SourceContext; c.Line > 0 {
		if num(field(m, "source-context", "line")) != float64(c.Line) || num(field(m, "source-context", "column")) != float64(c.Column) {
			return fmt.Sprintf("%s (%s): place %v instead of %d:%d", path, n.Type, m["source-context"], c.Line, c.Column)
		}
	} else if m["source-context"] != nil {
		return path + ": a place of its own"
	}
	kids, _ := m["children"].([]interface{})
	if len(kids) != len(n.Children) {
		return fmt.Sprintf("%s (%s): %d children instead of %d", path, n.Type, len(kids), len(n.Children))
	}
	for i := range kids {
		if d := treeJSON(n.Children[i], kids[i], fmt.Sprintf("%s/%d", path, i)); d != "" {
			return d
		}
	}
	return ""
}

// humanTree compares the human-readable tree with the tree: one line per node,
// in order, naming its type and place.
func humanTree(n parser.ASTNode, text string) string {
	lines := strings.Split(strings.TrimRight(text, "\n"), "\n")
	i := 0
	var walk func(n parser.ASTNode, depth int) string
	var indents []int
	walk = func(n parser.ASTNode, depth int) string {
		if i >= len(lines) {
			return "lines are missing"
		}
		l := lines[i]
		i++
		t := strings.TrimLeft(l, " \t")
		indents = append(indents[:depth], len(l)-len(t))
		if depth > 0 && indents[depth] <= indents[depth-1] {
			return fmt.Sprintf("line %d is not indented below its parent: %q", i, l)
		}
		want := n.Type.String()
		if n.SourceContext.Line > 0 {
			want += fmt.Sprintf(" [%d:%d]", n.SourceContext.Line, n.SourceContext.Column)
		}
		if t != want && !strings.HasPrefix(t, want+": ") {
			return fmt.Sprintf("line %d is %q, expected %q", i, l, want)
		}
		for _, c := range n.Children {
			if d := walk(c, depth+1); d != "" {
				return d
			}
		}
		return ""
	}
	if d := walk(n, 0); d != "" {
		return d
	}
	if i != len(lines) {
		return "additional lines"
	}
	return ""
}

// unjson writes the code an event list in JSON stands for.
func unjson(v interface{}) (string, error) {
	var b strings.Builder
	var event func(v interface{}) error
	plain := func(f float64) string { return strconv.FormatFloat(f, 'f', -1, 64) }
	list := func(v interface{}, sep string) error {
		l, ok := v.([]interface{})
		if !ok {
			return fmt.Errorf("no list of events: %v", v)
		}
		for i, e := range l {
			if i > 0 {
				b.WriteString(sep)
			}
			if err := event(e); err != nil {
				return err
			}
		}
		return nil
	}
	dur := func(v interface{}) error {
		l, ok := field(v, "components").([]interface{})
		if !ok {
			return fmt.Errorf("no components: %v", v)
		}
		tie := false
		for _, c := range l {
			m, _ := c.(obj)
			if m["type"] == "barline" {
				b.WriteString("|")
				continue
			}
			if tie {
				b.WriteString("~")
			}
			tie = true
			switch {
			case m["denominator"] != nil:
				b.WriteString(plain(num(m["denominator"])) + strings.Repeat(".", int(num(m["dots"]))))
			case m["ms"] != nil:
				b.WriteString(plain(num(m["ms"])) + "ms")
			case m["s"] != nil:
				b.WriteString(plain(num(m["s"])) + "s")
			default:
				return fmt.Errorf("unknown component: %v", c)
			}
		}
		return nil
	}
	var lisp func(v interface{}) error
	lisp = func(v interface{}) error {
		m, _ := v.(obj)
		switch m["type"] {
		case "list":
			b.WriteString("(")
			l, _ := m["value"].([]interface{})
			for i, e := range l {
				if i > 0 {
					b.WriteString(" ")
				}
				if err := lisp(e); err != nil {
					return err
				}
			}
			b.WriteString(")")
		case "quoted-form":
			b.WriteString("'")
			return lisp(m["value"])
		case "symbol":
			b.WriteString(m["value"].(string))
		case "number":
			b.WriteString(plain(num(m["value"])))
		case "string":
			b.WriteString(`"` + m["value"].(string) + `"`)
		case "nil":
			b.WriteString("()")
		default:
			return fmt.Errorf("unknown form: %v", v)
		}
		return nil
	}
	event = func(v interface{}) error {
		m, _ := v.(obj)
		val := m["value"]
		switch m["type"] {
		case "part-declaration":
			names, _ := field(val, "names").([]interface{})
			b.WriteString("\n")
			for i, n := range names {
				if i > 0 {
					b.WriteString("/")
				}
				b.WriteString(n.(string))
			}
			if a, ok := field(val, "alias").(string); ok {
				b.WriteString(` "` + a + `"`)
			}
			b.WriteString(":\n")
		case "note":
			p := field(val, "pitch")
			l, ok := field(p, "letter").(string)
			if !ok {
				return fmt.Errorf("note without a letter: %v", v)
			}
			b.WriteString(strings.ToLower(l))
			acc, _ := field(p, "accidentals").([]interface{})
			for _, a := range acc {
				s, ok := map[interface{}]string{"flat": "-", "sharp": "+", "natural": "_"}[a]
				if !ok {
					return fmt.Errorf("unknown accidental: %v", v)
				}
				b.WriteString(s)
			}
			if d := field(val, "duration"); d != nil {
				if err := dur(d); err != nil {
					return err
				}
			}
			if field(val, "slurred?") == true {
				b.WriteString("~")
			}
		case "rest":
			b.WriteString("r")
			if d := field(val, "duration"); d != nil {
				return dur(d)
			}
		case "chord":
			evs, _ := field(val, "events").([]interface{})
			last := -1
			for i, e := range evs {
				if t := field(e, "type"); t == "note" || t == "rest" {
					last = i
				}
			}
			for i, e := range evs {
				if err := event(e); err != nil {
					return err
				}
				if t := field(e, "type"); (t == "note" || t == "rest") && i < last {
					b.WriteString("/")
				}
				b.WriteString(" ")
			}
		case "cram":
			b.WriteString("{")
			if err := list(field(val, "events"), " "); err != nil {
				return err
			}
			b.WriteString("}")
			if d := field(val, "duration"); d != nil {
				return dur(d)
			}
		case "event-sequence":
			b.WriteString("[")
			if err := list(field(val, "events"), " "); err != nil {
				return err
			}
			b.WriteString("]")
		case "repeat":
			if err := event(field(val, "event")); err != nil {
				return err
			}
			b.WriteString(" *" + plain(num(field(val, "times"))))
		case "on-repetitions":
			if err := event(field(val, "event")); err != nil {
				return err
			}
			rs, _ := field(val, "repetitions").([]interface{})
			for i, r := range rs {
				b.WriteString([]string{" '", ","}[min(i, 1)])
				f, l := num(field(r, "first")), num(field(r, "last"))
				b.WriteString(plain(f))
				if f != l {
					b.WriteString("-" + plain(l))
				}
			}
		case "marker":
			b.WriteString("%" + fmt.Sprint(field(val, "name")))
		case "at-marker":
			b.WriteString("@" + fmt.Sprint(field(val, "name")))
		case "variable-reference":
			b.WriteString(fmt.Sprint(field(val, "name")))
		case "variable-definition":
			name, ok := field(val, "name").(string)
			if !ok {
				return fmt.Errorf("a variable definition does not say which variable it defines: %v", v)
			}
			b.WriteString("\n" + name + " = ")
			if err := list(field(val, "events"), " "); err != nil {
				return err
			}
			b.WriteString("\n")
		case "voice-marker":
			fmt.Fprintf(&b, "V%s: ", plain(num(field(val, "number"))))
		case "voice-group-end-marker":
			b.WriteString("V0: ")
		case "barline":
			b.WriteString("| ")
		case "attribute-update":
			if m["attribute"] != "octave" {
				return fmt.Errorf("unknown attribute: %v", v)
			}
			switch val {
			case "up":
				b.WriteString(">")
			case "down":
				b.WriteString("<")
			default:
				b.WriteString("o" + plain(num(val)) + " ")
			}
		case "list":
			return lisp(v)
		default:
			return fmt.Errorf("unknown event: %v", v)
		}
		return nil
	}
	if err := list(v, " "); err != nil {
		return "", err
	}
	return b.String(), nil
}

// updatesJSON is what alda parse -o events prints.
func updatesJSON(ups []model.ScoreUpdate) string {
	l := cjson.Array()
	for _, u := range ups {
		l.ArrayAppend(u.JSON())
	}
	return l.String()
}

// scoreJSON compares the JSON of a score with the score.
func scoreJSON(s *model.Score, v interface{}) string {
	parts, ok := field(v, "parts").(obj)
	if !ok || len(parts) != len(s.Parts) {
		return fmt.Sprintf("%d parts instead of %d", len(parts), len(s.Parts))
	}
	offs := map[string]float64{}
	for p, o := range s.PartOffsets() {
		offs[p.ID()] = o
	}
	for _, p := range s.Parts {
		j, ok := parts[p.ID()].(obj)
		if !ok {
			return "part " + p.Name + " is missing"
		}
		for k, want := range map[string]string{"name": p.Name, "stock-instrument": p.StockInstrument.Name()} {
			if j[k] != want {
				return fmt.Sprintf("part %s: %s is %v instead of %s", p.Name, k, j[k], want)
			}
		}
		for k, want := range map[string]float64{
			"tempo": p.Tempo, "transposition": float64(p.Transposition), "reference-pitch": p.ReferencePitch,
			"current-offset": p.CurrentOffset, "last-offset": p.LastOffset, "octave": float64(p.Octave), "volume": p.Volume,
			"track-volume": p.TrackVolume, "panning": p.Panning, "midi-channel": float64(p.MidiChannel),
			"quantization": p.Quantization, "time-scale": p.TimeScale,
		} {
			if got := num(j[k]); got != want {
				return fmt.Sprintf("part %s: %s is %v instead of %v", p.Name, k, got, want)
			}
		}
		if got := num(j["current-offset"]); got != offs[p.ID()] {
			return fmt.Sprintf("part %s: current-offset is %v instead of %v", p.Name, got, offs[p.ID()])
		}
		tv, _ := j["tempo-values"].(obj)
		keys := map[string]float64{}
		for o, t := range p.TempoValues {
			keys[fmt.Sprintf("%.6f", o)] = t
		}
		if len(tv) != len(keys) {
			return fmt.Sprintf("part %s: %d tempo values instead of %d", p.Name, len(tv), len(keys))
		}
	}
	known := func(v interface{}) bool { _, ok := parts[fmt.Sprint(v)]; return ok }
	cur, _ := field(v, "current-parts").([]interface{})
	if len(cur) != len(s.CurrentParts) {
		return fmt.Sprintf("%d current parts instead of %d", len(cur), len(s.CurrentParts))
	}
	seen := map[string]bool{}
	for i, c := range cur {
		if !known(c) {
			return fmt.Sprintf("current part %v is not a part of the document", c)
		}
		if seen[fmt.Sprint(c)] {
			return "a part is current twice"
		}
		seen[fmt.Sprint(c)] = true
		if field(parts[fmt.Sprint(c)], "stock-instrument") != s.CurrentParts[i].StockInstrument.Name() {
			return "a current part is another instrument"
		}
	}
	al, _ := field(v, "aliases").(obj)
	if len(al) != len(s.Aliases) {
		return fmt.Sprintf("%d aliases instead of %d", len(al), len(s.Aliases))
	}
	for name, ps := range s.Aliases {
		l, _ := al[name].([]interface{})
		if len(l) != len(ps) {
			return fmt.Sprintf("alias %s has %d members instead of %d", name, len(l), len(ps))
		}
		for i, c := range l {
			if !known(c) || field(parts[fmt.Sprint(c)], "stock-instrument") != ps[i].StockInstrument.Name() {
				return fmt.Sprintf("member %d of alias %s, %v, is not that part", i, name, c)
			}
		}
	}
	mk, _ := field(v, "markers").(obj)
	if len(mk) != len(s.Markers) {
		return fmt.Sprintf("%d markers instead of %d", len(mk), len(s.Markers))
	}
	for n, o := range s.Markers {
		if num(mk[n]) != o {
			return fmt.Sprintf("marker %s at %v instead of %v", n, mk[n], o)
		}
	}
	vars, _ := field(v, "variables").(obj)
	if len(vars) != len(s.Variables) {
		return fmt.Sprintf("%d variables instead of %d", len(vars), len(s.Variables))
	}
	for n, es := range s.Variables {
		if l, _ := vars[n].([]interface{}); len(l) != len(es) {
			return fmt.Sprintf("variable %s has %d events instead of %d", n, len(l), len(es))
		}
	}
	evs, _ := field(v, "events").([]interface{})
	if len(evs) != len(s.Events) {
		return fmt.Sprintf("%d events instead of %d", len(evs), len(s.Events))
	}
	ids := map[int32]string{}
	for i, e := range evs {
		n := s.Events[i].(model.NoteEvent)
		m, _ := e.(obj)
		if !known(m["part"]) {
			return fmt.Sprintf("event %d is of the part %v, which is not in the document", i, m["part"])
		}
		t := s.Tracks()[n.Part]
		if id, ok := ids[t]; ok && id != m["part"] {
			return fmt.Sprintf("event %d is of another part than the events before of the same instrument", i)
		}
		ids[t] = fmt.Sprint(m["part"])
		if field(parts[ids[t]], "stock-instrument") != n.Part.StockInstrument.Name() {
			return fmt.Sprintf("event %d is of another instrument", i)
		}
		for k, want := range map[string]float64{"midi-channel": float64(n.MidiChannel), "midi-note": float64(n.MidiNote), "offset": n.Offset,
			"duration": n.Duration, "audible-duration": n.AudibleDuration, "volume": n.Volume, "track-volume": n.TrackVolume, "panning": n.Panning} {
			if got := num(m[k]); got != want {
				return fmt.Sprintf("event %d: %s is %v instead of %v", i, k, m[k], want)
			}
		}
	}
	if len(ids) > 0 {
		d := map[string]bool{}
		for _, id := range ids {
			d[id] = true
		}
		if len(d) != len(ids) {
			return "two parts share an id"
		}
	}
	return ""
}

// length adds up a duration, which may be made of durations.
func length(v interface{}) (beats, ms float64) {
	l, _ := field(v, "components").([]interface{})
	for _, c := range l {
		switch m, _ := c.(obj); {
		case m["components"] != nil:
			b, s := length(m)
			beats, ms = beats+b, ms+s
		case m["denominator"] != nil:
			beats += 4 / num(m["denominator"]) * (2 - math.Pow(2, -num(m["dots"])))
		case m["beats"] != nil:
			beats += num(m["beats"])
		case m["ms"] != nil:
			ms += num(m["ms"])
		case m["s"] != nil:
			ms += 1000 * num(m["s"])
		}
	}
	return
}

// probe appends a note to a score and compares it with what the document says
// about the parts that play it.
func probe(text string, v interface{}) (msg string, tried int) {
	cur, _ := field(v, "current-parts").([]interface{})
	if len(cur) == 0 {
		return "", 0
	}
	r := sut.Compile(text + "\n c\n")
	if r.Stage != sut.OK {
		return "", 0
	}
	evs, err := sut.Events(r.Score)
	old, _ := field(v, "events").([]interface{})
	if err != nil || len(evs) < len(old) {
		return "events vanish when a note is added", 0
	}
	type heard struct {
		note                          int
		off, dur, aud, vol, tvol, pan float64
	}
	show := func(l []heard) []string {
		out := []string{}
		for _, h := range l {
			out = append(out, fmt.Sprintf("note %d at %.3f for %.3f (%.3f), volume %.4f/%.4f, panning %.4f", h.note, h.off, h.dur, h.aud, h.vol, h.tvol, h.pan))
		}
		sort.Strings(out)
		return out
	}
	var want, got []heard
	for _, id := range cur {
		p := field(v, "parts", fmt.Sprint(id))
		key, _ := field(p, "key-signature").(obj)
		acc := 0
		kl, _ := key["C"].([]interface{})
		if key["c"] != nil {
			kl, _ = key["c"].([]interface{})
		}
		for _, a := range kl {
			acc += map[interface{}]int{"flat": -1, "sharp": 1}[a]
		}
		beats, ms := length(field(p, "duration"))
		d := (beats*60000/num(field(p, "tempo")) + ms) * num(field(p, "time-scale"))
		h := heard{12*(int(num(field(p, "octave")))+1) + acc + int(num(field(p, "transposition"))), num(field(p, "current-offset")), d,
			d * num(field(p, "quantization")), num(field(p, "volume")), num(field(p, "track-volume")), num(field(p, "panning"))}
		if h.aud > 0 {
			want = append(want, h)
		}
	}
	for _, e := range evs[len(old):] {
		got = append(got, heard{e.Note, e.Offset, e.Dur, e.Audible, e.Vol, e.TVol, e.Pan})
	}
	if a, b := fmt.Sprint(show(want)), fmt.Sprint(show(got)); a != b {
		// Rounding may differ in the last digit shown.
		if len(want) == len(got) {
			ok := true
			for _, w := range want {
				found := false
				for _, g := range got {
					found = found || w.note == g.note && sut.Close(w.off, g.off) && sut.Close(w.dur, g.dur) && sut.Close(w.aud, g.aud) && sut.Close(w.vol, g.vol) && sut.Close(w.tvol, g.tvol) && sut.Close(w.pan, g.pan)
				}
				ok = ok && found
			}
			if ok {
				return "", len(got)
			}
		}
		return fmt.Sprintf("the document promises %s for a further c, which plays %s", a, b), 0
	}
	return "", len(got)
}

// documents checks all the documents of a text.
func documents(text string, count func(string, int)) (msg string, res sut.Result) {
	defer func() {
		if x := recover(); x != nil {
			msg = fmt.Sprintf("crash: %v", x)
		}
	}()
	res = sut.Compile(text)
	if res.Stage == sut.SyntaxError || res.Stage == sut.Panicked {
		return "", res
	}
	doc := res.AST.JSON()
	v, err := strictJSON(doc.String())
	if err != nil {
		return "the tree is not valid JSON: " + err.Error(), res
	}
	if d := treeJSON(res.AST, v, ""); d != "" {
		return "the tree in JSON differs from the tree: " + d, res
	}
	pj, err := cjson.ParseJSON([]byte(doc.String()))
	if err != nil {
		return "the tree does not parse as JSON: " + err.Error(), res
	}
	if d := humanTree(res.AST, parser.HumanReadableAST(pj)); d != "" {
		return "the readable tree differs from the tree: " + d, res
	}
	count("trees", 1)
	if res.Stage == sut.ASTError {
		return "", res
	}
	ej := updatesJSON(res.Updates)
	if v, err = strictJSON(ej); err != nil {
		return "the events are not valid JSON: " + err.Error(), res
	}
	if l, _ := v.([]interface{}); len(l) != len(res.Updates) {
		return fmt.Sprintf("%d events in JSON instead of %d", len(l), len(res.Updates)), res
	}
	back, err := unjson(v)
	if err != nil {
		return "the events in JSON say too little: " + err.Error(), res
	}
	r2 := sut.Compile(back)
	if m := sameMusic(res, r2); m != "" {
		return "the events in JSON, written out, " + m + "\n" + back, res
	}
	count("event lists written out", 1)
	count("events in lists", len(res.Updates))
	if res.Stage != sut.OK {
		return "", res
	}
	s1 := res.Score.JSON().String()
	if v, err = strictJSON(s1); err != nil {
		return "the score is not valid JSON: " + err.Error(), res
	}
	if d := scoreJSON(res.Score, v); d != "" {
		return "the score in JSON differs from the score: " + d, res
	}
	count("scores", 1)
	count("notes in scores", len(res.Score.Events))
	if !strings.Contains(text, "!") && !strings.Contains(text, "V") {
		m, n := probe(text, v)
		if m != "" {
			return m, res
		}
		count("notes probed", n)
	}
	return "", res
}

// fromCommand compares what alda parse prints with the documents.
func fromCommand(c *fw.Ctx, text string, res sut.Result) string {
	bin := filepath.Join(fw.Root(), ".build", "bin", "alda")
	dir, err := os.MkdirTemp(fw.Scratch(), "parse")
	if err != nil {
		return ""
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "score.alda")
	if err = os.WriteFile(f, []byte(text), 0o644); err != nil {
		return ""
	}
	for _, kind := range []string{"ast", "ast-human", "events", "data"} {
		cmd := exec.Command(bin, "parse", "-f", f, "-o", kind)
		cmd.Env = append(os.Environ(), "ALDA_DISABLE_SPAWNING=yes", "ALDA_DISABLE_TELEMETRY=yes", "HOME="+dir, "XDG_CACHE_HOME="+dir+"/cache", "XDG_CONFIG_HOME="+dir+"/config")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Run(); err != nil {
			return fmt.Sprintf("alda parse -o %s fails: %v: %s", kind, err, errb.String())
		}
		c.Count("commands run", 1)
		if kind == "ast-human" {
			if d := humanTree(res.AST, out.String()); d != "" {
				return "alda parse -o ast-human differs: " + d
			}
			continue
		}
		v, err := strictJSON(out.String())
		if err != nil {
			return fmt.Sprintf("alda parse -o %s does not print one JSON document: %v", kind, err)
		}
		switch kind {
		case "ast":
			if d := treeJSON(res.AST, v, ""); d != "" {
				return "alda parse -o ast differs: " + d
			}
		case "events":
			w, _ := strictJSON(updatesJSON(res.Updates))
			if fmt.Sprint(w) != fmt.Sprint(v) {
				return "alda parse -o events differs from the events"
			}
		case "data":
			e, _ := field(v, "events").([]interface{})
			p, _ := field(v, "parts").(obj)
			if len(e) != len(res.Score.Events) || len(p) != len(res.Score.Parts) {
				return fmt.Sprintf("alda parse -o data has %d events of %d parts instead of %d of %d", len(e), len(p), len(res.Score.Events), len(res.Score.Parts))
			}
			for i := range e {
				if n := res.Score.Events[i].(model.NoteEvent); num(field(e[i], "offset")) != n.Offset || num(field(e[i], "midi-note")) != float64(n.MidiNote) {
					return fmt.Sprintf("alda parse -o data differs at event %d", i)
				}
				if p[fmt.Sprint(field(e[i], "part"))] == nil {
					return fmt.Sprintf("alda parse -o data: event %d is of a part that is not listed", i)
				}
			}
		}
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{
		ID: "C29", Quick: 12000, Thorough: 400000, MinNontrivialPct: 40,
		Rule: "whole-language scores and pieces of the examples; the JSON of the tree, of the event list and of the score is read by a strict reader (one document, no duplicate keys): the tree is compared node by node, the event list is written out as code again by an independent printer and must play the same, every field of the score is compared with the score, every part mentioned must be listed, and a further note must sound as the listed attributes say; one in 300 also through the alda parse command, all four outputs. Non-trivial: an accepted score with at least 2 parts, an alias, a marker or a variable.",
		Case: func(c *fw.Ctx, i int) {
			var text string
			var s lang.Score
			if i%10 == 9 {
				text = exampleCut(c)
			} else {
				f := lang.All()
				f.Odd = c.R.Intn(3) / 2 * 6
				f.Sections = 3
				if i%3 == 0 {
					f.Voices, f.Globals = false, false
				}
				f.Errors = i%9 == 0
				s = (&lang.Gen{R: c.R, F: f}).Score()
				text = lang.Print(s, lang.Layout{Rng: c.R, Bars: true})
			}
			if strings.Contains(text, "(note") || strings.Contains(text, "(chord") {
				c.Count("with note S-expressions", 1)
			}
			c.Eval()
			msg, res := documents(text, c.Count)
			if res.Stage == sut.OK {
				if len(res.Score.Parts) > 1 || len(res.Score.Aliases)+len(res.Score.Markers)+len(res.Score.Variables) > 0 {
					c.Nontrivial(text)
					c.Sample(obj{"text": text, "events": len(res.Score.Events)})
				}
				if i%300 == 0 && msg == "" {
					if m := fromCommand(c, text, res); m != "" {
						c.Fail(text, "%s", m)
					}
				}
			}
			if msg == "" {
				return
			}
			kind := kindOf(strings.SplitN(msg, ": ", 2)[0])
			none := func(string, int) {}
			bad := func(t string) string {
				m, _ := documents(t, none)
				if kindOf(strings.SplitN(m, ": ", 2)[0]) != kind {
					return ""
				}
				return m
			}
			if s != nil {
				small := lang.Shrink(s, func(v []lang.Node) bool { return bad(lang.Plain(v)) != "" }, 1000)
				if m := bad(lang.Plain(small)); m != "" {
					text, msg = lang.Plain(small), m
				}
			} else {
				text = shrinkText(text, func(t string) bool { return bad(t) != "" }, 1000)
				if m := bad(text); m != "" {
					msg = m
				}
			}
			c.Fail(text, "%s", msg)
		},
	})
}
