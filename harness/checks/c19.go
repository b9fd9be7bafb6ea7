package checks

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/beevik/etree"

	"verif/clix"
	"verif/fw"
	"verif/sut"
)

// hostile texts and attribute values for MusicXML documents.
var xHostile = []string{
	"", " ", "0", "-1", "1", "2", "3", "7", "-7", "8", "-8", "12", "99", "127", "128", "-128", "129", "255", "256", "1000", "-1000",
	"32768", "65536", "2147483647", "2147483648", "-2147483649", "9223372036854775807", "9223372036854775808",
	"1e3", "1e9", "1e308", "1e-308", "1e400", "0.5", "0.0001", "1.5", "3.14159", "NaN", "Inf", "-Inf", "+Inf", "0x10", "1_000", "1,2", "1, 2", "2,", ",", "1-3", "1 2", "x", "H", "c", "C", "Cb", "B", "E", "é", "\u00a0", "\u2028",
	"start", "stop", "continue", "begin", "end", "forward", "backward", "discontinue", "yes", "no", "major", "minor", "dorian", "none", "percussion", "drums", "P1", "P2", "P3-I36", "bogus",
	"piano", "(crash)", "[", "]", "\"", "'", "\n\n", "a:b", "#", "|", "}", "V1:", "*0", "staccato", "accent", strings.Repeat("x", 300), strings.Repeat("9", 400),
}

// elements that may turn up anywhere.
var xFragments = []string{
	"<note/>", "<note><rest/></note>", "<note><rest/><duration>4</duration></note>", "<note><pitch><step>C</step><octave>4</octave></pitch></note>",
	"<note><chord/><pitch><step>C</step><octave>4</octave></pitch><duration>1</duration></note>", "<note><chord/><rest/><duration>1</duration></note>",
	"<note><pitch><step>H</step><octave>4</octave></pitch><duration>1</duration></note>", "<note><unpitched/><duration>1</duration></note>",
	"<note><unpitched><display-step>E</display-step><display-octave>4</display-octave></unpitched><duration>1</duration><instrument id=\"none\"/></note>",
	"<note><pitch/><duration>1</duration></note>", "<note><duration>1</duration></note>", "<note><grace/><chord/></note>", "<note><cue/><rest/></note>",
	"<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration><tie type=\"stop\"/><notations><tied type=\"stop\"/></notations></note>",
	"<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration><tie type=\"start\"/></note>",
	"<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration><notations><slur type=\"stop\"/></notations></note>",
	"<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration><notations><slur/></notations></note>",
	"<note><pitch><step>C</step><octave>4</octave></pitch><duration>2</duration><voice>9</voice></note>",
	"<backup/>", "<backup><duration>4</duration></backup>", "<backup><duration>400000</duration></backup>", "<forward/>", "<forward><duration>4</duration></forward>", "<forward><duration>4</duration><voice>3</voice></forward>",
	"<barline/>", "<barline><repeat direction=\"backward\"/></barline>", "<barline location=\"left\"><repeat direction=\"forward\"/></barline>", "<barline><repeat direction=\"backward\" times=\"3\"/></barline>", "<barline><repeat direction=\"backward\" times=\"0\"/></barline>", "<barline><repeat/></barline>",
	"<barline location=\"left\"><ending number=\"1\" type=\"start\"/></barline>", "<barline><ending number=\"1\" type=\"stop\"/><repeat direction=\"backward\"/></barline>", "<barline><ending number=\"2, 3\" type=\"stop\"/></barline>", "<barline><ending/></barline>", "<barline><ending number=\"\" type=\"start\"/></barline>",
	"<attributes/>", "<attributes><divisions>0</divisions></attributes>", "<attributes><divisions>1</divisions></attributes>", "<attributes><divisions>960</divisions></attributes>", "<attributes><divisions/></attributes>",
	"<attributes><key/></attributes>", "<attributes><key><fifths>7</fifths></key></attributes>", "<attributes><key><fifths>-12</fifths></key></attributes>", "<attributes><key><key-step>C</key-step><key-alter>1</key-alter></key></attributes>", "<attributes><key><fifths>2</fifths><mode>phrygian</mode></key></attributes>",
	"<attributes><transpose/></attributes>", "<attributes><transpose><chromatic>-2</chromatic></transpose></attributes>", "<attributes><transpose><octave-change>1</octave-change></transpose></attributes>", "<attributes><transpose><chromatic>1000000</chromatic></transpose></attributes>",
	"<attributes><time/></attributes>", "<attributes><time><beats>0</beats><beat-type>0</beat-type></time></attributes>", "<attributes><time><senza-misura/></time></attributes>", "<attributes><clef/></attributes>",
	"<direction/>", "<direction><direction-type/></direction>", "<direction><direction-type><dynamics/></direction-type></direction>", "<direction><direction-type><dynamics><pppp/></dynamics></direction-type></direction>", "<direction><direction-type><dynamics><other-dynamics>quite loud</other-dynamics></dynamics></direction-type></direction>", "<direction><direction-type><dynamics><sfz/></dynamics></direction-type></direction>", "<direction><sound tempo=\"120\"/></direction>",
	"<measure/>", "<measure number=\"x\"/>", "<part/>", "<part id=\"P9\"/>", "<part-list/>", "<score-part/>", "<score-part id=\"P9\"/>", "<score-part id=\"P9\"><part-name/></score-part>", "<score-part id=\"\"><part-name>x</part-name></score-part>",
	"<midi-instrument/>", "<midi-instrument id=\"P1-I1\"/>", "<midi-instrument id=\"P1-I1\"><midi-program>0</midi-program></midi-instrument>", "<midi-instrument id=\"P1-I1\"><midi-program>129</midi-program></midi-instrument>", "<midi-instrument><midi-program>1</midi-program></midi-instrument>", "<midi-instrument id=\"P1-I1\"><midi-unpitched>36</midi-unpitched></midi-instrument>", "<midi-instrument id=\"P1-I1\"><midi-unpitched>0</midi-unpitched></midi-instrument>", "<midi-instrument id=\"P1-I1\"><midi-unpitched>36</midi-unpitched><midi-channel>10</midi-channel></midi-instrument>",
	"<score-partwise/>", "<score-timewise/>", "<rest/>", "<rest measure=\"yes\"/>", "<chord/>", "<dot/>", "<tie/>", "<notations/>", "<voice>x</voice>", "<voice/>", "<duration>x</duration>", "<alter>0.5</alter>", "<octave>-1</octave>", "<octave>11</octave>",
	"<!-- a comment -->", "<?pi data?>", "<unknown><deep><deeper/></deep></unknown>", "<![CDATA[ <note> ]]>", "text",
}

func xExamples() (out []string) {
	names, _ := filepath.Glob("/repo/client/interop/musicxml/examples/*.musicxml")
	sort.Strings(names)
	for _, n := range names {
		if b, err := os.ReadFile(n); err == nil {
			out = append(out, string(b))
		}
	}
	return out
}

func allElements(e *etree.Element) []*etree.Element {
	out := []*etree.Element{e}
	for _, k := range e.ChildElements() {
		out = append(out, allElements(k)...)
	}
	return out
}

// spoilXML changes a document that was well-formed.
func spoilXML(r *rand.Rand, text string, note func(string)) string {
	d := etree.NewDocument()
	if err := d.ReadFromString(text); err != nil || d.Root() == nil {
		return text
	}
	d.WriteSettings.CanonicalText = true
	for k := 1 + r.Intn(3); k > 0; k-- {
		all := allElements(d.Root())
		e := all[r.Intn(len(all))]
		if r.Intn(2) == 0 { // prefer elements with something to say
			for j := 0; j < 5 && len(e.ChildElements()) > 0; j++ {
				e = all[r.Intn(len(all))]
			}
		}
		switch r.Intn(12) {
		case 0, 1:
			note("an element removed")
			if p := e.Parent(); p != nil && e != d.Root() {
				p.RemoveChildAt(e.Index())
			}
		case 2:
			note("an element twice")
			if e != d.Root() {
				e.Parent().InsertChildAt(e.Index(), e.Copy())
			}
		case 3, 4:
			note("a text changed")
			for j := 0; j < 30 && len(e.ChildElements()) > 0; j++ {
				e = all[r.Intn(len(all))]
			}
			e.SetText(xHostile[r.Intn(len(xHostile))])
		case 5:
			note("an attribute removed")
			for j := 0; j < 60 && len(e.Attr) == 0; j++ {
				e = all[r.Intn(len(all))]
			}
			if len(e.Attr) > 0 {
				e.RemoveAttr(e.Attr[r.Intn(len(e.Attr))].Key)
			}
		case 6:
			note("an attribute changed")
			for j := 0; j < 60 && len(e.Attr) == 0; j++ {
				e = all[r.Intn(len(all))]
			}
			if len(e.Attr) > 0 {
				e.CreateAttr(e.Attr[r.Intn(len(e.Attr))].Key, xHostile[r.Intn(len(xHostile))])
			}
		case 7:
			note("an element renamed")
			e.Tag = all[r.Intn(len(all))].Tag
		case 8, 9:
			note("an element added")
			f := etree.NewDocument()
			if f.ReadFromString("<x>"+xFragments[r.Intn(len(xFragments))]+"</x>") == nil {
				for _, t := range append([]etree.Token{}, f.Root().Child...) {
					at := 0
					if len(e.Child) > 0 {
						at = r.Intn(len(e.Child) + 1)
					}
					e.InsertChildAt(at, t)
				}
			}
		case 10:
			note("an element moved")
			t := all[r.Intn(len(all))]
			if e != d.Root() {
				c := e.Copy()
				e.Parent().RemoveChildAt(e.Index())
				t.AddChild(c)
			}
		case 11:
			note("children in another order")
			kids := append([]etree.Token{}, e.Child...)
			r.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
			for _, t := range kids {
				e.RemoveChild(t)
			}
			for _, t := range kids {
				e.AddChild(t)
			}
		}
	}
	out, err := d.WriteToString()
	if err != nil {
		return text
	}
	return out
}

// spoilBytes changes the bytes of a document.
func spoilBytes(r *rand.Rand, text string, note func(string)) string {
	b := []byte(text)
	switch r.Intn(9) {
	case 0, 1:
		note("cut off")
		return string(b[:r.Intn(len(b)+1)])
	case 2:
		note("bytes changed")
		for k := 1 + r.Intn(8); k > 0 && len(b) > 0; k-- {
			b[r.Intn(len(b))] = byte(r.Intn(256))
		}
	case 3:
		note("a stretch removed")
		i := r.Intn(len(b))
		j := i + r.Intn(len(b)-i)
		b = append(b[:i:i], b[j:]...)
	case 4:
		note("markup characters inserted")
		for k := 1 + r.Intn(3); k > 0; k-- {
			i := r.Intn(len(b))
			s := []string{"<", ">", "&", "\"", "</", "/>", "<!", "]]>", "&#0;", "&lt;", "&nbsp;", "&#x1F3B5;", "\x00", "\xff\xfe", "<?xml?>"}[r.Intn(15)]
			b = append(b[:i:i], append([]byte(s), b[i:]...)...)
		}
	case 5:
		note("another encoding")
		switch r.Intn(4) {
		case 0:
			return "\ufeff" + text
		case 1: // UTF-16
			out := []byte{0xff, 0xfe}
			for _, c := range b {
				out = append(out, c, 0)
			}
			return string(out)
		case 2:
			return strings.Replace(text, "UTF-8", []string{"UTF-16", "ISO-8859-1", "bogus", ""}[r.Intn(4)], 1)
		default:
			return "<?xml version=\"1.0\" encoding=\"ISO-8859-1\"?>" + text
		}
	case 6:
		note("a document type with entities")
		return "<!DOCTYPE score-partwise [<!ENTITY a \"&b;&b;\"><!ENTITY b \"&a;\">]>" + strings.Replace(text, "<duration>", "<duration>&a;", 1)
	case 7:
		note("not MusicXML")
		return []string{"", " ", "\n", "piano: c d e", "<", "<a/>", "<html><body/></html>", "<score-timewise/>", "<score-partwise/>", "<score-partwise><part-list/></score-partwise>", "PK\x03\x04", "MThd\x00\x00", "{}", "<score-partwise", "<!-- -->", "<?xml version=\"1.0\"?>", strings.Repeat("<a>", 3000), strings.Repeat("<score-partwise>", 50)}[r.Intn(18)]
	case 8:
		note("two documents")
		return text + text
	}
	return string(b)
}

// importOutcome checks what came of an import of any text. It returns a
// description of what is wrong, if anything.
func importOutcome(text string) (code string, refused bool, wrong string) {
	code, err := importXML(text)
	if err != nil {
		m := err.Error()
		for _, p := range []string{"crash:", "no tree:", "no code:"} {
			if strings.HasPrefix(m, p) {
				return "", false, "importing: " + m
			}
		}
		if strings.TrimSpace(m) == "" {
			return "", false, "refused without a message"
		}
		return "", true, ""
	}
	r := sut.Compile(code)
	if r.Stage == sut.SyntaxError || r.Stage == sut.Panicked {
		return code, false, fmt.Sprintf("the imported code is not valid: %v", r.Err)
	}
	return code, false, ""
}

func init() {
	var examples []string
	fw.Register(&fw.Check{
		ID: "C19", Quick: 12000, Thorough: 600000, MinNontrivialPct: 40,
		Rule: "MusicXML documents (made up, and the repository's examples) with elements, attributes and texts removed, added, moved, doubled or replaced, and with their bytes damaged: importing ends within its time with a message, or with code that Alda can parse. A sample goes through the alda program. Non-trivial: damaged inside a well-formed document.",
		Need: []string{"refused", "imported", "an element removed", "an element twice", "a text changed", "an attribute removed", "an attribute changed", "an element renamed", "an element added", "an element moved", "children in another order", "cut off", "bytes changed", "another encoding", "not MusicXML", "through the program: refused", "through the program: imported"},
		CaseCPU: 30e9,
		Case: func(c *fw.Ctx, i int) {
			if examples == nil {
				examples = xExamples()
			}
			var text string
			if len(examples) > 0 && c.R.Intn(4) == 0 {
				text = examples[c.R.Intn(len(examples))]
			} else {
				g := &xGen{r: c.R, count: map[string]int{}}
				text = g.doc().print(c.R)
			}
			note := func(s string) { c.Count(s, 1) }
			inside := c.R.Intn(5) > 0
			if inside {
				text = spoilXML(c.R, text, note)
			} else {
				text = spoilBytes(c.R, text, note)
			}
			c.Eval()
			if inside {
				c.Nontrivial(text)
			}
			code, refused, wrong := importOutcome(text)
			if wrong != "" {
				c.Fail(text+"\n\n"+code, "%s", wrong)
				return
			}
			if refused {
				c.Count("refused", 1)
			} else {
				c.Count("imported", 1)
			}
			if i%150 != 0 {
				return
			}
			env := clix.New()
			defer env.Close()
			in, out := env.Path("in.musicxml"), env.Path("out.alda")
			os.WriteFile(in, []byte(text), 0o644)
			args := []string{"import", "-i", "musicxml"}
			cmd := clix.Cmd{NoStdin: true}
			if c.R.Intn(2) == 0 || strings.TrimSpace(text) == "" {
				args = append(args, "-f", in)
			} else {
				cmd = clix.Cmd{Stdin: []byte(text)}
			}
			file := c.R.Intn(2) == 0
			if file {
				args = append(args, "-o", out)
			}
			cmd.Args = args
			res := env.Run(cmd)
			if m := res.Crashed(); m != "" {
				c.Fail(text, "the program %s: %v", m, res)
				return
			}
			if refused != (res.Exit != 0) {
				c.Fail(text, "refused: %v, but %v", refused, res)
				return
			}
			if refused {
				c.Count("through the program: refused", 1)
				if strings.TrimSpace(res.Err) == "" {
					c.Fail(text, "no message: %v", res)
				}
				if _, err := os.Stat(out); err == nil || res.Out != "" {
					c.Fail(text, "refused with an output: %v", res)
				}
				return
			}
			c.Count("through the program: imported", 1)
			got := res.Out
			if file {
				b, _ := os.ReadFile(out)
				got = string(b)
			}
			if r := sut.Compile(got); r.Stage == sut.SyntaxError || r.Stage == sut.Panicked || strings.TrimSpace(got) != strings.TrimSpace(code) {
				c.Fail(text+"\n\n"+got+"\n\n"+code, "the program's output is not the valid code of the importer: %v, %v", r.Err, res)
			}
		},
	})
}
