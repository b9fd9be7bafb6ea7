package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"alda.io/client/generated"
	"alda.io/client/model"
	"alda.io/client/parser"

	"verif/clix"
	"verif/fw"
	"verif/lang"
	"verif/replx"
	"verif/sut"
)

// C25: commands fail loudly and never damage files.

// task is a command and what it has to do.
type task struct {
	cmd    clix.Cmd
	ok     bool              // whether it can be done
	out    string            // what goes to standard output ("" if that isn't checked)
	outOK  func(string) bool // or what it has to be like
	target string            // the output file
	want   []byte            // what goes into it
	export bool
	kind   string
}

// fileWorld adds the files of the user.
type fileWorld struct {
	*world
	nobody bool
	before map[string]string
}

// snapshot describes everything in the directory that commands run in.
func (w *fileWorld) snapshot() map[string]string {
	out := map[string]string{}
	filepath.Walk(w.env.Path(), func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		name := strings.TrimPrefix(p, w.env.Path())
		switch {
		case i.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			out[name] = "link to " + l
		case i.IsDir():
			out[name] = fmt.Sprintf("directory %v", i.Mode())
		default:
			b, _ := os.ReadFile(p)
			out[name] = fmt.Sprintf("%v %s", i.Mode(), b)
		}
		return nil
	})
	return out
}

// changes are the files that differ, except for one.
func changes(a, b map[string]string, except string) string {
	var out []string
	for k, v := range a {
		if k == except {
			continue
		}
		if n, ok := b[k]; !ok {
			out = append(out, k+" is gone")
		} else if n != v {
			out = append(out, fmt.Sprintf("%s: %.200q was %.200q", k, n, v))
		}
	}
	for k, v := range b {
		if _, ok := a[k]; !ok && k != except {
			out = append(out, fmt.Sprintf("%s is new: %.200q", k, v))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

// score is a text and how far it gets.
func (w *fileWorld) score() (text string, stage sut.Stage) {
	switch w.r.Intn(5) {
	case 0, 1:
		text = []string{"piano: c d e", "violin: o4 c8 d e (volume 40) f | g1\ncello: o2 c1~1", "piano: V1: c V2: e V0: g", "x = c d\npiano: x*3 {c d e}2", "(tempo! 90)\nguitar \"g\": [c d']*2", ""}[w.r.Intn(6)]
		if w.r.Intn(3) == 0 {
			text = "piano: " + strings.Repeat("c8 d e f g | ", 20+w.r.Intn(2000))
		}
	case 2:
		g := &lang.Gen{R: w.r, F: lang.All()}
		text = lang.Plain(g.Valid())
	case 3:
		text = []string{"piano: c d e )", "piano: \"", "piano: (", "1!", "piano: c d e [", "piano: c/", "piano: {c d", "piano: %", "piano: c ⌘"}[w.r.Intn(9)]
	default:
		text = []string{"nothing: c", "piano: x", "piano: @m", "piano: (nothing 1)", "piano: o9 c4 o99 c", "piano: (volume \"x\")", "piano \"a\":\nviolin \"a\": c", "piano: (key-signature \"zz\")"}[w.r.Intn(8)]
	}
	if strings.Contains(text, "\x00") {
		text = "piano: c"
	}
	return text, sut.Compile(text).Stage
}

// input passes a text to a command: ok says whether it gets there.
func (w *fileWorld) input(text string, stdin bool) (args []string, cmd clix.Cmd, ok bool) {
	r := w.r
	switch k := r.Intn(12); {
	case k == 0:
		return []string{"-f", []string{"missing.alda", "no/such/dir.alda", ".", w.env.Path(), "in/loop"}[r.Intn(5)]}, clix.Cmd{NoStdin: true}, false
	case k == 1 && w.nobody:
		return []string{"--file", "in/secret.alda"}, clix.Cmd{NoStdin: true}, false
	case k < 5 && stdin && text != "":
		return []string{[]string{"-c", "--code"}[r.Intn(2)], text}, clix.Cmd{NoStdin: r.Intn(2) == 0}, len(text) < 100000
	case k < 8 && stdin:
		return nil, clix.Cmd{Stdin: []byte(text)}, true
	}
	name := []string{"in/score.alda", "in/a score.txt", "in/ünï"}[r.Intn(3)]
	os.WriteFile(w.env.Path(name), []byte(text), 0o644)
	if r.Intn(2) == 0 {
		name = w.env.Path(name)
	}
	return []string{[]string{"-f", "--file"}[r.Intn(2)], name}, clix.Cmd{NoStdin: true}, true
}

// output chooses where the output goes; ok says whether that is possible.
func (w *fileWorld) output() (name string, ok bool, kind string) {
	r := w.r
	old := []byte("old content of the file\n" + strings.Repeat("x", r.Intn(3000)))
	kinds := []string{"new", "existing", "existing", "existing", "link", "dangling link", "directory", "missing directory", "loop", "/dev/full", "/dev/null"}
	if w.nobody {
		kinds = append(kinds, "read-only", "read-only", "read-only directory", "file in a read-only directory", "somebody else's")
	}
	kind = kinds[r.Intn(len(kinds))]
	mode := []os.FileMode{0o644, 0o600, 0o664, 0o640, 0o755}[r.Intn(5)]
	write := func(name string, mode os.FileMode) {
		p := w.env.Path(name)
		os.WriteFile(p, old, mode)
		os.Chmod(p, mode)
		if w.nobody {
			os.Chown(p, 65534, 65534)
		}
	}
	switch kind {
	case "new":
		name, ok = []string{"out.x", "sub/out.x", "a new file"}[r.Intn(3)], true
	case "existing":
		name, ok = "sub/old", true
		write(name, mode)
	case "link":
		write("sub/old", mode)
		os.Symlink("sub/old", w.env.Path("link"))
		name, ok = "link", true
	case "dangling link":
		os.Symlink("sub/new", w.env.Path("dangling"))
		name, ok = "dangling", true
	case "directory":
		name = "sub"
	case "missing directory":
		name = "sub/nothing/out"
	case "loop":
		name = "in/loop"
	case "/dev/full":
		name = kind
	case "/dev/null":
		name, ok = kind, true
	case "read-only":
		name = "sub/ro"
		write(name, 0o444)
	case "read-only directory":
		name = "fixed/new"
	case "file in a read-only directory":
		write("fixed/old", mode|0o600)
		name, ok = "fixed/old", true
	case "somebody else's":
		write("sub/theirs", 0o644)
		os.Chown(w.env.Path("sub/theirs"), 0, 0)
		name = "sub/theirs"
	}
	if r.Intn(3) == 0 && !strings.HasPrefix(name, "/") {
		name = w.env.Path(name)
	}
	return
}

func formatOutput(text string, opts ...interface{}) ([]byte, bool) {
	ast, err := parser.ParseString(text)
	if err != nil {
		return nil, false
	}
	var b bytes.Buffer
	switch len(opts) {
	case 0:
		err = parser.FormatASTToCode(ast, &b)
	case 1:
		err = parser.FormatASTToCode(ast, &b, parser.ConfigureSoftWrapLen(opts[0].(int)))
	case 2:
		err = parser.FormatASTToCode(ast, &b, parser.ConfigureIndentText(opts[1].(string)))
		if opts[0].(int) > 0 {
			b.Reset()
			err = parser.FormatASTToCode(ast, &b, parser.ConfigureSoftWrapLen(opts[0].(int)), parser.ConfigureIndentText(opts[1].(string)))
		}
	}
	return b.Bytes(), err == nil
}

const smallXML = `<?xml version="1.0" encoding="UTF-8"?>
<score-partwise version="3.1"><part-list><score-part id="P1"><part-name>Music</part-name></score-part></part-list>
<part id="P1"><measure number="1"><attributes><divisions>1</divisions><key><fifths>0</fifths></key><time><beats>4</beats><beat-type>4</beat-type></time><clef><sign>G</sign><line>2</line></clef></attributes>%s</measure></part></score-partwise>`

func (w *fileWorld) xml() string {
	notes := ""
	for n := 1 + w.r.Intn(300); n > 0; n-- {
		notes += fmt.Sprintf("<note><pitch><step>%c</step><octave>%d</octave></pitch><duration>%d</duration><voice>1</voice><type>quarter</type></note>\n", 'A'+w.r.Intn(7), 2+w.r.Intn(5), 1+w.r.Intn(4))
	}
	s := fmt.Sprintf(smallXML, notes)
	switch w.r.Intn(6) {
	case 0:
		return s[:w.r.Intn(len(s)-20)]
	case 1:
		return []string{"not xml", "", "<a/>", "<a><b></a>", "<score-timewise/>"}[w.r.Intn(5)]
	}
	return s
}

// task makes up a command.
func (w *fileWorld) task() (t task) {
	r := w.r
	verb := func() {
		if t.kind != "mistake" && t.kind != "help" && r.Intn(4) == 0 {
			t.cmd.Args = append(t.cmd.Args, []string{"-v0", "-v", "--verbosity=3", "-v2"}[r.Intn(4)])
			if t.cmd.Args[len(t.cmd.Args)-1] == "-v" {
				t.cmd.Args = append(t.cmd.Args, fmt.Sprint(r.Intn(4)))
			}
		}
	}
	defer verb()
	text, stage := w.score()
	switch k := r.Intn(20); {
	case k < 3: // parse
		args, cmd, ok := w.input(text, true)
		typ := []string{"ast", "ast-human", "events", "data", ""}[r.Intn(5)]
		t = task{cmd: cmd, kind: "parse"}
		t.cmd.Args = append([]string{"parse"}, args...)
		if typ != "" {
			t.cmd.Args = append(t.cmd.Args, "-o", typ)
		}
		limit := map[string]sut.Stage{"ast": sut.SyntaxError, "ast-human": sut.SyntaxError, "events": sut.ASTError, "data": sut.ScoreError, "": sut.ScoreError}[typ]
		t.ok = ok && (stage == sut.OK || stage > limit)
		t.outOK = func(s string) bool {
			return typ == "ast-human" && strings.TrimSpace(s) != "" || json.Valid([]byte(s))
		}
		if !t.ok {
			t.outOK = nil
		}
	case k < 4: // simple ones
		t.ok = true
		switch r.Intn(4) {
		case 0:
			t.cmd.Args, t.out = []string{"version"}, "alda "+generated.ClientVersion+"\n"
		case 1:
			t.cmd.Args, t.out = []string{"instruments"}, strings.Join(model.InstrumentsList(), "\n")+"\n"
		case 2:
			t.cmd.Args, t.outOK = []string{"ps"}, func(s string) bool { return strings.HasPrefix(s, "id\t") }
		default:
			t.cmd.Args = [][]string{{"help"}, {"--help"}, {"help", "play"}, {"play", "-h"}, {"export", "--help"}, {}, {"repl", "--help"}}[r.Intn(7)]
			t.outOK = func(s string) bool { return strings.Contains(s, "Usage:") }
			// (The library that prints help reports that it can't, but succeeds.
			// And it takes the 1 of "--help -v 1" for a command.)
			t.kind = "help"
			return
		}
		t.kind = "simple"
	case k < 7: // mistakes
		t = task{kind: "mistake"}
		w.file("sub/score.alda", "piano:   c   d\n")
		list := [][]string{
			{"nothing"}, {"--nothing"}, {"play", "--nothing"}, {"play", "-f"}, {"parse", "-c"}, {"version", "-v", "4"}, {"version", "-v", "-1"}, {"version", "-v", "x"}, {"-v9", "instruments"},
			{"parse", "-c", "piano: c", "-o", "nothing"}, {"parse", "-c", "piano: c", "-o", ""}, {"export", "-c", "piano: c", "-O", "wav", "-o", "sub/score.alda"},
			{"import", "-i", "midi", "-c", fmt.Sprintf(smallXML, ""), "-o", "sub/score.alda"}, {"import", "-c", fmt.Sprintf(smallXML, ""), "-o", "sub/score.alda"},
			{"format", "-f", "sub/score.alda", "-o", "-w", "-5"}, {"format", "-f", "sub/score.alda", "-o", "-w", "x"}, {"format", "-o"}, {"format"},
			{"format", "-f", "sub/score.alda", "-o", "--nothing"}, {"format", "-f", "", "-o"}, {"export", "-c", "piano: c", "-o"},
			{"repl", "--nothing"}, {"stop", "--port", "x"}, {"shutdown", "-p"}, {"telemetry", "--nothing"}, {"update", "--nothing"}, {"plya", "-c", "piano: c"}, {"play", "-c", "piano: c", "-p", "x"},
			{"parse"}, {"export"}, {"import", "-i", "musicxml"}, {"play", "-F", "0:01", "-c"},
		}
		t.cmd.Args, t.cmd.NoStdin = list[r.Intn(len(list))], true
	case k < 12: // format
		opts := []interface{}{}
		var extra []string
		switch r.Intn(4) {
		case 0:
			n := 1 + r.Intn(120)
			opts, extra = append(opts, n), []string{"-w", fmt.Sprint(n)}
		case 1:
			n, in := r.Intn(2)*(1+r.Intn(120)), []string{"    ", "\t", " "}[r.Intn(3)]
			opts, extra = append(opts, n, in), []string{"--wrap", fmt.Sprint(n), "--indent", in}
		}
		want, can := formatOutput(text, opts...)
		if r.Intn(3) == 0 {
			args, cmd, ok := w.input(text, false)
			t = task{cmd: cmd, kind: "format", ok: ok && can, out: string(want)}
			t.cmd.Args = append(append([]string{"format"}, args...), extra...)
			if !t.ok {
				t.out = ""
			}
			return
		}
		name, ok, kind := w.output()
		t = task{kind: "format -o: " + kind, target: name, want: want}
		switch kind {
		case "existing", "link", "read-only", "file in a read-only directory", "somebody else's":
			p := name
			if !filepath.IsAbs(p) {
				p = w.env.Path(p)
			}
			i, _ := os.Stat(p)
			os.WriteFile(p, []byte(text), 0o644) // as root; the mode stays
			_ = i
			t.ok = ok && can
		default: // no score to format
			if kind == "/dev/full" || kind == "/dev/null" {
				t.target, t.kind = "sub/none.alda", "format -o: new"
			}
		}
		t.cmd = clix.Cmd{Args: append([]string{"format", "-o", "-f", t.target}, extra...), NoStdin: true}
	case k < 16: // import
		x := w.xml()
		code, err := importXML(x)
		want, can := []byte(code), err == nil
		args, cmd, ok := w.input(x, true)
		t = task{cmd: cmd, kind: "import", ok: ok && can, want: want}
		t.cmd.Args = append(append([]string{"import"}, args...), "-i", "musicxml")
		if r.Intn(3) == 0 {
			if t.ok {
				t.out = string(want)
			}
			return
		}
		name, ok, kind := w.output()
		t.ok, t.target, t.kind = t.ok && ok, name, "import -o: "+kind
		t.cmd.Args = append(t.cmd.Args, []string{"-o", "--output"}[r.Intn(2)], name)
	default: // export
		args, cmd, ok := w.input(text, true)
		t = task{cmd: cmd, kind: "export", ok: ok && stage == sut.OK, export: true}
		t.cmd.Args = append([]string{"export"}, args...)
		if t.ok && r.Intn(5) == 0 {
			t.cmd.Args, t.ok = append(t.cmd.Args, []string{"--from", "--to"}[r.Intn(2)], []string{"nowhere", "1:xx", "no marker"}[r.Intn(3)]), false
		}
		if r.Intn(3) == 0 {
			return
		}
		name, ok, kind := w.output()
		t.ok, t.target, t.kind = t.ok && ok, name, "export -o: "+kind
		t.cmd.Args = append(t.cmd.Args, []string{"-o", "--output"}[r.Intn(2)], name)
	}
	return
}

func (w *fileWorld) file(name, content string) {
	os.WriteFile(w.env.Path(name), []byte(content), 0o644)
	if w.nobody {
		os.Chown(w.env.Path(name), 65534, 65534)
	}
}

// exported is what the player that was asked has written.
func (w *fileWorld) exported() map[string]bool {
	out := map[string]bool{}
	for _, s := range w.pool.Stubs() {
		for _, k := range s.Packets() {
			for _, m := range k.Msgs {
				if m.Addr == "/system/midi/export" {
					out[string(replx.ExportData(s.ID))] = true
				}
			}
		}
	}
	return out
}

func (w *fileWorld) do(t task, fault *clix.Fault, kill time.Duration, fsize int, stdout string) bool {
	c := w.c
	path := t.target
	if path != "" && !filepath.IsAbs(path) {
		path = w.env.Path(path)
	}
	old, oldErr := []byte(nil), error(os.ErrNotExist)
	var oldMode os.FileMode
	real := path
	if path != "" && !strings.HasPrefix(path, "/dev/") {
		if p, err := filepath.EvalSymlinks(path); err == nil {
			real = p
		} else if l, err := os.Readlink(path); err == nil {
			real = w.env.Path(l)
		}
		old, oldErr = os.ReadFile(real)
		if i, err := os.Stat(real); err == nil {
			oldMode = i.Mode()
		}
	}
	before := w.snapshot()
	cmd := t.cmd
	cmd.Fault, cmd.KillAt, cmd.Limit = fault, kill, 150*time.Second
	if fsize > 0 {
		cmd.Prefix = append(cmd.Prefix, "/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", fsize))
	}
	switch stdout {
	case "/dev/full":
		f, err := os.OpenFile(stdout, os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	case "closed pipe":
		a, b, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		a.Close()
		defer b.Close()
		cmd.Stdout = b
	}
	res := w.env.Run(cmd)
	w.note("%s (kind %q, possible %v, target %q, kill %v, file size limit %d, stdout %q, fault %v)", res, t.kind, t.ok, t.target, kill, fsize, stdout, fault)
	c.Count("commands run", 1)
	c.Count("commands: "+strings.SplitN(t.kind, " ", 2)[0], 1)
	killed := (kill > 0 || fault != nil && fault.Error == "") && res.Signal == "killed"
	if fault != nil && fault.Runtime {
		c.Count("faults in the Go runtime itself", 1)
		killed = true
	}
	broken := stdout == "closed pipe" && res.Signal == "broken pipe"
	disturbed := fault != nil && fault.Hit || fsize > 0
	noMessages := fault != nil && strings.Contains(fault.Calls, "write")
	if !killed && !broken {
		if p := res.Crashed(); p != "" {
			return w.fail("alda %q %s", cmd.Args, p)
		}
		if res.Exit != 0 && strings.TrimSpace(res.Err) == "" && !noMessages {
			return w.fail("alda %q fails without a message", cmd.Args)
		}
	}
	c.Eval()
	// The output file.
	after := w.snapshot()
	inFixed := strings.Contains(t.kind, "file in a read-only directory")
	isNew := false
	if path != "" && !strings.HasPrefix(path, "/dev/") {
		now, err := os.ReadFile(real)
		isOld := err != nil && oldErr != nil || err == nil && oldErr == nil && bytes.Equal(now, old)
		if err == nil {
			if t.export {
				isNew = w.exported()[string(now)]
			} else {
				isNew = bytes.Equal(now, t.want)
			}
		}
		same := isNew && isOld // formatting may change nothing
		if !isOld && !isNew {
			if !(inFixed && (killed || disturbed)) { // the file can't be replaced there
				return w.fail("alda %q leaves a damaged file %s: %d bytes (error %v); it had %d, and should get %d: %.300q", cmd.Args, t.target, len(now), err, len(old), len(t.want), now)
			}
		}
		if isNew && !same && !t.ok {
			return w.fail("alda %q has written %s although it can't be done", cmd.Args, t.target)
		}
		if isNew && oldErr == nil {
			if i, err := os.Stat(real); err != nil || i.Mode() != oldMode {
				return w.fail("alda %q has changed the mode of %s from %v to %v", cmd.Args, t.target, oldMode, i.Mode())
			}
		}
		if !killed && !broken {
			if res.Exit == 0 && !isNew {
				return w.fail("alda %q succeeds, but %s hasn't been written", cmd.Args, t.target)
			}
			if res.Exit != 0 && isNew && !same && stdout == "" && !noMessages {
				return w.fail("alda %q fails, but has written %s", cmd.Args, t.target)
			}
		}
		c.Count("output files judged", 1)
		if isNew && !same {
			c.Count("output files written", 1)
		} else if oldErr == nil && res.Exit != 0 {
			c.Count("existing output files left alone", 1)
		}
	}
	// Other files.
	unlinks := fault != nil && strings.Contains(fault.Log, "unlink") && fault.Error != ""
	if !killed && !unlinks {
		if d := changes(before, after, strings.TrimPrefix(real, w.env.Path())); d != "" {
			return w.fail("alda %q has changed other files: %s", cmd.Args, d)
		}
	} else {
		for k, v := range before {
			if k != strings.TrimPrefix(real, w.env.Path()) && after[k] != v && !strings.HasPrefix(v, "directory") {
				return w.fail("alda %q has changed another file, %s", cmd.Args, k)
			}
		}
	}
	switch {
	case killed:
		c.Count("commands killed", 1)
		return true
	case t.kind == "help" && stdout != "":
		return true
	case stdout != "" && t.ok && t.target == "":
		c.Count("commands whose output can't be written", 1)
		if res.Exit == 0 && res.Signal == "" {
			return w.fail("alda %q succeeds although its output can't be written", cmd.Args)
		}
		return true
	case disturbed:
		c.Count("commands with a failing system call", 1)
		if res.Exit == 0 && t.target == "" && t.ok && t.kind != "help" && !w.output1(t, res) && fsize == 0 {
			return w.fail("alda %q succeeds, but its output is wrong", cmd.Args)
		}
		if !t.ok && res.Exit == 0 {
			return w.fail("alda %q succeeds although it can't be done", cmd.Args)
		}
		return true
	}
	if (res.Exit == 0) != t.ok && !broken {
		return w.fail("alda %q: exit %d, but possible is %v", cmd.Args, res.Exit, t.ok)
	}
	if t.ok {
		c.Count("commands that succeed", 1)
		if t.target == "" && stdout == "" && !w.output1(t, res) {
			return w.fail("alda %q: wrong output", cmd.Args)
		}
	} else {
		c.Count("commands that fail", 1)
		if t.target == "" && strings.TrimSpace(res.Out) != "" && t.kind != "mistake" && t.kind != "export" {
			return w.fail("alda %q fails, but writes to standard output", cmd.Args)
		}
	}
	return true
}

// output1 checks what went to standard output.
func (w *fileWorld) output1(t task, res *clix.Result) bool {
	switch {
	case t.export:
		return w.exported()[res.Out]
	case t.outOK != nil:
		return t.outOK(res.Out)
	}
	return res.Out == t.out
}

func c25Case(c *fw.Ctx, i int) {
	w := &fileWorld{world: newWorld(c, 2)}
	defer w.close()
	r := w.r
	os.MkdirAll(w.env.Path("in"), 0o755)
	os.MkdirAll(w.env.Path("sub"), 0o755)
	os.MkdirAll(w.env.Path("fixed"), 0o755)
	os.Symlink("loop", w.env.Path("in", "loop"))
	os.WriteFile(w.env.Path("in", "secret.alda"), []byte("piano: c"), 0o600)
	// The first command tells about telemetry.
	if i%4 == 1 {
		w.nobody = true
		w.readOnly()
		for _, d := range []string{"in", "sub"} {
			os.Chmod(w.env.Path(d), 0o777)
		}
		os.Chmod(w.env.Path(), 0o777)
		for _, d := range []string{"tmp", "config", "cache", "home"} {
			filepath.Walk(filepath.Join(w.env.Dir, d), func(p string, _ os.FileInfo, err error) error {
				if err == nil {
					os.Chmod(p, 0o777)
				}
				return nil
			})
		}
	}
	if w.env.Run(clix.Cmd{Args: []string{"telemetry", "--disable"}}).Exit != 0 {
		c.Fail("", "telemetry --disable fails")
		return
	}
	w.pool.Start()
	if i%60 == 7 {
		w.c25Stuck()
		return
	}
	for n := 0; n < 6; n++ {
		for _, f := range []string{"link", "dangling", "sub/old", "sub/new", "sub/ro", "sub/theirs", "sub/out.x", "out.x", "a new file", "fixed/old", "fixed/new"} {
			os.Remove(w.env.Path(f))
		}
		t := w.task()
		if len(t.cmd.Args) == 2 && len(t.cmd.Args[1]) > 100000 {
			continue
		}
		stdout, fsize := "", 0
		var kill time.Duration
		var fault *clix.Fault
		switch r.Intn(8) {
		case 0:
			if t.kind != "mistake" && t.kind != "simple" || t.kind == "simple" && t.out != "" {
				stdout = []string{"/dev/full", "/dev/full", "closed pipe"}[r.Intn(3)]
				if t.ok && t.out == "" && t.outOK == nil && t.target == "" && !t.export {
					stdout = "" // there is nothing to write
				}
			}
		case 1:
			kill = time.Duration(1+r.Intn(60)) * time.Millisecond
		case 2:
			if len(t.want) > 1 && !t.export && !w.nobody {
				fsize = 1 + r.Intn(len(t.want)-1)
			}
		case 3, 4:
			if !w.nobody {
				fault = &clix.Fault{Calls: clix.Changing + ",write,pwrite64", When: 1 + r.Intn(6)}
				if r.Intn(2) == 0 {
					fault.Calls = []string{"rename,renameat,renameat2", "unlink,unlinkat", clix.Changing, "write,pwrite64"}[r.Intn(4)]
					fault.When = 1 + r.Intn(3)
				}
				if r.Intn(2) == 0 {
					fault.Error = []string{"ENOSPC", "EIO", "EACCES", "EDQUOT"}[r.Intn(4)]
				}
			}
		}
		if !w.do(t, fault, kill, fsize, stdout) {
			return
		}
	}
	c.Nontrivial(strings.Join(w.log, "\n"))
}

// c25Stuck exports with players that never (completely) do what they are asked.
func (w *fileWorld) c25Stuck() {
	how := []string{"nothing", "half", "garbage", "no player"}[w.r.Intn(4)]
	w.note("players write: %s", how)
	if how == "no player" {
		w.pool.SetKeep(0)
		for _, s := range w.pool.Stubs() {
			s.Die(true)
		}
	}
	for _, s := range w.pool.Stubs() {
		s := s
		s.OnExport = func(path string) {
			switch d := replx.ExportData(s.ID); how {
			case "half":
				os.WriteFile(path, d[:len(d)/2], 0o644)
			case "garbage":
				os.WriteFile(path, []byte("garbage"), 0o644)
			}
		}
	}
	w.pool.SetKeep(0)
	name := "sub/old"
	w.file(name, "what was there")
	t := task{cmd: clix.Cmd{Args: []string{"export", "-c", "piano: c d", "-o", name}, NoStdin: true}, kind: "export -o: existing", target: name, export: true}
	if w.do(t, nil, 0, 0, "") {
		w.c.Count("exports with a player that fails", 1)
		w.c.Nontrivial(strings.Join(w.log, "\n"))
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C25", Quick: 240, Thorough: 8000, MinNontrivialPct: 8, Workers: 16, CaseWall: 400 * time.Second,
		Rule:        "Sequences of real alda commands (parse, format, import, export, version, instruments, ps, help and mistaken command lines) over valid, invalid, missing and unreadable inputs and all kinds of output targets, undisturbed or with full devices, file size limits, failing system calls and kills: the exit status says whether it was done, failures come with a message and without a crash, the output file is the complete new content or untouched (with its mode), no other file changes.",
		Need:        []string{"output files written", "existing output files left alone", "commands killed", "commands whose output can't be written", "commands with a failing system call", "commands that succeed", "commands that fail", "exports with a player that fails"},
		Assumptions: []string{"A command whose error output itself can't be written need not report anything.", "In a directory in which the user may not create files, an existing output file is overwritten in place and can be damaged by a crash in that moment.", "A killed command may leave a temporary file behind."},
		Case:        c25Case})
}
