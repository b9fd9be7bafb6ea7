package checks

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"alda.io/client/transmitter"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

var pointer = regexp.MustCompile(`0x[0-9a-f]+`)

// anon replaces the ids of parts in a score document by their track numbers.
func anon(doc string, ids map[string]int) string {
	v, err := strictJSON(doc)
	if err != nil {
		return "invalid: " + err.Error()
	}
	var norm func(v interface{}) interface{}
	norm = func(v interface{}) interface{} {
		switch x := v.(type) {
		case obj:
			out := obj{}
			for k, e := range x {
				if t, ok := ids[k]; ok {
					k = fmt.Sprintf("part %03d", t)
				}
				out[k] = norm(e)
			}
			return out
		case []interface{}:
			out := []interface{}{}
			for _, e := range x {
				out = append(out, norm(e))
			}
			return out
		case string:
			if t, ok := ids[x]; ok {
				return fmt.Sprintf("part %03d", t)
			}
		}
		return v
	}
	return fmt.Sprint(norm(v))
}

// outputs is everything that comes of a text, by name.
func outputs(text string) (m map[string]string, res sut.Result) {
	m = map[string]string{}
	defer func() {
		if x := recover(); x != nil {
			m["crash"] = fmt.Sprint(x)
		}
	}()
	res = sut.Compile(text)
	m["outcome"] = res.Stage.String()
	if res.Err != nil {
		m["error"] = pointer.ReplaceAllString(res.Err.Error(), "0x")
	}
	if res.Stage == sut.SyntaxError || res.Stage == sut.Panicked {
		return
	}
	m["tree"] = res.AST.JSON().String()
	if f, err := formatted(res.AST, 0, nil); err != nil {
		m["formatted"] = "error: " + err.Error()
	} else {
		m["formatted"] = f
	}
	if res.Stage == sut.ASTError {
		return
	}
	m["events"] = updatesJSON(res.Updates)
	if t, err := generate(res.Updates); err != nil {
		m["generated tree"] = "error: " + err.Error()
	} else {
		m["generated tree"] = t.JSON().String()
	}
	if res.Stage != sut.OK {
		return
	}
	ids := map[string]int{}
	for p, t := range res.Score.Tracks() {
		ids[p.ID()] = int(t)
	}
	m["score"] = anon(res.Score.JSON().String(), ids)
	evs, err := sut.Events(res.Score)
	var b strings.Builder
	for _, e := range evs {
		fmt.Fprintf(&b, "%d %d %d %x %x %x %x %x %x\n", e.Track, e.Channel, e.Note, e.Offset, e.Dur, e.Audible, e.Vol, e.TVol, e.Pan)
	}
	m["notes"] = fmt.Sprint(b.String(), err)
	if tooLong(evs) {
		return
	}
	msgs, err := bundleOf(res.Score, transmitter.OneOff())
	m["messages"] = fmt.Sprint(msgs, err)
	return
}

func compareOutputs(a, b map[string]string) string {
	for _, k := range []string{"crash", "outcome", "error", "tree", "formatted", "events", "generated tree", "score", "notes", "messages"} {
		if a[k] == b[k] {
			continue
		}
		x, y := a[k], b[k]
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		from := max(0, i-60)
		cut := func(s string) string { return s[min(from, len(s)):min(len(s), i+100)] }
		return fmt.Sprintf("%s differs:\n  ...%s\n  ...%s", k, cut(x), cut(y))
	}
	return ""
}

func repeatableText(c *fw.Ctx, i int) string {
	switch i % 10 {
	case 8:
		return exampleCut(c)
	case 9:
		f := lang.All()
		f.Sections, f.Len = 2, 6
		return tame(mutate(c.R, lang.Print((&lang.Gen{R: c.R, F: f}).Score(), lang.Layout{Rng: c.R, Bars: true, Tight: true})))
	case 7:
		return crowd(c)
	case 6: // refused for some reason that has to do with names
		var b strings.Builder
		inst := []string{"piano", "violin", "cello", "flute", "oboe", "foo", "bar", "baz", "foo.piano", "bar.violin"}
		for k := 0; k < 3+c.R.Intn(5); k++ {
			n := []string{inst[c.R.Intn(len(inst))]}
			for c.R.Intn(2) == 0 {
				n = append(n, inst[c.R.Intn(len(inst))])
			}
			b.WriteString(strings.Join(n, "/"))
			if c.R.Intn(2) == 0 {
				b.WriteString(` "` + []string{"foo", "bar", "baz", "qux"}[c.R.Intn(4)] + `"`)
			}
			b.WriteString(": c d\n")
		}
		return b.String()
	}
	f := lang.All()
	f.Odd = c.R.Intn(3) / 2 * 6
	f.Sections, f.Len = 3, 5
	f.MaxParts = 6
	if i%2 == 0 {
		f.MoreAttrs = 15
	}
	if i%3 == 0 {
		f.MoreVoices = 12
	}
	return lang.Print((&lang.Gen{R: c.R, F: f}).Score(), lang.Layout{Rng: c.R, Bars: true})
}

// command runs alda in a directory of its own.
func command(dir, in string, args ...string) (out, errs string, code int) {
	cmd := exec.Command(filepath.Join(fw.Root(), ".build", "bin", "alda"), args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=" + os.Getenv("PATH"), "ALDA_DISABLE_SPAWNING=yes", "ALDA_DISABLE_TELEMETRY=yes", "HOME=" + dir, "XDG_CACHE_HOME=" + dir + "/cache", "XDG_CONFIG_HOME=" + dir + "/config", "NO_COLOR=1"}
	var o, e bytes.Buffer
	cmd.Stdin = strings.NewReader(in)
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	code = 0
	if err != nil {
		code = -1
		if x, ok := err.(*exec.ExitError); ok {
			code = x.ExitCode()
		}
	}
	return o.String(), e.String(), code
}

// Cold compiles different texts at the same time as the very first thing this
// process does, then compares with compiling them one after another.
func Cold(seed int64) int {
	r := rand.New(rand.NewSource(seed))
	texts := make([]string, 12)
	c := &fw.Ctx{R: r}
	for k := range texts {
		if k%4 == 0 {
			var b strings.Builder
			for _, i := range r.Perm(len(lang.Pool))[:4] {
				fmt.Fprintf(&b, "%s: (key-sig '(%c major)) o%d c d e\n", lang.Pool[i], "abcdefg"[r.Intn(7)], 2+r.Intn(4))
			}
			texts[k] = b.String()
			continue
		}
		texts[k] = repeatableText(c, k)
	}
	got := make([]map[string]string, 2*len(texts))
	start := make(chan bool)
	var wg sync.WaitGroup
	for k := range got {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			<-start
			got[k], _ = outputs(texts[k%len(texts)])
		}(k)
	}
	close(start)
	wg.Wait()
	for k := range got {
		want, _ := outputs(texts[k%len(texts)])
		if d := compareOutputs(want, got[k]); d != "" {
			fmt.Printf("%s\n%s\n", d, texts[k%len(texts)])
			return 1
		}
	}
	return 0
}

func coldProcess(c *fw.Ctx) {
	exe, err := os.Executable()
	if err != nil {
		return
	}
	cmd := exec.Command(exe, "cold", fmt.Sprint(c.R.Int63()))
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=66")
	out, err := cmd.CombinedOutput()
	c.Count("processes started with everything at once", 1)
	if err != nil {
		if len(out) > 6000 {
			out = out[:6000]
		}
		c.Fail(strings.Join(cmd.Args[1:], " "), "texts compiled at the same time by a fresh process: %v\n%s", err, out)
	}
}

func importAgain(xml string) string {
	code, err := importXML(xml)
	return fmt.Sprint(code, "\n", err)
}

func init() {
	fw.Register(&fw.Check{
		ID: "C27", Quick: 240, Thorough: 40000, MinNontrivialPct: 30, Race: true, Need: []string{"imports repeated", "processes compared", "processes started with everything at once"},
		Rule: "groups of 4 texts (whole-language scores, crowded scores, scores with conflicting names, mutants, pieces of the examples), each compiled, formatted, encoded as JSON (tree, events, score), turned back into a tree and transmitted: twice one after another, and again all at once from 8 goroutines of a binary built with the race detector; everything must come out identical (part ids replaced by track numbers). A MusicXML document is imported repeatedly and concurrently. Every 12th group a fresh process of that binary compiles 12 texts twice each at once before anything else. Every 60th group also through two fresh alda processes. Non-trivial: an accepted score with at least 10 notes in the group.",
		Case: func(c *fw.Ctx, i int) {
			texts := make([]string, 4)
			first := make([]map[string]string, len(texts))
			rich := false
			for k := range texts {
				texts[k] = repeatableText(c, i*4+k+c.R.Intn(10))
				var r sut.Result
				first[k], r = outputs(texts[k])
				c.Count("outcome: "+first[k]["outcome"], 1)
				if r.Stage == sut.OK && len(r.Score.Events) >= 10 {
					rich = true
				}
				for n := 0; n < 1; n++ {
					again, _ := outputs(texts[k])
					c.Count("repeated", 1)
					if d := compareOutputs(first[k], again); d != "" {
						small := shrinkText(texts[k], func(t string) bool {
							a, _ := outputs(t)
							for q := 0; q < 6; q++ {
								b, _ := outputs(t)
								if compareOutputs(a, b) != "" {
									return true
								}
							}
							return false
						}, 200)
						c.Fail(small, "the same text again: %s", d)
						return
					}
				}
			}
			c.Eval()
			if rich {
				c.Nontrivial(strings.Join(texts, "\n"))
				if i%40 == 0 {
					c.Sample(obj{"texts": texts[:2]})
				}
			}
			var wg sync.WaitGroup
			// A MusicXML document (valid or not) is imported again and again, too.
			g := &xGen{r: c.R, count: map[string]int{}}
			xml := g.doc().print(c.R)
			for n := 0; len(xml) > 6000 && n < 20; n++ { // (importing takes quadratic time)
				xml = g.doc().print(c.R)
			}
			if c.R.Intn(4) == 0 {
				xml = spoilXML(c.R, xml, func(string) {})
			}
			xml1 := importAgain(xml)
			imports := make([]string, 6)
			for k := range imports {
				if k < 2 {
					imports[k] = importAgain(xml)
					continue
				}
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					imports[k] = importAgain(xml)
				}(k)
			}
			got := make([]map[string]string, 2*len(texts))
			for k := range got {
				wg.Add(1)
				go func(k int) {
					defer wg.Done()
					got[k], _ = outputs(texts[k%len(texts)])
				}(k)
			}
			wg.Wait()
			for k := range imports {
				c.Count("imports repeated", 1)
				if imports[k] != xml1 {
					c.Fail(xml, "imported again (%d), the same document becomes\n%s\ninstead of\n%s", k, imports[k], xml1)
					return
				}
			}
			for k := range got {
				c.Count("concurrent", 1)
				if d := compareOutputs(first[k%len(texts)], got[k]); d != "" {
					c.Fail(strings.Join(texts, "\n=====\n"), "text %d, at the same time as others: %s", k%len(texts)+1, d)
					return
				}
			}
			if i%12 == 5 {
				coldProcess(c)
			}
			if i%60 != 0 {
				return
			}
			dir, err := os.MkdirTemp(fw.Scratch(), "same")
			if err != nil {
				return
			}
			defer os.RemoveAll(dir)
			for k, text := range texts {
				os.WriteFile(filepath.Join(dir, "score.alda"), []byte(text), 0o644)
				for _, args := range [][]string{{"parse", "-o", "ast", "-f", "score.alda"}, {"parse", "-o", "events", "-f", "score.alda"}, {"parse", "-o", "data", "-f", "score.alda"}, {"format", "-f", "score.alda"}} {
					var last string
					for n := 0; n < 2; n++ {
						out, _, code := command(dir, "", args...)
						if args[2] == "data" && code == 0 {
							out = orderIDs(out)
						}
						out = fmt.Sprint(code, "\n", out)
						if n > 0 && out != last {
							c.Fail(text, "alda %s prints something else in another process", strings.Join(args, " "))
							return
						}
						last = out
						c.Count("processes compared", 1)
					}
					want, ok := map[string]string{"parse ast": first[k]["tree"], "parse events": first[k]["events"], "format": first[k]["formatted"]}[strings.TrimSuffix(args[0]+" "+strings.TrimPrefix(args[2], "score.alda"), " ")]
					if ok && strings.HasPrefix(last, "0\n") && strings.TrimSpace(strings.TrimPrefix(last, "0\n")) != strings.TrimSpace(want) {
						c.Fail(text, "alda %s prints something else than the same code in this process", strings.Join(args, " "))
						return
					}
				}
			}
		},
	})
}

// orderIDs numbers the parts of a score document in the order their events come
// in, which is the only order the document has.
func orderIDs(doc string) string {
	v, err := strictJSON(doc)
	if err != nil {
		return doc
	}
	ids := map[string]int{}
	evs, _ := field(v, "events").([]interface{})
	for _, e := range evs {
		id := fmt.Sprint(field(e, "part"))
		if ids[id] == 0 {
			ids[id] = len(ids) + 1
		}
	}
	parts, _ := field(v, "parts").(obj)
	var rest []string
	for id := range parts {
		if ids[id] == 0 {
			rest = append(rest, fmt.Sprint(parts[id])+"\x00"+id)
		}
	}
	sortStrings(rest)
	for _, r := range rest {
		ids[r[strings.Index(r, "\x00")+1:]] = len(ids) + 1
	}
	return anon(doc, ids)
}
