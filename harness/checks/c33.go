package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"alda.io/client/generated"

	"verif/clix"
	"verif/fw"
	"verif/lang"
	"verif/replx"
)

// What the log of a server in the same process looks like.
var logLine = regexp.MustCompile(`(?m)^[A-Z][a-z]{2} [ \d]\d \d\d:\d\d:\d\d [A-Z]{3} .*\n`)

// tell types lines, and returns what the client shows, less the log.
func (s *session) tell(lines string) (string, bool) {
	s.history = append(s.history, "alda> "+strings.ReplaceAll(lines, "\n", "\nalda> "))
	out, err := s.term.Type(lines, replyTimeout)
	out = logLine.ReplaceAllString(out, "")
	if out != "" {
		s.history = append(s.history, "shown: "+out[:min(len(out), 400)])
	}
	if err != nil {
		return out, s.fail("%v; it showed:\n%s", err, out)
	}
	s.c.Count("lines typed", 1+strings.Count(lines, "\n"))
	return out, true
}

// shell quotes a word.
func (s *session) shell(w string) string {
	if !strings.ContainsAny(w, " '\"\\#") && s.c.R.Intn(2) == 0 {
		return w
	}
	if s.c.R.Intn(2) == 0 && !strings.Contains(w, "'") {
		return "'" + w + "'"
	}
	return `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(w) + `"`
}

// file names a file in the session's directory.
func (s *session) file(ext string) string {
	r := s.c.R
	name := []string{"score", "my score", "a'b", "é song", `q"t`, "x.y", "deep/er/f"}[r.Intn(7)] + fmt.Sprint(r.Intn(4)) + ext
	path := filepath.Join(s.env.Dir, "work", name)
	os.MkdirAll(filepath.Dir(path), 0o755)
	if r.Intn(2) == 0 {
		return name // the working directory of the client
	}
	return path
}

func (s *session) abs(name string) string {
	if filepath.IsAbs(name) {
		return name
	}
	return filepath.Join(s.env.Dir, "work", name)
}

// around adds blanks that don't matter.
func (s *session) around(line string) string {
	r := s.c.R
	if r.Intn(4) == 0 {
		line = strings.Repeat(" ", r.Intn(3)) + line + strings.Repeat(" ", r.Intn(3))
	}
	if r.Intn(8) == 0 {
		line = "\n" + line
	}
	return line
}

// typed makes a request by typing what stands for it, if there is something.
func (s *session) typed(req map[string]interface{}) (m map[string]interface{}, failed, handled, ok bool) {
	r := s.c.R
	if r.Intn(12) == 0 {
		s.c.Count("requests of another client", 1)
		return nil, false, false, false
	}
	code, isText := req["code"].(string)
	line, after := "", func(string) bool { return true }
	m = map[string]interface{}{"status": []interface{}{"done"}}
	silent := true
	keep := func(key string) func(string) bool {
		silent = false
		return func(out string) bool { m[key] = strings.TrimSuffix(out, "\n"); return true }
	}
	switch req["op"] {
	case "eval-and-play":
		line = strings.TrimSpace(code)
		if !isText || line == "" || strings.ContainsAny(line, "\n\r\t") || line[0] == ':' || line == "quit" || line == "exit" || line == "bye" {
			return nil, false, false, false
		}
	case "load":
		if !isText {
			return nil, false, false, false
		}
		if s.inputFile != "" && r.Intn(3) == 0 {
			line = ":load"
		} else {
			s.inputFile = s.file(".alda")
			line = ":load " + s.shell(s.inputFile)
		}
		os.WriteFile(s.abs(s.inputFile), []byte(code), 0o644)
	case "new-score":
		line = ":new"
	case "stop":
		line = ":stop"
	case "replay":
		line = ":play"
		var parts []string
		for k, v := range req {
			if k != "op" {
				parts = append(parts, k+" "+s.shell(fmt.Sprint(v)))
			}
		}
		sort.Strings(parts)
		if r.Intn(2) == 0 && len(parts) == 2 {
			parts[0], parts[1] = parts[1], parts[0]
		}
		line = strings.TrimSpace(line + " " + strings.Join(parts, " "))
	case "export":
		f := s.file(".mid")
		if r.Intn(2) == 0 {
			os.WriteFile(s.abs(f), []byte(strings.Repeat("old ", 2000)), 0o644)
		} else {
			os.Remove(s.abs(f))
		}
		line = ":export " + s.shell(f)
		after = func(string) bool {
			b, err := os.ReadFile(s.abs(f))
			if err != nil {
				return s.fail("nothing was exported: %v", err)
			}
			m["binary-data"] = string(b)
			return true
		}
	case "score-text":
		switch r.Intn(4) {
		case 0:
			line, after = ":score", keep("text")
		case 1:
			line, after = ":score text", keep("text")
		default:
			if s.inputFile != "" && r.Intn(3) == 0 {
				line = ":save"
			} else {
				s.inputFile = s.file(".alda")
				line = ":save " + s.shell(s.inputFile)
				if r.Intn(2) == 0 {
					os.WriteFile(s.abs(s.inputFile), []byte(strings.Repeat("old ", 2000)), 0o644)
				}
			}
			after = func(string) bool {
				b, err := os.ReadFile(s.abs(s.inputFile))
				if err != nil {
					return s.fail("nothing was saved: %v", err)
				}
				m["text"] = string(b)
				s.c.Count("scores saved", 1)
				return true
			}
		}
	case "score-data":
		line, after = ":score data", keep("data")
	case "score-events":
		silent, line = false, ":score events"
		after = func(out string) bool {
			// The document is written with an indentation.
			var v interface{}
			if err := json.Unmarshal([]byte(out), &v); err != nil {
				return s.fail(":score events shows something that is not JSON: %v", err)
			}
			raw, failed, ok := s.askRaw(req)
			if !ok {
				return false
			}
			var w interface{}
			json.Unmarshal([]byte(fmt.Sprint(raw["events"])), &w)
			if failed || !reflect.DeepEqual(v, w) {
				return s.fail(":score events shows something else than the server's events")
			}
			m = raw
			return true
		}
	case "instruments":
		silent, line = false, ":instruments"
		after = func(out string) bool {
			raw, failed, ok := s.askRaw(req)
			if !ok || failed {
				return ok
			}
			want := ""
			for _, x := range raw["instruments"].([]interface{}) {
				want += fmt.Sprint(x) + "\n"
			}
			if out != want {
				return s.fail(":instruments shows\n%s\ninstead of\n%s", out, want)
			}
			m = raw
			return true
		}
	default:
		return nil, false, false, false
	}
	out, ok := s.tell(s.around(line))
	if !ok {
		return m, true, true, false
	}
	s.c.Count("requests typed", 1)
	if i := strings.Index("\n"+out, "\nERROR"); i >= 0 {
		s.c.Count("errors shown", 1)
		m["status"] = []interface{}{"done", "error"}
		m["problems"] = []interface{}{out[i:]}
		return m, true, true, true
	}
	if silent && out != "" {
		return m, false, true, s.fail("%q succeeded and shows %q", line, out)
	}
	return m, false, true, after(out)
}

// unchanged checks that the server's score is what it was.
func (s *session) unchanged(what string) bool {
	m, failed, ok := s.askRaw(map[string]interface{}{"op": "score-text"})
	if !ok {
		return false
	}
	if got := fmt.Sprint(m["text"]); failed || strings.Join(strings.Fields(got), " ") != strings.Join(strings.Fields(s.text()), " ") {
		return s.fail("%s changed the score to\n%s\nfrom\n%s", what, got, s.text())
	}
	if extra := s.arrivals(0); len(extra) > 0 {
		return s.fail("%s sent something to a player:\n  %s", what, describe(extra))
	}
	return true
}

// shows types a line and compares what is shown.
func (s *session) shows(line string, good func(out string) string) bool {
	out, ok := s.tell(s.around(line))
	if !ok {
		return false
	}
	if p := good(out); p != "" {
		return s.fail("%q shows\n%s\n%s", line, out, p)
	}
	return s.unchanged(line)
}

func isError(out string) string {
	if !strings.HasPrefix(out, "ERROR") {
		return "which is not an error"
	}
	return ""
}

// clientOnly are commands that are the client's own business.
func (s *session) clientOnly() bool {
	r := s.c.R
	commands := []string{"export", "help", "instruments", "load", "new", "parts", "play", "quit", "save", "score", "stop", "version"}
	contains := func(parts ...string) func(string) string {
		return func(out string) string {
			for _, p := range parts {
				if !strings.Contains(out, p) {
					return "in which " + p + " is missing"
				}
			}
			if strings.HasPrefix(out, "ERROR") {
				return "which is an error"
			}
			return ""
		}
	}
	switch r.Intn(9) {
	case 8:
		// Code that begins like a way to leave.
		name := []string{"quit", "exit", "bye", "Quit", "byebye"}[r.Intn(5)]
		s.c.Count("lines like the end", 1)
		return s.evalPiece([]lang.Node{lang.VarDef{Name: name, Events: []lang.Node{lang.Barline{}}}}, name+" = |\n")
	case 0:
		if r.Intn(2) == 0 {
			all := []string{}
			for _, k := range commands {
				all = append(all, ":"+k+" ")
			}
			return s.shows(":help", contains(all...))
		}
		return s.shows(":help "+commands[r.Intn(len(commands))], contains("\n"))
	case 1:
		return s.shows(":version", contains("Client version: "+generated.ClientVersion+"\n", "Server version: "+generated.ClientVersion+"\n"))
	case 2, 3:
		return s.summary()
	case 4:
		s.c.Count("one-off messages", 1)
		return s.oneOff()
	}
	// Mistakes.
	s.c.Count("mistakes typed", 1)
	nowhere := filepath.Join(s.env.Dir, "work", "missing", "f.alda")
	dir := filepath.Join(s.env.Dir, "work")
	lines := []string{":frobnicate", ":Play", ":help frobnicate", ":help score text", ":play from", ":play from 0:01 from 0:02", ":play to 0:01 to 0:01", ":play sideways 0:01",
		":play 0:01", ":play from 0:01 to", ":score everything", ":score text data", ":export", ":export a b", ":load a b", ":save a b", `:play from "0:01`, `:load "x`, ":score '", ": new", "::new", ":new:", ":newer"}
	if r.Intn(4) == 0 {
		// A file that cannot be used. Which one a later bare :load or :save
		// means is open.
		s.inputFile = ""
		lines = []string{":load " + s.shell(nowhere), ":save " + s.shell(nowhere), ":load " + s.shell(dir), ":save " + s.shell(dir), ":load ''"}
	} else if s.inputFile == "" && r.Intn(4) == 0 && !s.filesTyped() {
		lines = []string{":load", ":save"}
	}
	return s.shows(lines[r.Intn(len(lines))], isError)
}

// filesTyped says whether the session has mentioned a file before.
func (s *session) filesTyped() bool {
	for _, h := range s.history {
		if strings.Contains(h, ":load ") || strings.Contains(h, ":save ") {
			return true
		}
	}
	return false
}

// summary checks :parts and :score info against the server's score data.
func (s *session) summary() bool {
	m, failed, ok := s.askRaw(map[string]interface{}{"op": "score-data"})
	if !ok || failed {
		return ok && s.fail("no score data")
	}
	var doc struct {
		Parts map[string]struct {
			Stock string `json:"stock-instrument"`
		} `json:"parts"`
		Current []string           `json:"current-parts"`
		Events  []interface{}      `json:"events"`
		Markers map[string]float64 `json:"markers"`
	}
	if err := json.Unmarshal([]byte(fmt.Sprint(m["data"])), &doc); err != nil {
		return s.fail("score data: %v", err)
	}
	var parts, current, markers []string
	for id, p := range doc.Parts {
		parts = append(parts, fmt.Sprintf("  %s (%s)", id, p.Stock))
	}
	for _, id := range doc.Current {
		current = append(current, fmt.Sprintf("  %s (%s)", id, doc.Parts[id].Stock))
	}
	for name, offset := range doc.Markers {
		markers = append(markers, fmt.Sprintf("  %s (%f)", name, offset))
	}
	same := func(what string, want, got []string) string {
		if len(want) == 0 {
			want = []string{"  (none)"}
		}
		sort.Strings(want)
		got = append([]string{}, got...)
		sort.Strings(got)
		if !reflect.DeepEqual(want, got) {
			return fmt.Sprintf("%s should be\n%s", what, strings.Join(want, "\n"))
		}
		return ""
	}
	section := func(out, title string) []string {
		_, rest, _ := strings.Cut("\n"+out, "\n"+title+":\n")
		var got []string
		for _, l := range strings.Split(rest, "\n") {
			if !strings.HasPrefix(l, "  ") {
				break
			}
			got = append(got, l)
		}
		return got
	}
	s.c.Count("summaries compared", 1)
	if s.c.R.Intn(3) == 0 {
		return s.shows(":parts", func(out string) string { return same("the parts", parts, section(out, "Parts")) })
	}
	return s.shows(":score info", func(out string) string {
		if p := same("the parts", parts, section(out, "Parts")); p != "" {
			return p
		}
		if p := same("the current parts", current, section(out, "Current parts")); p != "" {
			return p
		}
		if p := same("the number of events", []string{fmt.Sprintf("  %d", len(doc.Events))}, section(out, "Events")); p != "" {
			return p
		}
		got := section(out, "Markers")
		if p := same("the markers", markers, got); p != "" {
			return p
		}
		// In the order of the times.
		last := -1.0
		for _, l := range got {
			var at float64
			if i := strings.LastIndex(l, " ("); i >= 0 {
				fmt.Sscanf(l[i:], " (%f)", &at)
			}
			if at < last {
				return "where the markers are not in order"
			}
			last = at
		}
		if len(markers) > 1 {
			s.c.Count("lists of markers", 1)
		}
		return ""
	})
}

// oneOff checks `alda repl --message`.
func (s *session) oneOff() bool {
	r := s.c.R
	msgs := []string{`{"op": "score-text"}`, `{"op": "describe"}`, `{"op": "instruments"}`, `{"op": "eval", "code": "1"}`,
		`{"op": "frobnicate"}`, `{"op": "load"}`, `{"op": "load", "code": ["c", {"d": "e"}]}`, `{"op": "eval-and-play", "code": "piano: (no-such 1)"}`, `{"op": "score-events", "extra": ["1", {"a": "b"}]}`,
		`{"op"`, `[1]`, `{}`, `"op"`, `{"code": "piano: c"}`, `null`}
	msg := msgs[r.Intn(len(msgs))]
	s.history = append(s.history, "$ alda repl --message "+msg)
	env := &clix.Env{Env: s.env}
	res := env.Run(clix.Cmd{Args: []string{"repl", "--port", fmt.Sprint(s.srv.Port), "--message", msg}, NoStdin: true, Limit: replyTimeout})
	if w := res.Crashed(); w != "" {
		return s.fail("%s: %s", w, res)
	}
	var req map[string]interface{}
	if json.Unmarshal([]byte(msg), &req) != nil || req["op"] == nil {
		if res.Exit == 0 || len(res.Out) > 0 {
			return s.fail("a message that is not a request was accepted: %s", res)
		}
		return s.unchanged("a bad message")
	}
	var shown map[string]interface{}
	if err := json.Unmarshal([]byte(res.Out), &shown); err != nil {
		return s.fail("the reply that is shown is not a JSON object: %v: %s", err, res)
	}
	plain := map[string]interface{}{}
	for k, v := range req {
		plain[k] = v
	}
	raw, failed, ok := s.askRaw(plain)
	if !ok {
		return false
	}
	delete(shown, "id")
	delete(raw, "id")
	delete(shown, "session")
	delete(raw, "session")
	a, _ := json.Marshal(shown)
	b, _ := json.Marshal(raw)
	if string(a) != string(b) {
		return s.fail("the reply shown is\n%s\nand the server's reply\n%s", a, b)
	}
	if failed != (res.Exit != 0) {
		return s.fail("exit status %d for a request of which the server says failed=%v: %s", res.Exit, failed, res)
	}
	return s.unchanged("a message")
}

// leave ends the interactive session in one of the ways there are.
func (s *session) leave(both bool) bool {
	r := s.c.R
	how := []string{"quit", "exit", "bye", ":quit", " :quit ", " bye"}[r.Intn(6)]
	s.history = append(s.history, "alda> "+how)
	switch r.Intn(3) {
	case 0:
		s.history[len(s.history)-1] = "(end of the input)"
		s.term.CloseInput()
	case 1:
		s.term.Send(how + "\n")
	case 2:
		s.term.Send(how + "\npiano: c1/e/g\n:new\n")
		s.c.Count("lines after the end", 1)
	}
	if x := s.term.Wait(30 * time.Second); x != 0 {
		return s.fail("the client ends with status %d (-1: not at all):\n%s", x, s.term.All()[max(0, len(s.term.All())-3000):])
	}
	s.c.Count("sessions ended", 1)
	if both {
		conn, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.srv.Port), time.Second)
		if err == nil {
			conn.Close()
			return s.fail("the server goes on after the end of the session")
		}
		for _, k := range s.arrivals(0) {
			if k.Bundle || len(k.Msgs) != 1 || k.Msgs[0].Addr != "/system/shutdown" {
				return s.fail("at the end of the session a player received:\n  %s", describe([]replx.Arrival{k}))
			}
		}
		left, _ := os.ReadDir(s.env.Servers())
		for _, f := range left {
			if strings.HasSuffix(f.Name(), ".json") {
				return s.fail("the server left %s behind", f.Name())
			}
		}
		return true
	}
	time.Sleep(20 * time.Millisecond)
	return s.unchanged("the end of the session")
}

func c33Session(c *fw.Ctx, i int) {
	both := i%4 == 1
	linger := func() time.Duration { return time.Duration(c.R.Intn(60)) * time.Millisecond }
	s := openSession(c, 1+c.R.Intn(3), linger, both)
	if s == nil {
		return
	}
	defer s.close()
	if both {
		c.Count("client and server in one process", 1)
	} else {
		var err error
		s.term, err = replx.StartTerm(clix.Bin(), s.env, "--client", "--port", fmt.Sprint(s.srv.Port))
		if err != nil {
			c.Fail("", "%v", err)
			return
		}
		defer s.term.Kill()
		out, ok := s.tell("")
		if !ok {
			return
		}
		for _, want := range []string{"Client version: " + generated.ClientVersion, "Server version: " + generated.ClientVersion, ":help"} {
			if !strings.Contains(out, want) {
				s.fail("the greeting lacks %q:\n%s", want, out)
				return
			}
		}
	}
	if !s.play(i, map[string]int{"eval": 40, "replay": 8, "verify": 10, "fail": 10, "stop": 4, "aside": 3, "new": 2, "load": 4, "export": 4, "client": 25}) {
		return
	}
	if s.leave(both) && !both {
		if all := s.term.All(); strings.Contains(all, "panic:") {
			s.fail("the client crashed:\n%s", all)
		}
	}
}

// fakeServer answers like an Alda server, except where told otherwise.
type fakeServer struct {
	l     net.Listener
	mu    sync.Mutex
	fault func(op string, n int, good map[string]interface{}) (bytes string, end bool)
	ops   []string
}

func (f *fakeServer) serve() {
	for {
		conn, err := f.l.Accept()
		if err != nil {
			return
		}
		go f.conn(conn)
	}
}

func (f *fakeServer) conn(conn net.Conn) {
	defer conn.Close()
	r := bufio.NewReader(conn)
	for n := 0; ; n++ {
		v, err := replx.Decode(r)
		if err != nil {
			return
		}
		req, _ := v.(map[string]interface{})
		op := fmt.Sprint(req["op"])
		f.mu.Lock()
		f.ops = append(f.ops, op)
		good := map[string]interface{}{"id": req["id"], "status": []interface{}{"done"}}
		if x, ok := req["session"]; ok {
			good["session"] = x
		}
		switch op {
		case "clone":
			good["new-session"] = "s-1"
		case "describe":
			good["ops"] = map[string]interface{}{"eval-and-play": map[string]interface{}{}}
			good["versions"] = map[string]interface{}{"alda": map[string]interface{}{"version-string": "9.8.7"}}
		case "score-text":
			good["text"] = "piano: c\n"
		case "score-data":
			good["data"] = `{"parts":{"0x1":{"stock-instrument":"midi-oboe"}},"current-parts":["0x1"],"events":[],"markers":{"m":1.5}}`
		case "score-events":
			good["events"] = `[]`
		case "score-ast":
			good["ast"] = `{"type":"RootNode"}`
		case "export":
			good["binary-data"] = "MThd"
		case "instruments":
			good["instruments"] = []interface{}{"a", "b"}
		}
		bytes, end := f.fault(op, n, good)
		f.mu.Unlock()
		// In pieces.
		for len(bytes) > 0 {
			k := min(len(bytes), 1+len(bytes)/2)
			io.WriteString(conn, bytes[:k])
			bytes = bytes[k:]
		}
		if end {
			return
		}
	}
}

// c33Hostile runs the client against a server that doesn't behave.
func c33Hostile(c *fw.Ctx, i int) {
	c.Eval()
	env := replx.Env{Dir: filepath.Join(fw.Scratch(), fmt.Sprintf("repl-%d", c.R.Int63()))}
	env.Setup()
	defer os.RemoveAll(env.Dir)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.Fail("", "%v", err)
		return
	}
	defer l.Close()
	s := &session{c: c, env: env}
	r := c.R
	at := 2 + r.Intn(3) // which request is answered badly
	early := r.Intn(3) == 0
	if early {
		at = r.Intn(2)
	}
	kinds := []string{"id", "no id", "id type", "not a dictionary", "garbage", "cut off", "closed", "field gone", "field type", "field text", "status gone", "status type", "error", "errors", "no problems", "two replies", "extra"}
	kind := kinds[r.Intn(len(kinds))]
	struck := "" // the operation that got the bad reply
	f := &fakeServer{l: l, fault: func(op string, n int, good map[string]interface{}) (string, bool) {
		if n != at {
			return replx.Encode(good), false
		}
		struck = op
		field := map[string]string{"clone": "new-session", "describe": []string{"ops", "versions"}[r.Intn(2)], "score-text": "text", "score-data": "data", "score-events": "events", "score-ast": "ast", "export": "binary-data", "instruments": "instruments"}[op]
		whole := replx.Encode(good)
		junk := []interface{}{7, "x", []interface{}{}, map[string]interface{}{}, []interface{}{1, "a"}}
		switch kind {
		case "id":
			good["id"] = "another"
		case "no id":
			delete(good, "id")
		case "id type":
			good["id"] = junk[r.Intn(len(junk))]
		case "not a dictionary":
			return replx.Encode(junk[[]int{0, 1, 2, 4}[r.Intn(4)]]), false
		case "garbage":
			return []string{"HTTP/1.1 400 Bad Request\r\n\r\n", "x", "\x00\x00\x00", "i12", "5:ab", "d3:abc", "-1:", "99999999999999999999:", "i99999999999999999999e", "d1:a", "l", "d3:", "ie", "i-e", "dli1ee3:abce", "99999999999:abc", strings.Repeat("d1:a", 100000), "d2:id-3:"}[r.Intn(18)], true
		case "cut off":
			return whole[:r.Intn(len(whole))], true
		case "closed":
			return "", true
		case "field gone":
			delete(good, field)
		case "field type":
			if field != "" {
				good[field] = junk[[]int{0, 2, 4}[r.Intn(3)]]
			}
		case "field text":
			if field != "" {
				// What is inside a syntax tree is trusted to be one.
				n := 8
				if op == "score-ast" {
					n = 3
				}
				good[field] = []string{"", "{", "[1", "null", "{}", "[]", "7", "\"x\""}[r.Intn(n)]
			}
		case "status gone":
			delete(good, "status")
		case "status type":
			good["status"] = junk[[]int{0, 1, 3}[r.Intn(3)]]
		case "error":
			good["status"] = []interface{}{"done", "error"}
			good["problems"] = []interface{}{"the problem of today"}
		case "errors":
			good["status"] = []interface{}{"error", "done"}
			good["problems"] = []interface{}{"the problem of today", 7, "the problem of tomorrow"}
		case "no problems":
			good["status"] = []interface{}{"done", "error"}
			if r.Intn(2) == 0 {
				good["problems"] = junk[r.Intn(4)]
			}
		case "two replies":
			return whole + whole, false
		case "extra":
			good["something"] = junk[r.Intn(len(junk))]
		}
		return replx.Encode(good), false
	}}
	go f.serve()
	s.history = append(s.history, fmt.Sprintf("a server with this fault in its reply %d: %s", at, kind))
	t, err := replx.StartTerm(clix.Bin(), env, "--client", "--port", fmt.Sprint(l.Addr().(*net.TCPAddr).Port))
	if err != nil {
		c.Fail("", "%v", err)
		return
	}
	defer t.Kill()
	s.term = t
	crashed := func() bool {
		all := t.All()
		if strings.Contains(all, "panic:") || strings.Contains(all, "fatal error:") || strings.Contains(all, "goroutine ") {
			s.fail("the client crashed:\n%s", all)
			return true
		}
		return false
	}
	out, err := t.Type("", replyTimeout)
	if err != nil {
		// It gave up.
		x := t.Wait(30 * time.Second)
		if crashed() {
			return
		}
		c.Count("servers given up at the start", 1)
		switch {
		case !early:
			s.fail("the client gives up a server that is all right: %s", t.All())
		case x <= 0:
			s.fail("the client cannot use the server and ends with status %d: %s", x, t.All())
		case strings.TrimSpace(t.All()) == "":
			s.fail("the client cannot use the server and ends without a word")
		case kind == "extra":
			s.fail("the client gives up a server that says more than it has to: %s", t.All())
		}
		c.Nontrivial(t.All())
		return
	}
	if !strings.Contains(out, "Type :help") {
		s.fail("no greeting: %s", out)
		return
	}
	lines := []string{"piano: c", ":score", ":score data", ":score info", ":parts", ":score events", ":score ast", ":export x.mid", ":save y.alda", ":instruments", ":version", ":stop", ":new", ":play", ":play from 0:01"}
	broken := early // the connection may be out of step
	for k := 0; k < 6; k++ {
		f.mu.Lock()
		was := struck
		f.mu.Unlock()
		line := lines[r.Intn(len(lines))]
		out, ok := s.tell(line)
		if !ok {
			crashed()
			return
		}
		f.mu.Lock()
		now := struck
		f.mu.Unlock()
		if was == "" && now != "" {
			c.Count("bad replies", 1)
			must := map[string]bool{"id": true, "no id": true, "id type": true, "not a dictionary": true, "garbage": true, "cut off": true, "closed": true, "status gone": true, "status type": true,
				"error": true, "errors": true, "no problems": true}[kind]
			if kind == "field gone" || kind == "field type" {
				must = map[string]bool{"score-text": true, "score-data": true, "score-events": true, "score-ast": true, "export": true, "instruments": now != "instruments" || kind == "field gone", "describe": false}[now]
			}
			if must && !strings.Contains(out, "ERROR") {
				s.fail("%q was answered badly and no error is shown:\n%s", line, out)
				return
			}
			if (kind == "error" || kind == "errors") && !strings.Contains(out, "the problem of today") || kind == "errors" && !strings.Contains(out, "the problem of tomorrow") {
				s.fail("the server's problems are not shown:\n%s", out)
				return
			}
			if line == ":export x.mid" && (kind == "field gone" || kind == "field type" || kind == "error" && false) {
				if _, err := os.Stat(filepath.Join(env.Dir, "work", "x.mid")); err == nil && k == 0 {
					s.fail("a file was exported without data")
					return
				}
			}
			broken = broken || map[string]bool{"not a dictionary": false, "garbage": true, "cut off": true, "closed": true, "two replies": true}[kind]
			continue
		}
		if !broken && strings.Contains(out, "ERROR") {
			s.fail("%q shows an error although nothing is wrong with the server's reply (any more):\n%s", line, out)
			return
		}
		if !broken {
			want := map[string]string{":score": "piano: c\n\n", ":instruments": "a\nb\n", ":version": "Client version: " + generated.ClientVersion + "\nServer version: 9.8.7\n", ":parts": "Parts:\n  0x1 (midi-oboe)\n\n", "piano: c": "", ":stop": "", ":new": "", ":play": "", ":export x.mid": "", ":save y.alda": ""}
			if w, ok := want[line]; ok && out != w {
				s.fail("%q shows\n%q\nand should show\n%q", line, out, w)
				return
			}
			file := map[string][2]string{":export x.mid": {"x.mid", "MThd"}, ":save y.alda": {"y.alda", "piano: c\n"}}
			if w, ok := file[line]; ok {
				if b, err := os.ReadFile(filepath.Join(env.Dir, "work", w[0])); err != nil || string(b) != w[1] {
					s.fail("%q wrote %q (%v)", line, b, err)
					return
				}
			}
		}
	}
	t.Send(":quit\n")
	if x := t.Wait(20 * time.Second); x != 0 && !crashed() {
		s.fail("the client ends with status %d:\n%s", x, t.All())
		return
	}
	if crashed() {
		return
	}
	c.Count("hostile sessions", 1)
	c.Nontrivial(strings.Join(s.history, "\n"))
}

func init() {
	fw.Register(&fw.Check{
		ID: "C33", Quick: 480, Thorough: 4000, MinNontrivialPct: 50, Workers: 16, CaseWall: 400 * time.Second,
		Rule: "sessions as in C20 in which the requests are typed into a real interactive client (`alda repl --client`, or client and server in one process), while another client asks now and then: lines of code, :new, :play, :stop, :load, :save, :export, :score, :instruments and the rest, with blanks and quoted file names. What reaches the players, what is shown, what is saved and exported, and the server's score have to be what the typed lines mean; a mistake has to be reported and change nothing; the ways to leave have to end the session with nothing more evaluated. A third of the sessions are with a stand-in server one of whose replies is malformed, incomplete, an error or cut off: the client has to say so and go on.",
		Need: []string{"requests typed", "pieces evaluated", "notes matched", "replays", "states compared", "scores saved", "loads", "exports", "mistakes typed", "errors shown", "summaries compared", "sessions ended", "bad replies", "hostile sessions", "one-off messages"},
		Case: func(c *fw.Ctx, i int) {
			if i%3 == 2 {
				for k := 0; k < 4 && !c.Failed(); k++ {
					c33Hostile(c, i)
				}
				return
			}
			c33Session(c, i)
		},
	})
}
