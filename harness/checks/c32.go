package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"

	"alda.io/client/generated"

	"verif/clix"
	"verif/fw"
)

// C32: self-update.

type updateWorld struct {
	c        *fw.Ctx
	r        *rand.Rand
	env      *clix.Env
	proxy    *clix.Proxy
	log      []string
	bindir   string
	assets   map[string][]byte // what the release consists of
	wanted   string            // the only version there is, if it has to be asked for
	faults   map[string]string // what goes wrong with a download
	document string            // what the API says
	api      string            // how it says it
	before   map[string]string // the files next to alda
	modes    map[string]os.FileMode
}

func (w *updateWorld) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *updateWorld) fail(f string, a ...interface{}) bool {
	w.c.Fail(strings.Join(w.log, "\n")+"\nfiles now: "+w.listing(), f, a...)
	return false
}

func (w *updateWorld) listing() string {
	ents, _ := os.ReadDir(w.bindir)
	s := ""
	for _, e := range ents {
		i, err := e.Info()
		if err == nil {
			s += fmt.Sprintf("%s(%d %v) ", e.Name(), i.Size(), i.Mode())
		}
	}
	return s
}

var updateFaults = []string{"404", "500", "cut", "cut early", "cut chunked", "closed", "no answer", "garbage", "not TLS", "redirect loop", "reset"}

func (w *updateWorld) serve(c net.Conn, r *http.Request) {
	send := func(status string, body string) {
		fmt.Fprintf(c, "HTTP/1.1 %s\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", status, len(body), body)
	}
	switch {
	case r.Method == "POST":
		send("200 OK", "{}")
	case strings.HasPrefix(r.URL.Path, "/release"):
		switch w.api {
		case "404", "500":
			send(w.api+" Oops", "oops")
		case "cut":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(w.document), w.document[:len(w.document)/2])
		case "closed":
		case "garbage":
			send("200 OK", "<html>captive portal</html>")
		default:
			if w.wanted != "" && r.URL.Path != "/release/"+w.wanted {
				send("404 Not Found", `{"error":"no such release"}`)
				return
			}
			send("200 OK", w.document)
		}
	case strings.HasPrefix(r.URL.Path, "/get/"):
		name := strings.TrimPrefix(r.URL.Path, "/get/")
		data := w.assets[name]
		switch f := w.faults[name]; f {
		case "404", "500":
			send(f+" Oops", "oops")
		case "cut", "cut early":
			n := len(data) * 3 / 4
			if f == "cut early" {
				n = 1
			}
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
			c.Write(data[:n])
		case "cut chunked":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(data)/2)
			c.Write(data[:len(data)/2])
			io.WriteString(c, "\r\n")
		case "chunked":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n", len(data))
			c.Write(data)
			io.WriteString(c, "\r\n0\r\n\r\n")
		case "closed":
		case "garbage":
			io.WriteString(c, "\x00\x01 garbage\r\n\r\n")
		case "redirect loop":
			fmt.Fprintf(c, "HTTP/1.1 302 Found\r\nLocation: %s\r\nContent-Length: 0\r\n\r\n", r.URL.Path)
		case "redirect":
			fmt.Fprintf(c, "HTTP/1.1 302 Found\r\nLocation: https://elsewhere.example/moved/%s\r\nContent-Length: 0\r\n\r\n", name)
		case "reset":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
			c.Write(data[:len(data)/3])
		case "no answer":
			time.Sleep(12 * time.Second)
		case "stalls":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
			c.Write(data[:len(data)/2])
			time.Sleep(12 * time.Second)
		case "slow":
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
			for n := 0; n < len(data); n += len(data)/4 + 1 {
				c.Write(data[n:min(n+len(data)/4+1, len(data))])
				time.Sleep(30 * time.Millisecond)
			}
		default:
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
			c.Write(data)
		}
	case strings.HasPrefix(r.URL.Path, "/moved/"):
		data := w.assets[strings.TrimPrefix(r.URL.Path, "/moved/")]
		fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n", len(data))
		c.Write(data)
	default:
		send("404 Not Found", "")
	}
}

func (w *updateWorld) asset(name, typ string) map[string]interface{} {
	return map[string]interface{}{"name": name, "type": typ, "url": "https://releases.example/get/" + name}
}

// release describes a release; ok says whether it can be installed.
func (w *updateWorld) release(version string) (doc map[string]interface{}, defect string) {
	here := runtime.GOOS + "-" + runtime.GOARCH
	alda, player := w.asset("alda", "executable"), w.asset("alda-player", "executable")
	if w.r.Intn(2) == 0 {
		alda, player = player, alda
	}
	list := []interface{}{alda, player}
	if w.r.Intn(4) == 0 {
		defect = []string{"no assets", "assets for another system", "type", "name", "url", "no url", "not a list", "not an object", "no type"}[w.r.Intn(9)]
		second := list[1].(map[string]interface{})
		switch defect {
		case "type":
			second["type"] = "archive"
		case "no type":
			delete(second, "type")
		case "name":
			second["name"] = 7
		case "url":
			second["url"] = "https://releases.example/nothing"
		case "no url":
			delete(second, "url")
		case "not an object":
			list[1] = "alda-player"
		}
	}
	doc = map[string]interface{}{"version": version, "date": "2031-01-01", "changelog": "* changes\n* more", "assets": map[string]interface{}{here: list}}
	switch defect {
	case "no assets":
		delete(doc, "assets")
	case "assets for another system":
		doc["assets"] = map[string]interface{}{"plan9-mips": list}
	case "not a list":
		doc["assets"] = map[string]interface{}{here: "alda"}
	}
	return
}

func newUpdateWorld(c *fw.Ctx) *updateWorld {
	r := rand.New(rand.NewSource(c.R.Int63()))
	w := &updateWorld{c: c, r: r, env: clix.New(), faults: map[string]string{}, assets: map[string][]byte{}, before: map[string]string{}, modes: map[string]os.FileMode{}}
	w.proxy = clix.NewProxy(w.env.Dir)
	w.proxy.Handler = w.serve
	w.proxy.Refuse = func(conn net.Conn, host string) bool {
		if host == "releases.example" && w.faults["all"] == "not TLS" {
			io.WriteString(conn, "HTTP/1.1 200 OK\r\n\r\nhello")
			return true
		}
		return false
	}
	w.bindir = filepath.Join(w.env.Dir, "programs")
	os.MkdirAll(w.bindir, 0o755)
	b, err := os.ReadFile(clix.Bin())
	if err != nil {
		panic(err)
	}
	os.WriteFile(filepath.Join(w.bindir, "alda"), b, 0o755)
	if r.Intn(8) > 0 {
		os.WriteFile(filepath.Join(w.bindir, "alda-player"), []byte("#!/bin/sh\necho old player\n"), 0o755)
	}
	for _, f := range []string{"alda-notes.txt", "my-alda.1.2.old", "alda.1.2.old.bak", "alda.old", "alda-player.1.old", "alda.123.456.old-copy", "halda-player.12.34.old"} {
		if r.Intn(2) == 0 {
			os.WriteFile(filepath.Join(w.bindir, f), []byte("keep me"), 0o644)
		}
	}
	for _, n := range []string{"alda", "alda-player"} {
		data := make([]byte, 1+r.Intn(300000))
		r.Read(data)
		copy(data, "#!/bin/sh\nexit 0\n")
		w.assets[n] = data
	}
	for k, v := range w.files() {
		w.before[k] = v
	}
	return w
}

func (w *updateWorld) files() map[string]string {
	out := map[string]string{}
	ents, _ := os.ReadDir(w.bindir)
	for _, e := range ents {
		b, err := os.ReadFile(filepath.Join(w.bindir, e.Name()))
		if err != nil {
			out[e.Name()] = "(" + err.Error() + ")"
			continue
		}
		out[e.Name()] = string(b)
	}
	return out
}

// settled checks the files: both executables old or both new (or each of them,
// after an interruption), and nothing else changed. Returns what there is.
func (w *updateWorld) settled(names []string, interrupted bool) (state string, ok bool) {
	now := w.files()
	w.c.Eval()
	seen := map[string]bool{}
	for _, n := range []string{"alda", "alda-player"} {
		old, had := w.before[n]
		cur, has := now[n]
		mine := false
		for _, x := range names {
			mine = mine || x == n
		}
		switch {
		case mine && has && cur == string(w.assets[n]):
			seen["new"] = true
			i, err := os.Stat(filepath.Join(w.bindir, n))
			if err != nil || i.Mode().Perm()&0o111 != 0o111 {
				return "", w.fail("%s has been installed, but is not executable", n)
			}
		case has == had && cur == old:
			if mine {
				seen["old"] = true
			}
			if i, err := os.Stat(filepath.Join(w.bindir, n)); had && (err != nil || i.Mode().Perm() != 0o755) {
				return "", w.fail("%s is not executable any more", n)
			}
		case !has:
			return "", w.fail("%s is missing", n)
		default:
			return "", w.fail("%s is neither the old nor the new one (%d bytes; the old one has %d, the new one %d)", n, len(cur), len(old), len(w.assets[n]))
		}
	}
	for n, s := range w.before {
		if n != "alda" && n != "alda-player" && now[n] != s {
			return "", w.fail("the file %s next to alda has been changed or removed", n)
		}
	}
	for n := range now {
		if _, ok := w.before[n]; ok || n == "alda" || n == "alda-player" {
			continue
		}
		if strings.HasPrefix(n, "alda") && strings.HasSuffix(n, ".old") && !interrupted {
			continue // the one that was replaced
		}
		if !interrupted {
			return "", w.fail("a file %s has appeared next to alda", n)
		}
	}
	if seen["old"] && seen["new"] {
		if !interrupted {
			return "", w.fail("only one of the executables has been replaced")
		}
		return "mixed", true
	}
	if seen["new"] {
		return "new", true
	}
	return "old", true
}

func (w *updateWorld) run(args []string, stdin string, kill time.Duration, fault *clix.Fault, prefix ...string) *clix.Result {
	cmd := clix.Cmd{Fault: fault, Args: args, Stdin: []byte(stdin), Bin: filepath.Join(w.bindir, "alda"), Env: w.proxy.Vars(), KillAt: kill, Limit: 60 * time.Second, Prefix: prefix}
	res := w.env.Run(cmd)
	w.note("stdin %q kill %v %v fault %v: %s", stdin, kill, prefix, fault, res)
	w.c.Count("commands run", 1)
	return res
}

func c32Case(c *fw.Ctx, i int) {
	w := newUpdateWorld(c)
	defer w.env.Close()
	defer w.proxy.Close()
	r := w.r
	defer func() { c.Nontrivial(strings.Join(w.log, "\n")) }()
	if i%40 == 11 {
		w.c32Doctor()
		return
	}
	version := fmt.Sprintf("%d.%d.%d", 3+r.Intn(3), r.Intn(10), r.Intn(10)*r.Intn(2))
	doc, defect := w.release(version)
	sysCase := i%3 == 0 // the operating system misbehaves, and nothing else does
	for sysCase && defect != "" {
		doc, defect = w.release(version)
	}
	fault, disk := "", ""
	if defect == "" && !sysCase {
		switch r.Intn(5) {
		case 0, 1:
			f := updateFaults[r.Intn(len(updateFaults))]
			if i%50 == 13 {
				f = "stalls"
			}
			if (f == "no answer" || f == "stalls") && i%50 != 13 {
				f = "cut"
			}
			if f == "not TLS" {
				w.faults["all"] = f
			} else {
				w.faults[[]string{"alda", "alda-player"}[r.Intn(2)]] = f
			}
			fault = f
		case 2:
			w.faults["alda"] = []string{"chunked", "redirect", "slow", "slow"}[r.Intn(4)]
			w.faults["alda-player"] = []string{"chunked", "redirect", "slow", ""}[r.Intn(4)]
		}
	}
	// How the user asks for it.
	args := []string{"update"}
	apiDefect := ""
	single := r.Intn(2) == 0
	enc := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	upToDate := false
	if single {
		args = append(args, "--version", version)
		w.document, w.wanted = enc(doc), version
	} else {
		switch k := r.Intn(10); {
		case sysCase:
			w.document = enc(map[string]interface{}{"releases": []interface{}{doc}})
		case k == 0:
			w.document, upToDate = `{"releases":[]}`, true
		case k == 1:
			w.document, apiDefect = []string{`{}`, `{"releases":null}`, `{"releases":7}`, `[]`, `null`, `"x"`, `{"releases":["x"]}`, `{"releases":[null]}`}[r.Intn(8)], "document"
		case k == 2:
			// There is nobody to choose between them.
			doc2, _ := w.release("9.9.9")
			w.document, apiDefect = enc(map[string]interface{}{"releases": []interface{}{doc, doc2}}), "several"
		default:
			m := map[string]interface{}{"releases": []interface{}{doc}}
			if r.Intn(3) == 0 {
				m["explanation"] = "There is a new release."
			}
			w.document = enc(m)
		}
	}
	if !sysCase && r.Intn(8) == 0 {
		w.api = []string{"404", "500", "cut", "closed", "garbage"}[r.Intn(5)]
		upToDate = false
	}
	stdin, agreed := "", true
	how := r.Intn(6)
	if sysCase {
		how = 5
	}
	switch how {
	case 0:
		stdin, agreed = []string{"n\n", "no\n", "NO\n", "maybe\nn\n"}[r.Intn(4)], false
	case 1:
		stdin = []string{"y\n", "yes\n", "\n", "what?\ny\n", "Y\n"}[r.Intn(5)]
	case 2:
		stdin, agreed = []string{"", "y", "maybe\n"}[r.Intn(3)], false // ends without an answer
	default:
		args = append(args, []string{"-y", "--yes"}[r.Intn(2)])
	}
	var prefix []string
	good := fault == "" && defect == "" && apiDefect == "" && w.api == "" && !upToDate
	if good && agreed && !sysCase {
		switch r.Intn(5) {
		case 0:
			disk = "full"
			// No file may grow beyond this.
			n := 1 + r.Intn(200)
			if n*1024 < len(w.assets["alda"]) || n*1024 < len(w.assets["alda-player"]) {
				prefix = []string{"/usr/bin/prlimit", fmt.Sprintf("--fsize=%d", n*1024)}
			} else {
				disk = ""
			}
		case 1:
			disk = "in the way"
			if _, ok := w.before["alda-player"]; ok {
				os.Remove(filepath.Join(w.bindir, "alda-player"))
			}
			os.MkdirAll(filepath.Join(w.bindir, "alda-player", "x"), 0o755)
			w.before = w.files()
		}
	}
	var kill time.Duration
	var sys *clix.Fault
	if sysCase {
		sys = &clix.Fault{Calls: clix.Changing, When: 1 + r.Intn(7)}
		if r.Intn(3) == 0 {
			sys.Calls = []string{"rename,renameat,renameat2", "link,linkat", "copy_file_range", "fsync,fchmod,fchmodat,chmod"}[r.Intn(4)]
			sys.When = 1 + r.Intn(3)
		}
		if r.Intn(2) == 0 {
			sys.Error = []string{"ENOSPC", "EIO", "EACCES", "EROFS", "EPERM"}[r.Intn(5)]
		}
	}
	if good && agreed && disk == "" && sys == nil && r.Intn(2) == 0 {
		kill = time.Duration(5+r.Intn(120)) * time.Millisecond
		if w.faults["alda"] == "slow" || w.faults["alda-player"] == "slow" {
			kill += time.Duration(r.Intn(120)) * time.Millisecond
		}
	}
	w.note("release defect %q, download faults %v, API %q %q, disk %q: %s", defect, w.faults, w.api, apiDefect, disk, w.document)
	stop := w.watch()
	res := w.run(args, stdin, kill, sys, prefix...)
	// Without hard links the old executable has to be renamed, and there is a
	// moment between the two renames.
	noLinks := sys != nil && noHardLink.MatchString(sys.Log)
	if !stop(noLinks) {
		return
	}
	interrupted := (kill > 0 || (sys != nil && sys.Hit && sys.Error == "")) && res.Signal != ""
	if !interrupted {
		if p := res.Crashed(); p != "" {
			w.fail("alda %q %s", args, p)
			return
		}
		if res.Exit != 0 && strings.TrimSpace(res.Err) == "" {
			w.fail("alda %q fails without a message", args)
			return
		}
	}
	state := ""
	if disk == "in the way" {
		// That makes the directory an obstacle, not an executable.
		now := w.files()
		c.Eval()
		if now["alda"] != w.before["alda"] {
			w.fail("alda has been replaced although alda-player can't be (alda has %d bytes)", len(now["alda"]))
			return
		}
		state = "old"
	} else {
		var ok bool
		// strace counts the calls of each thread: more than one may fail, and
		// then there may be no way back.
		several := sys != nil && strings.Count(sys.Log, "INJECTED") > 1
		if several {
			c.Count("more than one system call failed", 1)
		}
		if state, ok = w.settled([]string{"alda", "alda-player"}, interrupted || several || (sys != nil && strings.Contains(sys.Log, "unlink"))); !ok {
			return
		}
	}
	switch {
	case interrupted:
		c.Count("updates interrupted", 1)
		c.Count("interrupted: "+state, 1)
		return
	case sys != nil && sys.Hit:
		c.Count("system calls that fail", 1)
		c.Count("after a failing system call: "+state, 1)
		if (res.Exit == 0) != (state == "new") {
			w.fail("exit %d and %s executables after a system call has failed", res.Exit, state)
			return
		}
		return
	case good && agreed && disk == "":
		if state != "new" || res.Exit != 0 {
			w.fail("the update fails: exit %d, %s executables", res.Exit, state)
			return
		}
		c.Count("updates installed", 1)
	case disk != "":
		c.Count("disk problems", 1)
		if res.Exit != 1 || state != "old" {
			w.fail("exit %d and %s executables although the disk is %s", res.Exit, state, disk)
			return
		}
	case upToDate:
		if res.Exit != 0 || state != "old" {
			w.fail("there is no release to install, but exit %d and %s executables", res.Exit, state)
			return
		}
		c.Count("up to date", 1)
	default:
		if state != "old" {
			w.fail("something has been installed from a release that can't be (or wasn't wanted)")
			return
		}
		// The line that answers the menu of releases leaves none for the
		// question whether to go on.
		if agreed && res.Exit == 0 && apiDefect != "several" {
			w.fail("the update did not happen, but alda says it did")
			return
		}
		if fault != "" {
			c.Count("download fault: "+fault, 1)
			c.Count("download faults", 1)
		}
		if defect != "" {
			c.Count("defective releases", 1)
		}
		if !agreed {
			c.Count("not agreed to", 1)
		}
	}
	// The executables that were replaced are cleaned up by the next command.
	if r.Intn(3) == 0 && state == "old" && disk == "" {
		for _, n := range []string{"alda.1615061099.2081.old", "alda-player.1615061099.1.old"} {
			os.WriteFile(filepath.Join(w.bindir, n), []byte("x"), 0o755)
		}
		w.run([]string{"version"}, "", 0, nil)
		now := w.files()
		c.Eval()
		for _, n := range []string{"alda.1615061099.2081.old", "alda-player.1615061099.1.old"} {
			if _, ok := now[n]; ok {
				w.fail("%s has not been cleaned up", n)
				return
			}
		}
		c.Count("old executables cleaned up", 2)
		w.settled(nil, false)
	}
}

var noHardLink = regexp.MustCompile(`(?m)\slink(at)?[( ].*= -1 .*INJECTED`)

// watch looks at the executables all the time.
func (w *updateWorld) watch() func(gaps bool) bool {
	done := make(chan bool)
	problem := ""
	var wg sync.WaitGroup
	wg.Add(1)
	n := 0
	path := filepath.Join(w.bindir, "alda")
	old, new := []byte(w.before["alda"]), w.assets["alda"]
	go func() {
		defer wg.Done()
		for {
			select {
			case <-done:
				return
			default:
			}
			n++
			i, err := os.Stat(path)
			if err != nil {
				problem = "alda was missing for a moment"
			} else if int(i.Size()) != len(old) && int(i.Size()) != len(new) {
				problem = fmt.Sprintf("alda was incomplete for a moment (%d bytes)", i.Size())
			}
			time.Sleep(50 * time.Microsecond)
		}
	}()
	return func(gaps bool) bool {
		close(done)
		wg.Wait()
		if gaps && problem == "alda was missing for a moment" {
			problem = ""
		}
		w.c.Count("looks at the executable while updating", n)
		if problem != "" {
			return w.fail("%s", problem)
		}
		b, _ := os.ReadFile(path)
		if !bytes.Equal(b, old) && !bytes.Equal(b, new) {
			return w.fail("alda has been changed into something else (%d bytes)", len(b))
		}
		return true
	}
}

// c32Doctor lets alda doctor install the matching alda-player.
func (w *updateWorld) c32Doctor() {
	c, r := w.c, w.r
	os.Remove(w.env.Player())
	missing := r.Intn(2) == 0
	player := filepath.Join(w.bindir, "alda-player")
	os.Remove(player)
	if !missing {
		os.WriteFile(player, []byte("#!/bin/sh\necho alda-player 1.0.0\n"), 0o755)
	}
	w.before = w.files()
	w.assets["alda-player"] = []byte(fmt.Sprintf("#!/bin/sh\nif [ \"$1\" = info ]; then echo 'alda-player %s'; fi\n#%s\n", generated.ClientVersion, strings.Repeat("x", 1000+r.Intn(100000))))
	doc, defect := w.release(generated.ClientVersion)
	fault := ""
	if defect == "" && r.Intn(2) == 0 {
		fault = []string{"404", "500", "cut", "cut early", "cut chunked", "closed", "garbage"}[r.Intn(7)]
		w.faults["alda-player"] = fault
	}
	b, _ := json.Marshal(doc)
	w.document, w.wanted = string(b), generated.ClientVersion
	stdin, agreed := "y\n", true
	if r.Intn(4) == 0 {
		stdin, agreed = []string{"n\n", ""}[r.Intn(2)], false
	}
	w.env.Extra = append(w.env.Extra, "PATH="+w.bindir+":/usr/bin:/bin")
	w.note("doctor: missing %v, defect %q, fault %q", missing, defect, fault)
	stop := w.watch()
	// It goes on to try the player, which takes long and fails.
	cmd := clix.Cmd{Args: []string{"doctor"}, Stdin: []byte(stdin), Bin: filepath.Join(w.bindir, "alda"), Env: w.proxy.Vars(), Limit: 60 * time.Second}
	res := w.env.Run(cmd)
	w.note("stdin %q %s", stdin, res)
	if !stop(false) {
		return
	}
	if p := res.Crashed(); p != "" {
		w.fail("alda doctor %s", p)
		return
	}
	state, ok := w.settled([]string{"alda-player"}, false)
	if !ok {
		return
	}
	want := "old"
	if defect == "type" || defect == "url" {
		// Only the player is of interest.
		for _, a := range doc["assets"].(map[string]interface{})[runtime.GOOS+"-"+runtime.GOARCH].([]interface{}) {
			a := a.(map[string]interface{})
			if a["name"] == "alda-player" && a["type"] == "executable" && a["url"] == "https://releases.example/get/alda-player" {
				defect = ""
			}
		}
	}
	if agreed && fault == "" && defect == "" {
		want = "new"
	}
	if state != want {
		w.fail("after alda doctor, alda-player is the %s one", state)
		return
	}
	if res.Exit != 1 {
		w.fail("alda doctor succeeds with a player that doesn't work")
	}
	c.Count("players installed by alda doctor: "+state, 1)
}

func init() {
	fw.Register(&fw.Check{ID: "C32", Quick: 320, Thorough: 10000, MinNontrivialPct: 30, Workers: 16, CaseWall: 300 * time.Second,
		Rule:        "A copy of alda updates itself from a release server (behind an intercepting TLS proxy) that misbehaves in all the ways a network can, with full disks, obstacles, defective release descriptions, refusals and kills at random moments: the two executables must be exactly the old ones or exactly and completely the new ones, executable at every moment watched, nothing else in their directory may change, and the exit status must say which.",
		Need:        []string{"updates installed", "updates interrupted", "system calls that fail", "disk problems", "download faults", "defective releases", "not agreed to", "up to date", "old executables cleaned up", "looks at the executable while updating"},
		Assumptions: []string{"The release server's TLS certificate is trusted through SSL_CERT_FILE; a download that the server declares complete is complete (there are no checksums in the release format).", "A kill between the two renames can leave one new and one old executable; each of them is complete."},
		Case:        c32Case})
}
