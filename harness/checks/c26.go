package checks

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"alda.io/client/generated"

	"verif/clix"
	"verif/fw"
)

// C26: telemetry.

var partID = regexp.MustCompile(`0x[0-9a-f]+`)

type telemetryWorld struct {
	c        *fw.Ctx
	r        *rand.Rand
	env      *clix.Env
	proxy    *clix.Proxy
	log      []string
	choice   string // what the user last chose: "", "enabled", "disabled"
	informed bool   // whether the user has been told, or asked for it
	net      string // how the network is
	readOnly bool
}

func (w *telemetryWorld) note(f string, a ...interface{}) { w.log = append(w.log, fmt.Sprintf(f, a...)) }

func (w *telemetryWorld) fail(f string, a ...interface{}) bool {
	b, err := os.ReadFile(w.file())
	w.c.Fail(strings.Join(w.log, "\n")+fmt.Sprintf("\nstatus file: %q %v", b, err), f, a...)
	return false
}

func (w *telemetryWorld) file() string {
	return filepath.Join(w.env.Dir, "config", "alda", "telemetry-status")
}

var telemetryNets = []string{"ok", "ok", "ok", "refused", "500", "garbage", "closed", "redirect", "no route"}

func (w *telemetryWorld) setNet(kind string) {
	w.net = kind
	w.proxy.Refuse = func(c net.Conn, host string) bool {
		switch kind {
		case "refused":
			io.WriteString(c, "HTTP/1.1 403 Forbidden\r\nContent-Length: 0\r\n\r\n")
			return true
		case "closed":
			return true
		case "hang":
			c.Read(make([]byte, 1)) // until the command gives up
			return true
		}
		return false
	}
	w.proxy.Handler = func(c net.Conn, r *http.Request) {
		if strings.HasPrefix(r.URL.Path, "/release") {
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 15\r\n\r\n{\"releases\":[]}")
			return
		}
		switch kind {
		case "no answer":
			c.Read(make([]byte, 1))
		case "drip":
			for _, b := range []byte("HTTP/1.1 200 OK\r\nX: " + strings.Repeat("x", 200)) {
				if _, err := c.Write([]byte{b}); err != nil {
					return
				}
				time.Sleep(time.Second)
			}
		case "500":
			io.WriteString(c, "HTTP/1.1 500 Oops\r\nContent-Length: 4\r\n\r\noops")
		case "garbage":
			io.WriteString(c, "\x00\x01\x02 nothing like HTTP\n\n")
		case "redirect":
			io.WriteString(c, "HTTP/1.1 307 Over there\r\nLocation: https://elsewhere.example/telemetry\r\nContent-Length: 0\r\n\r\n")
		default:
			io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}")
		}
	}
}

func (w *telemetryWorld) vars() []string {
	if w.net == "no route" {
		return append(w.proxy.Vars(), "HTTPS_PROXY=http://127.0.0.1:1")
	}
	return w.proxy.Vars()
}

// contacts checks what was sent while commands ran.
func (w *telemetryWorld) contacts(names map[string]bool, allowed, isUpdate bool) bool {
	got, conns := w.proxy.Take()
	w.c.Eval()
	if !allowed && !isUpdate && conns > 0 {
		return w.fail("%d connections were made although telemetry is disabled: %v", conns, got)
	}
	n := 0
	for _, q := range got {
		if isUpdate && q.Method == "GET" && q.Host == "api.alda.io" && strings.HasPrefix(q.Path, "/release") {
			w.c.Count("release queries", 1)
			continue
		}
		if w.net == "redirect" && q.Host == "elsewhere.example" {
			continue
		}
		if q.Host != "api.alda.io" || q.Method != "POST" || q.Path != "/telemetry" {
			return w.fail("an unexpected request: %s https://%s%s", q.Method, q.Host, q.Path)
		}
		if !allowed {
			return w.fail("telemetry was sent although it is disabled: %s", q.Body)
		}
		n++
		var m map[string]interface{}
		if err := json.Unmarshal(q.Body, &m); err != nil {
			return w.fail("telemetry that is not JSON: %q", q.Body)
		}
		var keys []string
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		if strings.Join(keys, " ") != "arch command os version" || m["os"] != runtime.GOOS || m["arch"] != runtime.GOARCH || m["version"] != generated.ClientVersion || !names[fmt.Sprint(m["command"])] {
			return w.fail("telemetry says %s; the command was %v", q.Body, names)
		}
		w.c.Count("telemetry requests seen", 1)
	}
	if n > len(names) {
		return w.fail("%d telemetry requests for %d commands", n, len(names))
	}
	if n > 0 && !w.informed {
		return w.fail("telemetry was sent before the user was told about it")
	}
	return true
}

type telemetryCmd struct {
	args  []string
	name  string // as far as telemetry is concerned
	stdin string
}

func (w *telemetryWorld) otherCmd() telemetryCmd {
	return []telemetryCmd{
		{[]string{"version"}, "version", ""}, {[]string{"ps"}, "ps", ""}, {[]string{"instruments"}, "instruments", ""},
		{[]string{"parse", "-c", "piano: c d e secret-name = [c]"}, "parse", ""}, {[]string{"parse", "-o", "events"}, "parse", "piano: c"},
		{[]string{"parse", "-c", "piano: c )"}, "parse", ""}, {[]string{"stop"}, "stop", ""}, {[]string{"stop", "-i", "abc"}, "stop", ""},
		{[]string{"--help"}, "", ""}, {[]string{}, "alda", ""}, {[]string{"help", "play"}, "help", ""}, {[]string{"nosuch"}, "", ""},
		{[]string{"play", "--bogus"}, "", ""}, {[]string{"-v", "9", "version"}, "version", ""}, {[]string{"export", "-O", "wav", "-c", "piano: c"}, "export", ""},
		{[]string{"import", "-i", "midi", "-c", "x"}, "import", ""}, {[]string{"format", "-f", "none.alda"}, "format", ""}, {[]string{"telemetry"}, "telemetry", ""},
		{[]string{"telemetry", "--status"}, "telemetry", ""}, {[]string{"telemetry", "--enable", "--disable"}, "telemetry", ""}, {[]string{"shutdown"}, "shutdown", ""},
	}[w.r.Intn(21)]
}

func (w *telemetryWorld) exec(t telemetryCmd, env ...string) *clix.Result {
	res := w.env.Run(clix.Cmd{Args: t.args, Stdin: []byte(t.stdin), NoStdin: t.stdin == "", Env: append(w.vars(), env...), Limit: 150 * time.Second})
	w.note("[network: %s] %v %s", w.net, env, res)
	w.c.Count("commands run", 1)
	return res
}

func (w *telemetryWorld) status() string {
	b, err := os.ReadFile(w.file())
	if err != nil {
		return "?"
	}
	return string(b)
}

func noticed(res *clix.Result) bool {
	return strings.Contains(res.Err+res.Out, "alda telemetry --disable")
}

// do runs a command and checks it.
func (w *telemetryWorld) do(t telemetryCmd) bool {
	envOff := w.r.Intn(6) == 0
	var env []string
	if envOff {
		env = []string{"ALDA_DISABLE_TELEMETRY=yes"}
	}
	before := w.status()
	res := w.exec(t, env...)
	if p := res.Crashed(); p != "" {
		return w.fail("alda %q %s", t.args, p)
	}
	if res.TimedOut {
		return w.fail("alda %q waits for the network for ever", t.args)
	}
	if noticed(res) {
		w.informed = true
	}
	allowed := !envOff && w.choice != "disabled"
	if !w.contacts(map[string]bool{t.name: true}, allowed, t.name == "update") {
		return false
	}
	if w.choice != "" && w.status() != before {
		return w.fail("the setting was %q and now is %q", before, w.status())
	}
	if envOff {
		w.c.Count("disabled for one command", 1)
		if w.choice == "" && before == "?" && w.status() != "?" {
			return w.fail("a command that was not to use telemetry changed the setting to %q", w.status())
		}
	}
	if len(t.args) > 0 && t.args[0] == "telemetry" && len(t.args) < 3 {
		if res.Exit != 0 {
			if !w.readOnly {
				return w.fail("alda %q fails", t.args)
			}
			return true // it can't say
		}
		want := w.choice
		if envOff {
			want = "disabled"
		}
		if want != "" && !strings.Contains(res.Out, "Telemetry is "+want) {
			return w.fail("telemetry is %s, but alda says %q", want, res.Out)
		}
		return true
	}
	// The same without any telemetry.
	ref := w.env.Run(clix.Cmd{Args: t.args, Stdin: []byte(t.stdin), NoStdin: t.stdin == "", Env: append(w.vars(), "ALDA_DISABLE_TELEMETRY=yes")})
	if _, conns := w.proxy.Take(); conns > 0 && t.name != "update" {
		return w.fail("connections in spite of ALDA_DISABLE_TELEMETRY")
	}
	w.c.Eval()
	if ref.Exit != res.Exit || partID.ReplaceAllString(ref.Out, "P") != partID.ReplaceAllString(res.Out, "P") && !(noticed(res)) {
		return w.fail("alda %q: without telemetry the result is different: %s", t.args, ref)
	}
	return true
}

func (w *telemetryWorld) choose(what string) bool {
	flag := map[string]string{"enabled": "--enable", "disabled": "--disable"}[what]
	was := w.choice
	res := w.exec(telemetryCmd{args: []string{"telemetry", flag}})
	if p := res.Crashed(); p != "" {
		return w.fail("alda telemetry %s %s", flag, p)
	}
	if noticed(res) || what == "enabled" {
		w.informed = true
	}
	if !w.contacts(map[string]bool{"telemetry": true}, was != "disabled", false) {
		return false
	}
	if res.Exit == 0 {
		w.choice = what
		w.c.Count("choices made", 1)
		if w.status() != what {
			return w.fail("after alda telemetry %s succeeded, the setting is %q", flag, w.status())
		}
		return true
	}
	w.c.Count("choices that could not be stored", 1)
	if !w.readOnly {
		return w.fail("alda telemetry %s fails", flag)
	}
	return true
}

// crowd runs many commands at the same time.
func (w *telemetryWorld) crowd() bool {
	if w.choice == "" {
		return true
	}
	n := 6 + w.r.Intn(10)
	var wg sync.WaitGroup
	cmds := make([]telemetryCmd, n)
	res := make([]*clix.Result, n)
	names := map[string]bool{}
	for k := range cmds {
		cmds[k] = w.otherCmd()
		if k%3 == 0 {
			cmds[k] = telemetryCmd{args: []string{"telemetry", map[string]string{"enabled": "--enable", "disabled": "--disable"}[w.choice]}, name: "telemetry"}
		}
		names[cmds[k].name+strings.Repeat(" ", k)] = true // to count them
		names[cmds[k].name] = true
	}
	for k := range cmds {
		k := k
		wg.Add(1)
		kill := time.Duration(0)
		if w.r.Intn(4) == 0 {
			kill = time.Duration(w.r.Intn(40)) * time.Millisecond
		}
		go func() {
			defer wg.Done()
			for rep := 0; rep < 3; rep++ {
				res[k] = w.env.Run(clix.Cmd{Args: cmds[k].args, Stdin: []byte(cmds[k].stdin), NoStdin: cmds[k].stdin == "", Env: w.vars(), KillAt: kill})
			}
		}()
	}
	wg.Wait()
	for k := range cmds {
		w.note("(at the same time) %v", cmds[k].args)
	}
	w.c.Count("commands run at the same time", 3*n)
	if w.choice == "enabled" {
		w.proxy.Take()
	} else if !w.contacts(names, false, false) {
		return false
	}
	for _, r := range res {
		if r != nil && noticed(r) {
			return w.fail("a command thought that the user had not chosen yet: %s", r)
		}
	}
	if w.status() != w.choice {
		return w.fail("the setting was %s and now is %q", w.choice, w.status())
	}
	return true
}

func c26Case(c *fw.Ctx, i int) {
	r := rand.New(rand.NewSource(c.R.Int63()))
	w := &telemetryWorld{c: c, r: r, env: clix.New()}
	defer w.env.Close()
	w.env.Drop = []string{"ALDA_DISABLE_TELEMETRY"}
	w.proxy = clix.NewProxy(w.env.Dir)
	defer w.proxy.Close()
	w.setNet("ok")
	dir := filepath.Dir(w.file())
	if i%6 == 5 {
		// The configuration can't be written, or not even read.
		w.readOnly = true
		kind := r.Intn(4)
		w.note("configuration problem %d", kind)
		switch kind {
		case 0:
			os.WriteFile(dir, []byte("a file"), 0o644)
		case 1:
			os.MkdirAll(w.file(), 0o755)
		default:
			os.MkdirAll(dir, 0o755)
			if kind == 2 {
				os.WriteFile(w.file(), []byte("disabled"), 0o644)
				w.choice = "disabled"
			}
			(&world{env: w.env}).readOnly()
			for _, d := range []string{"cache", "cache/alda", "cache/alda/state", "cache/alda/state/players"} {
				os.Chmod(filepath.Join(w.env.Dir, d), 0o755)
			}
			os.Chmod(filepath.Join(w.env.Dir, "ca.pem"), 0o644)
		}
		c.Count("configurations that can't be written", 1)
	} else if r.Intn(2) == 0 {
		os.MkdirAll(filepath.Join(dir, "junk"), 0o755)
		os.WriteFile(filepath.Join(dir, "alda-repl-history"), []byte("x\x00y"), 0o644)
		os.WriteFile(filepath.Join(dir, "telemetry-status.bak"), []byte("enabled"), 0o644)
	}
	for n := 6 + r.Intn(8); n > 0; n-- {
		ok := true
		w.setNet(telemetryNets[r.Intn(len(telemetryNets))])
		if i%25 == 3 && n == 2 {
			w.setNet([]string{"hang", "no answer", "drip"}[r.Intn(3)])
			c.Count("network hangs", 1)
		}
		switch k := r.Intn(20); {
		case k < 4:
			ok = w.choose("disabled")
		case k < 6:
			ok = w.choose("enabled")
		case k < 8 && !w.readOnly:
			// The status file is lost or damaged.
			os.MkdirAll(dir, 0o755)
			if k == 6 {
				os.Remove(w.file())
				w.note("status file removed")
			} else {
				os.WriteFile(w.file(), []byte([]string{"", "garbage", "\x00", "yes", "enable", "dis", "{}"}[r.Intn(7)]), 0o644)
				w.note("status file damaged: %q", w.status())
			}
			w.choice, w.informed = "", false
			c.Count("status files lost or damaged", 1)
		case k < 9 && !w.readOnly:
			if i%3 == 0 {
				ok = w.crowd()
			}
		case k < 10:
			ok = w.do(telemetryCmd{args: []string{"update"}, name: "update"})
		default:
			ok = w.do(w.otherCmd())
		}
		if !ok {
			return
		}
	}
	c.Nontrivial(strings.Join(w.log, "\n"))
	if i < 3 {
		c.Sample(w.log)
	}
}

func init() {
	fw.Register(&fw.Check{ID: "C26", Quick: 400, Thorough: 12000, MinNontrivialPct: 4, Workers: 12, CaseWall: 300 * time.Second,
		Rule:        "Histories of alda commands in environments of their own, behind an intercepting proxy that terminates TLS for the hosts contacted: no connection at all while telemetry is disabled (by choice or for one command), no change of the setting by other commands, also when many run at once or are killed, requests hold nothing but os, arch, version and command name and come after the notice, and the results of commands are those without telemetry, however the network behaves.",
		Need:        []string{"telemetry requests seen", "choices made", "choices that could not be stored", "status files lost or damaged", "commands run at the same time", "disabled for one command", "release queries", "network hangs"},
		Assumptions: []string{"Commands honour HTTPS_PROXY and SSL_CERT_FILE (Go's standard library does), which is how their connections are seen."},
		Case:        c26Case})
}
