package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/clix"
	"verif/fw"
	"verif/oscx"
	"verif/replx"
)

// C24: state files.

// stateEntry is what a state file says, read independently of alda.
type stateEntry struct {
	ID, State string
	Port, PID int
}

func readEntry(path string, server bool) (e stateEntry, ok bool) {
	info, err := os.Stat(path)
	if err != nil || !info.Mode().IsRegular() || time.Since(info.ModTime()) > 2*time.Minute || !strings.HasSuffix(path, ".json") {
		return e, false
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return e, false
	}
	v, err := strictJSON(string(b))
	if err != nil {
		return e, false
	}
	m, isObj := v.(obj)
	if !isObj {
		return e, false
	}
	num := func(k string) (int, bool) {
		f, ok := field(m, k).(json.Number)
		if !ok {
			return 0, false
		}
		n, err := f.Int64()
		return int(n), err == nil
	}
	e.ID = strings.TrimSuffix(filepath.Base(path), ".json")
	if e.Port, ok = num("port"); !ok || e.Port < 1 || e.Port > 65535 {
		return e, false
	}
	if e.PID, ok = num("pid"); !ok {
		return e, false
	}
	if server {
		e.State = "-"
		return e, true
	}
	if _, ok = num("expiry"); !ok {
		return e, false
	}
	e.State, ok = field(m, "state").(string)
	return e, ok && e.State != ""
}

func readEntries(env *clix.Env) (players, servers map[string]stateEntry) {
	read := func(dir string, server bool) map[string]stateEntry {
		out := map[string]stateEntry{}
		ents, _ := os.ReadDir(dir)
		for _, d := range ents {
			if e, ok := readEntry(filepath.Join(dir, d.Name()), server); ok {
				out[e.ID] = e
			}
		}
		return out
	}
	return read(env.Players(), false), read(env.Servers(), true)
}

func randID(r *rand.Rand) string {
	b := make([]byte, 3)
	for i := range b {
		b[i] = "abcdefghijklmnopqrstuvwxyz"[r.Intn(26)]
	}
	return string(b)
}

func playerJSON(state string, port int, pid int) string {
	return fmt.Sprintf(`{"expiry" : %d, "pid" : %d, "port" : %d, "state" : %q}`, time.Now().Add(7*time.Minute).UnixMilli(), pid, port, state)
}

// junkState writes an entry that doesn't describe a process, whatever it seems
// to say about the given port.
func junkState(r *rand.Rand, dir, id string, port int, server bool) (kind string) {
	path := filepath.Join(dir, id+".json")
	good := playerJSON([]string{"ready", "active", "starting"}[r.Intn(3)], port, 1000+r.Intn(1000))
	if server {
		good = fmt.Sprintf(`{"id":%q,"pid":%d,"port":%d}`, id, 1000+r.Intn(1000), port)
	}
	kinds := []string{"empty", "truncated", "garbage", "binary", "null", "array", "string", "number", "no port", "port text", "port 0", "port negative", "port too large", "port fraction",
		"trailing", "directory", "dangling symlink", "symlink loop", "stale", "spaces", "two documents", "html"}
	if !server {
		kinds = append(kinds, "no state", "state number", "empty state", "empty object")
	}
	kind = kinds[r.Intn(len(kinds))]
	text := ""
	sub := func(old, new string) string { return strings.Replace(good, old, new, 1) }
	portText := fmt.Sprint(port)
	switch kind {
	case "truncated":
		text = good[:1+r.Intn(len(good)-1)]
	case "garbage":
		text = "not a state file\n"
	case "binary":
		b := make([]byte, 1+r.Intn(400))
		r.Read(b)
		text = "\x00" + string(b)
	case "null":
		text = "null"
	case "array":
		text = "[" + good + "]"
	case "string":
		text = `"ready"`
	case "number":
		text = portText
	case "no port":
		text = strings.NewReplacer(`"port" : `+portText+", ", "", `,"port":`+portText, "").Replace(good)
	case "port text":
		text = sub(portText, `"`+portText+`"`)
	case "port 0":
		text = sub(portText, "0")
	case "port negative":
		text = sub(portText, "-"+portText)
	case "port too large":
		text = sub(portText, fmt.Sprint(port+65536))
	case "port fraction":
		text = sub(portText, portText+".5")
	case "trailing":
		text = good + "}"
	case "two documents":
		text = good + good
	case "spaces":
		text = "  \n\t\n"
	case "html":
		text = "<html>404</html>"
	case "no state":
		text = fmt.Sprintf(`{"port":%d,"pid":1,"expiry":1}`, port)
	case "empty state":
		text = fmt.Sprintf(`{"port":%d,"pid":1,"expiry":1,"state":""}`, port)
	case "state number":
		text = fmt.Sprintf(`{"port":%d,"pid":1,"expiry":1,"state":1}`, port)
	case "empty object":
		text = "{}"
	case "directory":
		os.MkdirAll(filepath.Join(path, "sub"), 0o755)
		os.WriteFile(filepath.Join(path, "sub", "x.json"), []byte(good), 0o644)
		return kind
	case "dangling symlink":
		os.Symlink(filepath.Join(dir, "nowhere"), path)
		return kind
	case "symlink loop":
		os.Symlink(path, path)
		return kind
	case "stale":
		os.WriteFile(path, []byte(good), 0o644)
		old := time.Now().Add(-time.Duration(125+r.Intn(100000)) * time.Second)
		os.Chtimes(path, old, old)
		return kind
	}
	os.WriteFile(path, []byte(text), 0o644)
	return kind
}

// world is an environment with players, real and imagined.
type world struct {
	c     *fw.Ctx
	env   *clix.Env
	pool  *replx.Pool
	decoy *oscx.Player // what no valid entry names
	log   []string
	r     *rand.Rand
	seen  map[*replx.Stub]int // packets accounted for
	drift bool                // state files change while commands run
}

func newWorld(c *fw.Ctx, keep int) *world {
	env := clix.New()
	r := rand.New(rand.NewSource(c.R.Int63()))
	w := &world{c: c, env: env, r: r, seen: map[*replx.Stub]int{}}
	w.pool = &replx.Pool{Env: env.Env, R: rand.New(rand.NewSource(c.R.Int63())), Keep: keep}
	d, err := oscx.NewPlayer(0)
	if err != nil {
		panic(err)
	}
	w.decoy = d
	return w
}

func (w *world) close() { w.pool.Close(); w.decoy.Close(); w.env.Close() }

func (w *world) note(format string, args ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *world) fail(format string, args ...interface{}) bool {
	ents, _ := os.ReadDir(w.env.Players())
	files := ""
	for _, d := range ents {
		b, _ := os.ReadFile(filepath.Join(w.env.Players(), d.Name()))
		files += fmt.Sprintf("%s: %.120q\n", d.Name(), b)
	}
	w.c.Fail(strings.Join(w.log, "\n")+"\nplayer state files now:\n"+files, format, args...)
	return false
}

// packets are the new packets that the players got, once they have arrived.
func (w *world) packets(expect int) map[*replx.Stub][]oscx.Packet {
	end := time.Now().Add(5 * time.Second)
	for {
		w.pool.Fence()
		out, n := map[*replx.Stub][]oscx.Packet{}, 0
		for _, s := range w.pool.Stubs() {
			if k := s.Packets(); len(k) > w.seen[s] {
				out[s] = k[w.seen[s]:]
				n += len(k) - w.seen[s]
			}
		}
		if n >= expect || time.Now().After(end) {
			for s := range out {
				w.seen[s] += len(out[s])
			}
			return out
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// run runs a command and checks what every command has to observe.
func (w *world) run(c clix.Cmd) *clix.Result {
	if c.Limit == 0 {
		c.Limit = 200 * time.Second
	}
	res := w.env.Run(c)
	w.note("%s", res)
	w.c.Count("commands run", 1)
	if p := res.Crashed(); p != "" {
		w.fail("alda %q %s", c.Args, p)
		return nil
	}
	if res.Exit != 0 && strings.TrimSpace(res.Err) == "" {
		w.fail("alda %q fails without a message", c.Args)
		return nil
	}
	return res
}

// decoyQuiet checks that what no valid entry names hasn't been contacted.
func (w *world) decoyQuiet() bool {
	w.decoy.Fence()
	if n := len(w.decoy.Packets()) + w.decoy.Pings(); n > 0 {
		return w.fail("something was sent to a port that no valid state file of this version names")
	}
	return true
}

// ps runs `alda ps` and compares what it lists with the state files.
func (w *world) ps() bool {
	p0, s0 := readEntries(w.env)
	res := w.run(clix.Cmd{Args: []string{"ps"}, NoStdin: w.r.Intn(2) == 0})
	if res == nil {
		return false
	}
	p1, s1 := readEntries(w.env)
	w.c.Eval()
	if res.Exit != 0 {
		return w.fail("alda ps fails")
	}
	lines := strings.Split(strings.TrimRight(res.Out, "\n"), "\n")
	if len(lines) == 0 || strings.Join(strings.Fields(lines[0]), " ") != "id port state expiry type pid" {
		return w.fail("alda ps prints no header")
	}
	listed := map[string]bool{}
	for _, l := range lines[1:] {
		col := strings.Split(l, "\t")
		if len(col) != 6 {
			return w.fail("alda ps prints the line %q", l)
		}
		typ := col[4]
		if listed[typ+col[0]] {
			return w.fail("alda ps lists %s twice", col[0])
		}
		listed[typ+col[0]] = true
		before, after := p0, p1
		if typ == "repl-server" {
			before, after = s0, s1
		} else if typ != "player" {
			return w.fail("alda ps lists something of type %q", typ)
		}
		match := func(e stateEntry, ok bool) bool {
			return ok && fmt.Sprint(e.Port) == col[1] && e.State == col[2] && fmt.Sprint(e.PID) == col[5]
		}
		e0, ok0 := before[col[0]]
		e1, ok1 := after[col[0]]
		if !match(e0, ok0) && !match(e1, ok1) && !(w.drift && strings.HasPrefix(col[0], "flick")) {
			return w.fail("alda ps lists %q; the state file said %v %v before and %v %v after", l, e0, ok0, e1, ok1)
		}
		w.c.Count("processes listed", 1)
	}
	for _, x := range []struct {
		typ           string
		before, after map[string]stateEntry
	}{{"player", p0, p1}, {"repl-server", s0, s1}} {
		for id, e := range x.before {
			if e1, ok := x.after[id]; ok && e1 == e && !listed[x.typ+id] && !(w.drift && strings.HasPrefix(id, "flick")) {
				return w.fail("alda ps does not list the %s %v", x.typ, e)
			}
		}
	}
	return true
}

func countNotes(k oscx.Packet) int {
	n := 0
	for _, m := range k.Msgs {
		if strings.HasSuffix(m.Addr, "/midi/note") {
			n++
		}
	}
	return n
}

func addrs(k oscx.Packet) string {
	var out []string
	for _, m := range k.Msgs {
		out = append(out, m.Addr)
	}
	return strings.Join(out, " ")
}

// only checks that exactly these players got something, and that one packet.
func (w *world) only(want []*replx.Stub, what string, ok func(oscx.Packet) bool) bool {
	got := w.packets(len(want))
	w.c.Eval()
	wanted := map[*replx.Stub]bool{}
	for _, s := range want {
		wanted[s] = true
		ks := got[s]
		if len(ks) != 1 || !ok(ks[0]) {
			all := []string{}
			for _, k := range ks {
				all = append(all, addrs(k))
			}
			return w.fail("the player %s got %d packets (%.300q) instead of %s", s.ID, len(ks), all, what)
		}
		w.c.Count("packets delivered", 1)
	}
	for s, ks := range got {
		if !wanted[s] {
			return w.fail("the player %s, which was not meant, got %.200q", s.ID, addrs(ks[0]))
		}
	}
	return true
}

func isMsg(addr string) func(oscx.Packet) bool {
	return func(k oscx.Packet) bool { return len(k.Msgs) == 1 && k.Msgs[0].Addr == addr }
}

func tune(r *rand.Rand) (code string, notes int) {
	notes = 1 + r.Intn(30)
	return "piano: " + strings.Repeat(string("cdefgab"[r.Intn(7)])+" ", notes), notes
}

func hasNotes(n int) func(oscx.Packet) bool {
	return func(k oscx.Packet) bool { return countNotes(k) == n && strings.Contains(addrs(k), "/system/play") }
}

// states of the live players before a command.
func (w *world) states() map[*replx.Stub]string {
	out := map[*replx.Stub]string{}
	for _, s := range w.pool.Live() {
		out[s] = s.State()
	}
	return out
}

// playAnywhere plays a score without saying where.
func (w *world) playAnywhere() bool {
	code, n := tune(w.r)
	before := w.states()
	ready := 0
	for _, s := range before {
		if s == "ready" {
			ready++
		}
	}
	res := w.run(clix.Cmd{Args: []string{"play", "-c", code}, NoStdin: true})
	if res == nil {
		return false
	}
	expect := 1
	if res.Exit != 0 {
		expect = 0
	}
	got := w.packets(expect)
	w.c.Eval()
	total := 0
	for s, ks := range got {
		total += len(ks)
		if st, ok := before[s]; ok && st != "ready" {
			return w.fail("the score went to the player %s, which was %s", s.ID, st)
		}
		if len(ks) != 1 || !hasNotes(n)(ks[0]) {
			return w.fail("the player %s got %d packets, first %q, instead of the score of %d notes", s.ID, len(ks), addrs(ks[0]), n)
		}
	}
	if res.Exit == 0 && total != 1 {
		return w.fail("alda play succeeded, but the score was delivered %d times", total)
	}
	if res.Exit != 0 && total != 0 {
		return w.fail("alda play failed, but the score was delivered %d times", total)
	}
	// The first ping makes a player busy, so it takes two, or one that makes
	// way for another.
	if res.Exit != 0 && (ready >= 2 || ready >= 1 && w.pool.Keep > 0) {
		return w.fail("alda play fails although %d players are available", ready)
	}
	if res.Exit == 0 {
		w.c.Count("scores played by an available player", 1)
	} else {
		w.c.Count("refused for lack of a player", 1)
	}
	return true
}

func (w *world) pick(state string) *replx.Stub {
	var list []*replx.Stub
	for _, s := range w.pool.Live() {
		if state == "" || s.State() == state {
			list = append(list, s)
		}
	}
	if len(list) == 0 {
		return nil
	}
	return list[w.r.Intn(len(list))]
}

// step runs a command that addresses players.
func (w *world) step(bad []string) bool {
	r := w.r
	switch k := r.Intn(12); k {
	case 0, 1, 2:
		return w.playAnywhere()
	case 3:
		s := w.pick("")
		if s == nil {
			return true
		}
		code, n := tune(r)
		how := []string{"-i", s.ID}
		if r.Intn(2) == 0 {
			how = []string{"-p", fmt.Sprint(s.Port)}
		}
		res := w.run(clix.Cmd{Args: append([]string{"play", "-c", code}, how...), NoStdin: true})
		if res == nil {
			return false
		}
		if res.Exit != 0 {
			return w.fail("alda play with %v fails", how)
		}
		return w.only([]*replx.Stub{s}, fmt.Sprintf("the score of %d notes", n), hasNotes(n))
	case 4:
		s := w.pick("")
		if s == nil {
			return true
		}
		res := w.run(clix.Cmd{Args: []string{"stop", "-i", s.ID}})
		if res == nil {
			return false
		}
		if res.Exit != 0 {
			return w.fail("alda stop -i %s fails", s.ID)
		}
		return w.only([]*replx.Stub{s}, "a stop message", isMsg("/system/stop"))
	case 5:
		live := w.pool.Live()
		res := w.run(clix.Cmd{Args: []string{"stop"}})
		if res == nil {
			return false
		}
		if res.Exit != 0 {
			return w.fail("alda stop fails")
		}
		return w.only(live, "a stop message", isMsg("/system/stop"))
	case 6:
		s := w.pick("")
		if s == nil || r.Intn(2) == 0 {
			return true
		}
		w.pool.SetKeep(0)
		res := w.run(clix.Cmd{Args: []string{"shutdown", "-i", s.ID}})
		if res == nil {
			return false
		}
		if res.Exit != 0 {
			return w.fail("alda shutdown -i %s fails", s.ID)
		}
		if !w.only([]*replx.Stub{s}, "a shutdown message", isMsg("/system/shutdown")) {
			return false
		}
		return w.awaitGone(s)
	case 7:
		var active []*replx.Stub
		for _, s := range w.pool.Live() {
			if s.State() == "active" {
				active = append(active, s)
			}
		}
		res := w.run(clix.Cmd{Args: []string{"play"}, NoStdin: true})
		if res == nil {
			return false
		}
		if res.Exit != 0 {
			return w.fail("alda play (to resume) fails")
		}
		w.c.Count("resumed", 1)
		return w.only(active, "a play message", isMsg("/system/play"))
	case 8, 9:
		// A player that isn't there.
		id := "zz" + randID(r)
		if len(bad) > 0 && r.Intn(3) > 0 {
			id = bad[r.Intn(len(bad))]
		}
		code, _ := tune(r)
		args := [][]string{{"play", "-c", code, "-i", id}, {"stop", "-i", id}, {"shutdown", "-i", id}, {"play", "-i", id}}[r.Intn(4)]
		res := w.run(clix.Cmd{Args: args, NoStdin: true})
		if res == nil {
			return false
		}
		w.c.Count("unknown players refused", 1)
		if res.Exit != 1 {
			return w.fail("alda %q succeeds, although there is no player %s", args, id)
		}
		if !strings.Contains(res.Err, id) {
			return w.fail("alda %q: the error message does not name %s", args, id)
		}
		return w.only(nil, "", nil)
	default:
		return w.ps()
	}
}

func (w *world) awaitGone(s *replx.Stub) bool {
	for end := time.Now().Add(5 * time.Second); !s.Gone(); time.Sleep(5 * time.Millisecond) {
		if time.Now().After(end) {
			return w.fail("%s did not go", s.ID)
		}
	}
	return true
}

// closedPort is a port that nobody listens on (and nobody will).
func closedPort() int {
	l, err := oscx.Listen()
	if err != nil {
		panic(err)
	}
	defer l.Close()
	var p int
	fmt.Sscanf(l.Addr().String(), "127.0.0.1:%d", &p)
	return p
}

func c24Case(c *fw.Ctx, i int) {
	r := rand.New(rand.NewSource(c.R.Int63()))
	slow := i%20 == 4 // with players that are dead but say they are ready
	keep := r.Intn(3)
	w := newWorld(c, keep)
	defer w.close()
	w.pool.Start()
	for n := r.Intn(3); n > 0; n-- {
		w.pool.Add("active")
	}
	for n := r.Intn(2); n > 0; n-- {
		w.pool.Add("starting")
	}
	for n := r.Intn(3); n > 0; n-- {
		w.pool.Add("ready")
	}
	if slow && keep == 0 {
		w.pool.SetKeep(1)
		w.pool.Start()
	}
	players, servers := w.env.Players(), w.env.Servers()
	os.MkdirAll(servers, 0o755)
	var bad []string
	for n := r.Intn(8); n > 0; n-- {
		// Some come first and some come last in the directory.
		id := string("a0pz"[r.Intn(4)]) + randID(r)
		if _, err := os.Lstat(filepath.Join(players, id+".json")); err == nil {
			continue
		}
		kind := junkState(r, players, id, w.decoy.Port, false)
		w.note("%s.json: %s", id, kind)
		c.Count("bad player entries", 1)
		c.Count("bad entry: "+kind, 1)
		bad = append(bad, id)
	}
	for n := r.Intn(4); n > 0; n-- {
		id := randID(r)
		if _, err := os.Lstat(filepath.Join(servers, id+".json")); err == nil {
			continue
		}
		if r.Intn(2) == 0 {
			c.Count("bad server entries", 1)
			w.note("server %s.json: %s", id, junkState(r, servers, id, w.decoy.Port, true))
			continue
		}
		os.WriteFile(filepath.Join(servers, id+".json"), []byte(fmt.Sprintf(`{"id":%q,"pid":%d,"port":%d}`, id, 100+r.Intn(9999), 1+r.Intn(65535))), 0o644)
	}
	// Players of other versions.
	for n := r.Intn(3); n > 0; n-- {
		dir := filepath.Join(filepath.Dir(players), []string{"1.9.9", "2.0.0", "99.0.0", "players"}[r.Intn(4)])
		os.MkdirAll(dir, 0o755)
		id := randID(r)
		os.WriteFile(filepath.Join(dir, id+".json"), []byte(playerJSON("ready", w.decoy.Port, 1)), 0o644)
		bad = append(bad, id)
		c.Count("players of other versions", 1)
	}
	// Players that died without taking their state files along.
	for n := r.Intn(3); n > 0; n-- {
		state := []string{"active", "starting"}[r.Intn(2)]
		id := "d" + randID(r)
		os.WriteFile(filepath.Join(players, id+".json"), []byte(playerJSON(state, closedPort(), 7)), 0o644)
		w.note("%s.json: dead and %s", id, state)
		c.Count("dead players", 1)
	}
	if slow {
		id := "0" + randID(r) // the first one
		os.WriteFile(filepath.Join(players, id+".json"), []byte(playerJSON("ready", closedPort(), 7)), 0o644)
		w.note("%s.json: dead and ready", id)
		c.Count("dead players that say they are ready", 1)
		if r.Intn(2) == 0 {
			w.readOnly()
			c.Count("state files that can't be deleted", 1)
		}
		if w.playAnywhere() {
			w.decoyQuiet()
		}
		c.Nontrivial(strings.Join(w.log, "\n"))
		return
	}
	if i%10 == 7 {
		w.c24Spawn()
		return
	}
	stop := func() {}
	if i%3 == 1 {
		stop = w.churn()
		c.Count("sessions with changing state files", 1)
	}
	for n := 3 + r.Intn(6); n > 0; n-- {
		ok := false
		if w.drift {
			ok = w.ps()
			if ok && r.Intn(2) == 0 {
				ok = w.step(bad)
			}
		} else {
			ok = w.step(bad)
		}
		if !ok || !w.decoyQuiet() {
			break
		}
	}
	stop()
	if i%4 == 2 && !c.Failed() {
		w.pool.SetKeep(0)
		live := w.pool.Live()
		if res := w.run(clix.Cmd{Args: []string{"shutdown"}}); res != nil {
			if res.Exit != 0 {
				w.fail("alda shutdown fails")
			} else if w.only(live, "a shutdown message", isMsg("/system/shutdown")) {
				for _, s := range live {
					w.awaitGone(s)
				}
				w.ps()
			}
		}
	}
	c.Nontrivial(strings.Join(w.log, "\n"))
	if c.Tier == "quick" && i < 3 {
		c.Sample(w.log)
	}
}

// churn changes state files all the time, until told to stop.
func (w *world) churn() func() {
	w.drift = true
	done, wg := make(chan bool), sync.WaitGroup{}
	wg.Add(1)
	r := rand.New(rand.NewSource(w.r.Int63()))
	port := closedPort()
	go func() {
		defer wg.Done()
		for n := 0; ; n++ {
			select {
			case <-done:
				return
			default:
			}
			dir := w.env.Players()
			id := fmt.Sprintf("flick%d", r.Intn(4))
			path := filepath.Join(dir, id+".json")
			switch r.Intn(4) {
			case 0:
				os.Remove(path)
			case 1, 2:
				// Like the player does it: truncated, then written.
				os.WriteFile(path, []byte(playerJSON([]string{"starting", "active"}[r.Intn(2)], port, 1)), 0o644)
			case 3:
				f, err := os.Create(path)
				if err == nil {
					s := playerJSON("active", port, 1)
					f.WriteString(s[:len(s)/2])
					time.Sleep(time.Millisecond)
					f.WriteString(s[len(s)/2:])
					f.Close()
				}
			}
			time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
		}
	}()
	return func() { close(done); wg.Wait() }
}

// readOnly runs the commands as a user who may not change the state files.
func (w *world) readOnly() {
	os.Chmod(w.env.Dir, 0o755)
	os.Chmod(fw.Scratch(), 0o755)
	bin := filepath.Join(w.env.Dir, "alda")
	b, err := os.ReadFile(clix.Bin())
	if err != nil {
		return
	}
	os.WriteFile(bin, b, 0o755)
	os.WriteFile(filepath.Join(w.env.Dir, "bin", "as-nobody"), []byte("#!/bin/sh\nshift\nexec setpriv --reuid=65534 --regid=65534 --clear-groups "+bin+" \"$@\"\n"), 0o755)
	w.env.Wrap = []string{filepath.Join(w.env.Dir, "bin", "as-nobody")}
	w.note("(as a user who may not change the state files)")
}

// c24Spawn counts the players that alda starts in the background.
func (w *world) c24Spawn() {
	w.env.Spawn = true
	p, _ := readEntries(w.env)
	n := 3
	for _, e := range p {
		if e.State == "ready" || e.State == "starting" {
			n--
		}
	}
	if n < 0 {
		n = 0
	}
	for _, x := range []struct {
		args []string
		want int
	}{{[]string{"ps"}, 0}, {[]string{"version"}, n}, {[]string{"ps"}, n}, {[]string{"shutdown", "-p", fmt.Sprint(closedPort())}, n}, {[]string{"instruments"}, 2 * n}} {
		if w.run(clix.Cmd{Args: x.args}) == nil {
			return
		}
		for end := time.Now().Add(5 * time.Second); w.env.Spawned() < x.want && time.Now().Before(end); {
			time.Sleep(10 * time.Millisecond)
		}
		time.Sleep(50 * time.Millisecond)
		w.c.Eval()
		if got := w.env.Spawned(); got != x.want {
			w.fail("alda %v: %d players have been started in all, not %d", x.args, got, x.want)
			return
		}
		w.c.Count("players started in the background", x.want)
	}
	w.c.Nontrivial(strings.Join(w.log, "\n"))
	w.decoyQuiet()
}

func init() {
	fw.Register(&fw.Check{ID: "C24", Quick: 200, Thorough: 6000, MinNontrivialPct: 8, Workers: 24, CaseWall: 600 * time.Second,
		Rule:        "Sequences of real alda commands over generated state directories (players alive, busy, dead; malformed, stale, foreign and vanishing entries, unwritable directories): alda ps must list exactly the valid current entries, every message must reach exactly the players it was meant for, ids must name one player or be refused, and no player that is busy or unknown is given a score.",
		Need:        []string{"processes listed", "packets delivered", "unknown players refused", "bad player entries", "players of other versions", "dead players that say they are ready", "sessions with changing state files", "players started in the background", "scores played by an available player"},
		Assumptions: []string{"The players are stand-ins that keep their state files the way the Kotlin player does; a dead player that still says it is ready may cost 20 s per lookup (the client's own ping timeout)."},
		Case:        c24Case})
	_ = sort.Strings
}
