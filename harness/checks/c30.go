package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	"alda.io/client/transmitter"

	"verif/clix"
	"verif/fw"
	"verif/lang"
	"verif/oscx"
	"verif/replx"
	"verif/sut"
)

// C30: alda play.

// source passes a score to a command.
func (w *world) source(text string) (cmd clix.Cmd, how string) {
	k := w.r.Intn(3)
	if k != 1 && text != "" && w.r.Intn(8) == 0 {
		// A long one: megabytes of comment before the music.
		line := "# " + strings.Repeat("la ", 1+w.r.Intn(300)) + "\n"
		text = strings.Repeat(line, (1+w.r.Intn(3<<20))/len(line)+1) + text
		w.c.Count("long input", 1)
	}
	if k == 1 && (strings.Contains(text, "\x00") || text == "" || len(text) > 100000) {
		k = 0
	}
	switch k {
	case 0:
		name := w.env.Path([]string{"score.alda", "a score.txt", "ünï.alda", "sub/deep/x"}[w.r.Intn(4)])
		os.MkdirAll(w.env.Path("sub", "deep"), 0o755)
		os.WriteFile(name, []byte(text), 0o644)
		if w.r.Intn(2) == 0 {
			name = strings.TrimPrefix(name, w.env.Path()+"/")
		}
		flag := []string{"-f", "--file"}[w.r.Intn(2)]
		return clix.Cmd{Args: []string{flag, name}, NoStdin: w.r.Intn(2) == 0}, "file"
	case 1:
		return clix.Cmd{Args: []string{"-c", text}, NoStdin: w.r.Intn(2) == 0}, "code"
	}
	return clix.Cmd{Stdin: []byte(text)}, "stdin"
}

// c30Score is a score that can be played.
func c30Score(c *fw.Ctx, i int) (text string, ref *lang.Ref, res sut.Result, evs []sut.Ev, ok bool) {
	text, ref, res, ok = transmitScore(c, i)
	if !ok {
		return
	}
	var err error
	if evs, err = sut.Events(res.Score); err != nil || tooLong(evs) || ref != nil && len(ref.Local)+len(ref.Global) > 0 && tooLongTempo(ref) {
		ok = false
	}
	return
}

func (w *world) c30Play(i int) {
	c := w.c
	var text string
	var ref *lang.Ref
	var res sut.Result
	var evs []sut.Ev
	for try := 0; ; try++ {
		var ok bool
		if text, ref, res, evs, ok = c30Score(c, i+try); ok {
			break
		}
		if try > 20 {
			return
		}
	}
	w.note("score:\n%s", text)
	cmd, how := w.source(text)
	c.Count("input: "+how, 1)
	from, to := 0.0, math.Inf(1)
	opts := []transmitter.TransmissionOption{transmitter.OneOff()}
	if ref != nil {
		end := 0.0
		for _, e := range evs {
			end = math.Max(end, e.Offset)
		}
		if w.r.Intn(3) == 0 {
			t, p := reference(c, ref, res.Score, end)
			cmd.Args, from = append(cmd.Args, "--from="+t), p
			opts = append(opts, transmitter.TransmitFrom(t))
		}
		if w.r.Intn(3) == 0 {
			t, p := reference(c, ref, res.Score, end)
			cmd.Args, to = append(cmd.Args, "-T", t), p
			opts = append(opts, transmitter.TransmitTo(t))
		}
	}
	want, werr := bundleOf(res.Score, opts...)
	refused := werr != nil
	if math.IsNaN(from) || math.IsNaN(to) {
		refused = true
	} else if refused && !math.IsInf(from, 1) && !math.IsInf(to, 1) {
		w.fail("the score is not transmitted: %v", werr)
		return
	}
	// Where to.
	var target *replx.Stub
	switch w.r.Intn(4) {
	case 0:
		target = w.pick("")
		cmd.Args = append(cmd.Args, "-i", target.ID)
		c.Count("player asked for by id", 1)
	case 1:
		target = w.pick("")
		cmd.Args = append(cmd.Args, fmt.Sprintf("--port=%d", target.Port))
		c.Count("player asked for by port", 1)
	}
	cmd.Args = append([]string{"play"}, cmd.Args...)
	before := w.states()
	out := w.run(cmd)
	if out == nil {
		return
	}
	expect := 1
	if out.Exit != 0 {
		expect = 0
	}
	got := w.packets(expect)
	c.Eval()
	if refused {
		c.Count("windows refused", 1)
		if out.Exit != 1 || len(got) > 0 {
			w.fail("the window should have been refused: exit %d, %d players got something", out.Exit, len(got))
		}
		return
	}
	if out.Exit != 0 {
		w.fail("alda play fails")
		return
	}
	if len(got) != 1 {
		w.fail("%d players got something", len(got))
		return
	}
	for s, ks := range got {
		if len(ks) != 1 {
			w.fail("the player got %d packets", len(ks))
			return
		}
		if target != nil && s != target {
			w.fail("%s got the score, not %s", s.ID, target.ID)
			return
		}
		if target == nil && before[s] != "" && before[s] != "ready" {
			w.fail("%s got the score, which was %s", s.ID, before[s])
			return
		}
		k := ks[0]
		if k.Err != nil {
			w.fail("what the player got is not valid OSC: %v", k.Err)
			return
		}
		pf, prob := perform(k.Msgs)
		if prob != "" {
			w.fail("%s", prob)
			return
		}
		if m := compareNotes(inWindow(evs, from, to), pf.notes); m != "" {
			w.fail("the player got something else than the score: %s", m)
			return
		}
		if pf.play != 1 || len(pf.shutdown) != 1 || len(pf.exports) != 0 {
			w.fail("%d play messages, shutdown messages %v, exports %v", pf.play, pf.shutdown, pf.exports)
			return
		}
		a, b := bagOf(want), bagOf(k.Msgs)
		if a != b {
			w.fail("the messages are not those of the score:\n%.3000s\ninstead of\n%.3000s", b, a)
			return
		}
		c.Count("notes delivered", len(pf.notes))
		c.Max("messages in one delivery", float64(len(k.Msgs)))
	}
	c.Nontrivial(strings.Join(w.log, "\n"))
}

// bagOf is a form of messages that doesn't depend on the order of those at
// different places.
func bagOf(ms []oscx.Msg) string {
	var l []string
	for _, m := range ms {
		l = append(l, m.String())
	}
	sortStrings(l)
	return strings.Join(l, "\n")
}

// c30Invalid plays what isn't a score.
func (w *world) c30Invalid(i int) {
	c := w.c
	f := lang.All()
	f.Errors = true
	var text string
	for try := 0; try < 30; try++ {
		text = lang.Plain((&lang.Gen{R: c.R, F: f}).Score())
		b := []byte(text)
		for n := 1 + w.r.Intn(3); n > 0 && len(b) > 0; n-- {
			k := w.r.Intn(len(b))
			b[k] = "()[]{}:'\"#@%*|xyz<>~"[w.r.Intn(20)]
		}
		text = string(b)
		if res := sut.Compile(text); res.Stage != sut.OK && res.Stage != sut.Panicked {
			cmd, how := w.source(text)
			c.Count("invalid input: "+how, 1)
			cmd.Args = append([]string{"play"}, cmd.Args...)
			if w.r.Intn(2) == 0 {
				cmd.Args = append(cmd.Args, "-i", w.pick("").ID)
			}
			out := w.run(cmd)
			if out == nil {
				return
			}
			c.Eval()
			c.Count("invalid scores refused", 1)
			if out.Exit != 1 {
				w.fail("an invalid score is played")
				return
			}
			if !strings.Contains(out.Err, ":") {
				w.fail("the message does not say where the error is")
				return
			}
			for _, s := range w.pool.Stubs() {
				if s.Pings() > 0 {
					c.Count("players woken by an invalid score", 1)
				}
			}
			w.only(nil, "", nil)
			c.Nontrivial(text)
			return
		}
	}
}

// badPort is something that listens but doesn't take what it is sent.
func badPort(r *rand.Rand) (port int, closer func()) {
	l, err := oscx.Listen()
	if err != nil {
		panic(err)
	}
	// What it doesn't take mustn't fit into its receive buffer either.
	if raw, err := l.(*net.TCPListener).SyscallConn(); err == nil {
		raw.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4096) })
	}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			buf := make([]byte, 1)
			c.SetReadDeadline(time.Now().Add(10 * time.Second))
			c.Read(buf)
			c.(*net.TCPConn).SetLinger(0)
			c.Close()
		}
	}()
	fmt.Sscanf(l.Addr().String(), "127.0.0.1:%d", &port)
	return port, func() { l.Close() }
}

// sendBuffer is how much the system is willing to hold back for a socket.
func sendBuffer() int {
	var a, b, c int
	data, _ := os.ReadFile("/proc/sys/net/ipv4/tcp_wmem")
	if n, _ := fmt.Sscan(string(data), &a, &b, &c); n != 3 {
		return 4 << 20
	}
	return c
}

func (w *world) c30Fault() {
	r := w.r
	big := "piano: [" + strings.Repeat("c8 ", 50+r.Intn(100)) + "]*" + fmt.Sprint(900+r.Intn(300)) + "\n"
	file := w.env.Path("big.alda")
	os.WriteFile(file, []byte(big), 0o644)
	kind := r.Intn(4)
	w.note("fault %d", kind)
	defer func() { w.c.Nontrivial(strings.Join(w.log, "\n") + big) }()
	switch kind {
	case 0: // nobody there
		res := w.run(clix.Cmd{Args: []string{"play", "-c", "piano: c", "-p", fmt.Sprint(closedPort())}})
		if res != nil && res.Exit != 1 {
			w.fail("playing on a port where nobody listens succeeds")
		}
		w.c.Count("unreachable players", 1)
	case 1: // hangs up in the middle of it
		port, stop := badPort(r)
		defer stop()
		// Each note takes 56 bytes. The score has to be larger than what a socket
		// holds back while the other side doesn't take it.
		size := 200 * 900 * 56
		big = "piano: [" + strings.Repeat("c8 ", 200) + "]*900\n"
		os.WriteFile(file, []byte(big), 0o644)
		if sendBuffer() > size/2 {
			w.c.Count("players that hang up: too large a send buffer", 1)
			return
		}
		res := w.run(clix.Cmd{Args: []string{"play", "-f", file, "-p", fmt.Sprint(port)}})
		if res != nil && res.Exit != 1 {
			w.fail("the player hangs up at the first byte, and playing %d bytes still succeeds", len(big))
		}
		w.c.Count("players that hang up", 1)
	case 2: // a player that died: its state file is still there
		s := w.pool.Add("active")
		s.Die(false)
		res := w.run(clix.Cmd{Args: []string{"play", "-c", "piano: c", "-i", s.ID}})
		if res != nil && res.Exit != 1 {
			w.fail("playing on a dead player succeeds")
		}
		w.c.Count("unreachable players", 1)
	default: // much to deliver
		n := 0
		for _, m := range strings.SplitN(big, "]*", 2) {
			if strings.HasPrefix(m, "piano") {
				n = strings.Count(m, "c8")
			} else {
				var times int
				fmt.Sscan(m, &times)
				n *= times
			}
		}
		res := w.run(clix.Cmd{Args: []string{"play", "-f", file, "-i", w.pick("").ID}})
		if res == nil {
			return
		}
		if res.Exit != 0 {
			w.fail("playing %d notes fails", n)
			return
		}
		got := w.packets(1)
		total := 0
		for _, ks := range got {
			for _, k := range ks {
				total += countNotes(k)
			}
		}
		if len(got) != 1 || total != n {
			w.fail("%d players got %d of %d notes", len(got), total, n)
		}
		w.c.Count("notes delivered in large scores", total)
		return
	}
	w.c.Eval()
	if !w.c.Failed() {
		w.only(nil, "", nil)
	}
}

// c30Crowd plays several scores at once.
func (w *world) c30Crowd() {
	r := w.r
	n := 2 + r.Intn(5)
	w.pool.SetKeep(n + 2)
	w.pool.Start()
	results := make([]*clix.Result, n)
	want := map[int]int{}
	var wg sync.WaitGroup
	before := w.states()
	for k := 0; k < n; k++ {
		k := k
		notes := 3 + 7*k
		want[notes] = k
		code := "piano: " + strings.Repeat("c ", notes)
		wait := time.Duration(r.Intn(40)) * time.Millisecond
		wg.Add(1)
		go func() {
			defer wg.Done()
			time.Sleep(wait)
			results[k] = w.env.Run(clix.Cmd{Args: []string{"play", "-c", code}, NoStdin: true, Limit: 200 * time.Second})
		}()
	}
	wg.Wait()
	for _, res := range results {
		w.note("%s", res)
		w.c.Count("commands run", 1)
	}
	got := w.packets(n)
	w.c.Eval()
	times := map[int]int{}
	for s, ks := range got {
		if before[s] != "" && before[s] != "ready" {
			w.fail("%s got a score, which was %s", s.ID, before[s])
			return
		}
		for _, k := range ks {
			times[countNotes(k)]++
		}
	}
	for notes, k := range want {
		if results[k].Crashed() != "" || results[k].Exit != 0 {
			w.fail("alda play fails although there are players for everybody: %s", results[k])
			return
		}
		if times[notes] != 1 {
			w.fail("the score of %d notes was delivered %d times", notes, times[notes])
			return
		}
		delete(times, notes)
		w.c.Count("scores played at once", 1)
	}
	if len(times) > 0 {
		w.fail("deliveries that nobody asked for: %v", times)
	}
	w.c.Nontrivial(strings.Join(w.log, "\n"))
}

func c30Case(c *fw.Ctx, i int) {
	keep := 2
	if i%40 == 17 {
		keep = 0
	}
	w := newWorld(c, keep)
	defer w.close()
	w.pool.Start()
	for n := w.r.Intn(3); n > 0; n-- {
		w.pool.Add("active")
	}
	if w.r.Intn(2) == 0 {
		w.pool.Add("starting")
	}
	if keep == 0 {
		w.pool.Add("active")
		w.c.Count("everybody is busy", 1)
		for w.pick("ready") != nil {
			w.pick("ready").Die(true)
		}
		if w.playAnywhere() {
			w.only(nil, "", nil)
		}
		c.Nontrivial(strings.Join(w.log, "\n"))
		return
	}
	switch i % 10 {
	case 0, 5:
		w.c30Invalid(i)
	case 3:
		w.c30Fault()
	case 6:
		w.c30Crowd()
	default:
		for n := 0; n < 3 && !c.Failed(); n++ {
			w.log = nil
			w.c30Play(i + n)
		}
	}
	_ = bytes.MinRead
}

func init() {
	fw.Register(&fw.Check{ID: "C30", Quick: 300, Thorough: 12000, MinNontrivialPct: 60, Workers: 16, CaseWall: 400 * time.Second,
		Rule: "Real `alda play` processes with generated scores (files, code, standard input; windows; players asked for by id, by port or not at all; several at once; players that are busy, missing, hang up or are slow): the packets all stand-in players receive are decoded and performed, and must be the notes of the score, once, at one player that was free or asked for; exit 0 only with a delivery, and nothing sent for an invalid score or window.",
		Need: []string{"notes delivered", "invalid scores refused", "unreachable players", "players that hang up", "notes delivered in large scores", "scores played at once", "everybody is busy", "windows refused",
			"player asked for by id", "player asked for by port", "input: file", "input: code", "input: stdin", "long input"},
		Assumptions: []string{"The players are stand-ins listening on loopback TCP; a player that hangs up is noticed only when the score is larger than what the socket buffers take."},
		Case:        c30Case})
}
