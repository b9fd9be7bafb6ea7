package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/fw"
	"verif/lang"
	"verif/oscx"
	"verif/replx"
	"verif/sut"
)

// session drives one REPL server and knows what it should do.
type session struct {
	c    *fw.Ctx
	env  replx.Env
	pool *replx.Pool
	srv  *replx.Server
	conn *replx.Conn

	pieces  []string // what was accepted since the last new score
	nodes   [][]lang.Node
	ref     *lang.Ref
	taken   int // packets accounted for
	cur     *replx.Stub
	history []string
	// After a player died, requests may fail until the server noticed.
	diedAt time.Time

	term      *replx.Term // an interactive client through which to ask
	inputFile string      // what it loaded or saved last
}

const replyTimeout = 60 * time.Second

func newSession(c *fw.Ctx, keep int, linger func() time.Duration) *session {
	return openSession(c, keep, linger, false)
}

func openSession(c *fw.Ctx, keep int, linger func() time.Duration, both bool) *session {
	s := &session{c: c, env: replx.Env{Dir: filepath.Join(fw.Scratch(), fmt.Sprintf("repl-%d", c.R.Int63()))}}
	s.env.Setup()
	s.pool = &replx.Pool{Env: s.env, R: rand.New(rand.NewSource(c.R.Int63())), Keep: keep, Delay: linger}
	s.pool.Start()
	bin := filepath.Join(fw.Root(), ".build", "bin", "alda")
	var srv *replx.Server
	var err error
	if both {
		srv, s.term, err = replx.StartBoth(bin, s.env, c.R.Intn(2) == 0)
	} else {
		srv, err = replx.StartServer(bin, s.env, c.R)
	}
	if err != nil {
		c.Fail("", "%v", err)
		s.pool.Close()
		os.RemoveAll(s.env.Dir)
		return nil
	}
	s.srv = srv
	if s.conn, err = srv.Dial(); err != nil {
		c.Fail("", "%v", err)
		s.close()
		return nil
	}
	s.reset()
	return s
}

func (s *session) reset() { s.pieces, s.nodes, s.ref = nil, nil, lang.NewRef() }

func (s *session) close() {
	if s.conn != nil {
		s.conn.Close()
	}
	errs, _ := s.srv.Stop()
	if strings.Contains(errs, "panic:") || strings.Contains(errs, "fatal error:") {
		s.fail("the server crashed:\n%s", errs)
	}
	s.pool.Close()
	os.RemoveAll(s.env.Dir)
}

func (s *session) fail(format string, args ...interface{}) bool {
	h := s.history
	if len(h) > 60 {
		h = append([]string{"..."}, h[len(h)-60:]...)
	}
	if os.Getenv("VERIF_REPL_LOG") != "" {
		time.Sleep(100 * time.Millisecond)
		h = append(h, "server log:", s.srv.Stderr.String())
		for _, a := range s.pool.Arrivals() {
			h = append(h, a.At.Format("15:04:05.000")+" "+describe([]replx.Arrival{a}))
		}
	}
	s.c.Fail(strings.Join(h, "\n"), format, args...)
	return false
}

func (s *session) text() string {
	var b strings.Builder
	for _, p := range s.pieces {
		b.WriteString(strings.TrimSpace(p) + "\n")
	}
	return b.String()
}

// ask sends a request. The reply has to be well-formed.
func (s *session) ask(req map[string]interface{}) (reply map[string]interface{}, failed, ok bool) {
	if s.term != nil {
		if m, failed, handled, ok := s.typed(req); handled {
			return m, failed, ok
		}
	}
	return s.askRaw(req)
}

func (s *session) askRaw(req map[string]interface{}) (reply map[string]interface{}, failed, ok bool) {
	b, _ := json.Marshal(req)
	s.history = append(s.history, "-> "+string(b))
	m, err := s.conn.Ask(req, replyTimeout)
	if err != nil {
		alive := ""
		if !s.srv.Alive() {
			alive = " (the server process ended: " + s.srv.Stderr.String() + ")"
		}
		return m, true, s.fail("no proper reply to the last request: %v%s", err, alive)
	}
	s.c.Count("requests answered", 1)
	_, failed, problems := replx.Status(m)
	if failed {
		p := strings.Join(problems, "; ")
		s.history = append(s.history, "<- error: "+p[:min(len(p), 300)])
		s.c.Count("requests refused", 1)
	} else {
		s.history = append(s.history, "<- done")
	}
	return m, failed, true
}

// arrivals waits for n new packets, and returns all that came.
func (s *session) arrivals(n int) []replx.Arrival {
	end := time.Now().Add(8 * time.Second)
	for {
		s.pool.Fence()
		a := s.pool.Arrivals()
		if len(a)-s.taken >= n || time.Now().After(end) {
			out := append([]replx.Arrival{}, a[s.taken:]...)
			s.taken = len(a)
			// Different players may notice what they get in any order. The one
			// that was in use before comes first.
			sort.SliceStable(out, func(i, j int) bool { return out[i].Stub == s.cur && out[j].Stub != s.cur })
			if s.cur == nil {
				old := map[*replx.Stub]bool{}
				seen := map[*replx.Stub]bool{}
				for _, k := range out {
					if !seen[k.Stub] && len(k.Msgs) == 1 && k.Msgs[0].Addr == "/system/shutdown" {
						old[k.Stub] = true
					}
					seen[k.Stub] = true
				}
				sort.SliceStable(out, func(i, j int) bool { return old[out[i].Stub] && !old[out[j].Stub] })
			}
			return out
		}
		time.Sleep(3 * time.Millisecond)
	}
}

func describe(a []replx.Arrival) string {
	out := []string{}
	for _, k := range a {
		m := []string{}
		for i, x := range k.Msgs {
			if i == 12 {
				m = append(m, "...")
				break
			}
			m = append(m, x.String())
		}
		out = append(out, k.Stub.ID+": "+strings.Join(m, ", "))
	}
	if len(out) == 0 {
		return "nothing"
	}
	return strings.Join(out, "\n  ")
}

// expect says what the players have to get for the last request: a list of
// kinds of packets ("shutdown", "bundle", "stop", "offset", "export").
func (s *session) expect(kinds ...string) (map[string]replx.Arrival, bool) {
	got := s.arrivals(len(kinds))
	out := map[string]replx.Arrival{}
	if len(got) != len(kinds) {
		return nil, s.fail("the players should have received %v, and received:\n  %s", kinds, describe(got))
	}
	for i, k := range got {
		if k.Err != nil {
			return nil, s.fail("a player received a packet that is not OSC: %v", k.Err)
		}
		kind := ""
		switch {
		case len(k.Msgs) == 0 || k.Bundle:
			kind = "bundle"
		case k.Msgs[0].Addr == "/system/shutdown":
			kind = "shutdown"
		case k.Msgs[0].Addr == "/system/stop":
			kind = "stop"
		case k.Msgs[0].Addr == "/system/offset":
			kind = "offset"
		case k.Msgs[0].Addr == "/system/midi/export":
			kind = "export"
		}
		if kind != kinds[i] {
			return nil, s.fail("the players should have received %v, and received:\n  %s", kinds, describe(got))
		}
		if sh := k.Stub.Shut(); kind != "shutdown" && !sh.IsZero() && k.At.After(sh) {
			return nil, s.fail("%s was sent to a player that had been told to shut down before", kind)
		}
		if s.cur != nil && k.Stub != s.cur {
			return nil, s.fail("%s was sent to player %s while %s is in use and alive:\n  %s", kind, k.Stub.ID, s.cur.ID, describe(got))
		}
		s.cur = k.Stub
		if kind == "shutdown" {
			s.cur = nil
		}
		out[kind] = k
		s.c.Count("packets checked", 1)
	}
	return out, true
}

// refExpected turns reference events into what compareNotes wants. Channels
// are not part of it (C12 decides those).
func refExpected(ref *lang.Ref, evs []lang.Event, shift func(track int) float64) []expected {
	_, stocks := ref.PartInfo()
	var out []expected
	for _, e := range evs {
		x := sut.Ev{Event: e, Instr: stocks[e.Track-1]}
		x.Offset -= shift(e.Track)
		if x.Instr == "midi-percussion" {
			x.Channel = 9
		}
		out = append(out, expected{Ev: x})
	}
	return out
}

// performBundle interprets a bundle, also one with offsets before the start.
func performBundle(msgs []oscx.Msg) (performance, int, string) {
	low := int32(0)
	for _, m := range msgs {
		if strings.HasPrefix(m.Addr, "/track/") && m.I(1) < low && m.I(1) > math.MinInt32 {
			low = m.I(1)
		}
	}
	moved := make([]oscx.Msg, len(msgs))
	for i, m := range msgs {
		moved[i] = m
		if strings.HasPrefix(m.Addr, "/track/") && len(m.Args) > 1 {
			moved[i].Args = append([]interface{}{}, m.Args...)
			moved[i].Args[1] = m.I(1) - low
		}
	}
	p, problem := perform(moved)
	for i := range p.notes {
		p.notes[i].off += int(low)
		if p.notes[i].ch != 9 {
			p.notes[i].ch = 0
		}
	}
	return p, int(low), problem
}

// replay of the model: accepted pieces on a fresh reference.
func (s *session) rebuild() {
	s.ref = lang.NewRef()
	for _, p := range s.nodes {
		s.ref.Run(p)
	}
}

// evalPiece submits a valid piece and checks what is played.
func (s *session) evalPiece(piece []lang.Node, text string) bool {
	before := len(s.ref.Events)
	offs := s.ref.PartOffsets()
	inVoices := map[int]bool{}
	for i := range offs {
		inVoices[i] = s.ref.InVoices(i)
	}
	if err := s.ref.Run(piece); err != nil {
		s.rebuild()
		return s.fail("internal: piece refused by the reference: %v\n%s", err, text)
	}
	_, failed, ok := s.ask(map[string]interface{}{"op": "eval-and-play", "code": text})
	if !ok {
		return false
	}
	if failed {
		s.rebuild()
		if !s.diedAt.IsZero() {
			return true // checked by the caller
		}
		return s.fail("a valid piece was refused")
	}
	s.pieces = append(s.pieces, text)
	s.nodes = append(s.nodes, piece)
	a, ok := s.expect("bundle")
	if !ok {
		return false
	}
	s.c.Count("pieces evaluated", 1)
	p, _, problem := performBundle(a["bundle"].Msgs)
	if problem != "" {
		return s.fail("%s", problem)
	}
	if p.play != 1 || len(p.shutdown) > 0 {
		return s.fail("evaluating a piece has to play it: %d play messages, %d shutdown messages", p.play, len(p.shutdown))
	}
	evs := s.ref.Events[before:]
	// The place of a part that is in the middle of its voices is a matter of
	// interpretation: only require that all its notes are moved alike.
	shift := map[int]float64{}
	for i := range offs {
		shift[i] = offs[i]
		if inVoices[i] {
			s.c.Count("parts in the middle of voices", 1)
			shift[i] = s.constantShift(i, evs, p.notes)
		}
	}
	want := refExpected(s.ref, evs, func(t int) float64 { return shift[t] })
	if m := compareNotes(want, p.notes); m != "" {
		return s.fail("the piece added %d notes; %s", len(evs), m)
	}
	s.c.Count("notes matched", len(evs))
	return true
}

// constantShift finds a shift by which all notes of a part were moved: one of
// its positions so far, or failing that any.
func (s *session) constantShift(track int, evs []lang.Event, notes []heard) float64 {
	var own []lang.Event
	var heardOwn []heard
	minE, minH := math.Inf(1), math.MaxInt
	for _, e := range evs {
		if e.Track == track {
			own = append(own, e)
			minE = math.Min(minE, e.Offset)
		}
	}
	for _, h := range notes {
		if h.track == track {
			heardOwn = append(heardOwn, h)
			if h.off < minH {
				minH = h.off
			}
		}
	}
	if len(own) == 0 || len(heardOwn) == 0 {
		return 0
	}
	base := minE - float64(minH)
	cands := []float64{0}
	for _, e := range s.ref.Events {
		if e.Track == track {
			cands = append(cands, e.Offset, e.Offset+e.Dur)
		}
	}
	for k := 0; k <= 20; k++ {
		cands = append(cands, base+float64(k)/40, base-float64(k)/40)
	}
	tried := map[float64]bool{}
	for _, v := range cands {
		if tried[v] || math.Abs(base-v) > 0.5+1e-6 {
			continue
		}
		tried[v] = true
		if compareNotes(refExpected(s.ref, own, func(int) float64 { return v }), heardOwn) == "" {
			return v
		}
	}
	return base
}

// canonical describes a score document apart from the ids of its parts and the
// order of its events.
func canonical(doc string) (string, error) {
	v, err := strictJSON(doc)
	if err != nil {
		return "", err
	}
	root, ok := v.(obj)
	if !ok {
		return "", fmt.Errorf("not an object")
	}
	parts, _ := root["parts"].(obj)
	sig := map[string]string{}
	js := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	for id, p := range parts {
		sig[id] = js(p)
	}
	evs, _ := root["events"].([]interface{})
	per := map[string][]string{}
	for _, e := range evs {
		o, ok := e.(obj)
		if !ok {
			return "", fmt.Errorf("event that is not an object")
		}
		c := obj{}
		for k, x := range o {
			c[k] = x
		}
		delete(c, "part")
		per[fmt.Sprint(o["part"])] = append(per[fmt.Sprint(o["part"])], js(c))
	}
	for id, l := range per {
		sort.Strings(l)
		if _, ok := sig[id]; !ok {
			return "", fmt.Errorf("event of an unknown part %s", id)
		}
		sig[id] += strings.Join(l, ",")
	}
	aliases, _ := root["aliases"].(obj)
	as := []string{}
	for a, ids := range aliases {
		l, _ := ids.([]interface{})
		for _, id := range l {
			as = append(as, a+" "+fmt.Sprint(id))
		}
	}
	sort.Strings(as)
	for _, a := range as {
		f := strings.SplitN(a, " ", 2)
		sig[f[1]] += "|" + f[0]
	}
	cur, _ := root["current-parts"].([]interface{})
	for i, id := range cur {
		sig[fmt.Sprint(id)] += fmt.Sprintf("|current %d", i)
	}
	all := []string{}
	for _, x := range sig {
		all = append(all, x)
	}
	sort.Strings(all)
	rest := obj{}
	for k, x := range root {
		switch k {
		case "parts", "events", "aliases", "current-parts":
		default:
			rest[k] = x
		}
	}
	return strings.Join(all, "\n") + "\n" + js(rest), nil
}

func firstDifference(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string { return s[min(max(0, i-80), len(s)):min(len(s), i+120)] }
	return fmt.Sprintf("...%s\n...%s", cut(a), cut(b))
}

// verify asks the server about the score and compares the answers with what
// was accepted.
func (s *session) verify() bool {
	text := s.text()
	m, failed, ok := s.ask(map[string]interface{}{"op": "score-text"})
	if !ok {
		return false
	}
	got, _ := m["text"].(string)
	if failed || strings.Join(strings.Fields(got), " ") != strings.Join(strings.Fields(text), " ") {
		return s.fail("the text of the score is\n%q\nand should be\n%q", got, text)
	}
	m, failed, ok = s.ask(map[string]interface{}{"op": "score-data"})
	if !ok {
		return false
	}
	data, _ := m["data"].(string)
	if failed {
		return s.fail("no score data")
	}
	have, err := canonical(data)
	if err != nil {
		return s.fail("score data: %v", err)
	}
	whole := sut.Compile(text)
	if whole.Stage != sut.OK {
		return s.fail("the text of the session is refused as a whole: %v\n%s", whole.Err, text)
	}
	want, err := canonical(whole.Score.JSON().String())
	if err != nil {
		return s.fail("score data of the whole: %v", err)
	}
	if have != want {
		return s.fail("the session's score differs from that of its text:\n%s", firstDifference(have, want))
	}
	evs, err := sut.Events(whole.Score)
	if err != nil {
		return s.fail("%v", err)
	}
	if d := sut.Diff(s.ref.Events, sut.Plain(evs)); d != "" {
		return s.fail("the session's score is not what was entered: %s", d)
	}
	s.c.Count("states compared", 1)
	switch s.c.R.Intn(4) {
	case 0:
		m, failed, ok = s.ask(map[string]interface{}{"op": "score-events"})
		if !ok {
			return false
		}
		if failed || fmt.Sprint(m["events"]) != updatesJSON(whole.Updates) {
			return s.fail("the events of the score differ from those of its text:\n%s", firstDifference(fmt.Sprint(m["events"]), updatesJSON(whole.Updates)))
		}
	case 1:
		m, failed, ok = s.ask(map[string]interface{}{"op": "score-ast"})
		if !ok {
			return false
		}
		// Positions depend on the layout of the text the server keeps.
		exact := sut.Compile(got)
		if failed || exact.AST.JSON() == nil || fmt.Sprint(m["ast"]) != exact.AST.JSON().String() {
			return s.fail("the tree of the score differs from that of its text")
		}
	}
	if extra := s.arrivals(0); len(extra) > 0 {
		return s.fail("asking about the score sent something to a player:\n  %s", describe(extra))
	}
	return true
}

// wholeBundle checks a bundle that has to contain the whole score, or a window
// of it.
func (s *session) wholeBundle(k replx.Arrival, from, to float64, play int) bool {
	p, _, problem := performBundle(k.Msgs)
	if problem != "" {
		return s.fail("%s", problem)
	}
	if p.play != play || len(p.shutdown) > 0 {
		return s.fail("%d play messages (%d expected), %d shutdown messages", p.play, play, len(p.shutdown))
	}
	var evs []sut.Ev
	for _, e := range refExpected(s.ref, s.ref.Events, func(int) float64 { return 0 }) {
		evs = append(evs, e.Ev)
	}
	whole := sut.Compile(s.text())
	want := inWindow(evs, from, to)
	if s.rounded(whole, from, to) {
		// The reference may meet the edge of the window exactly where the
		// arithmetic of the compiler ends a rounding error away from it.
		want = inWindowWide(evs, from, to)
	}
	if m := compareNotes(want, p.notes); m != "" {
		return s.fail("the score has %d notes; %s", len(s.ref.Events), m)
	}
	s.c.Count("notes matched", len(p.notes))
	msgs, err := bundleOf(whole.Score)
	if err != nil {
		return s.fail("%v", err)
	}
	if from == 0 && math.IsInf(to, 1) {
		q, _ := perform(msgs)
		if fmt.Sprint(q.tempos) != fmt.Sprint(p.tempos) {
			return s.fail("tempo messages %v, %v when the text is played at once", p.tempos, q.tempos)
		}
	}
	return true
}

// rounded tells whether something in the compiled score is a rounding error
// away from an edge of the window.
func (s *session) rounded(whole sut.Result, from, to float64) bool {
	if whole.Stage != sut.OK {
		return false
	}
	off := func(v float64) bool {
		for _, edge := range []float64{from, to} {
			if v != edge && math.Abs(v-edge) < 1e-6 {
				return true
			}
		}
		return false
	}
	for _, m := range whole.Score.Markers {
		if off(m) {
			return true
		}
	}
	evs, _ := sut.Events(whole.Score)
	for _, e := range evs {
		if off(e.Offset) {
			return true
		}
	}
	return false
}

// replay checks the replay operation, valid or not.
func (s *session) replay() bool {
	r := s.c.R
	req := map[string]interface{}{"op": "replay"}
	from, to := 0.0, math.Inf(1)
	bad := false
	name := func(v *float64) string {
		if len(s.ref.Markers) > 0 && r.Intn(2) == 0 {
			ks := []string{}
			for k := range s.ref.Markers {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			k := ks[r.Intn(len(ks))]
			*v = s.ref.Markers[k].V()
			return k
		}
		*v = float64(r.Intn(8)) * 1000
		return fmt.Sprintf("0:%02d", int(*v/1000))
	}
	switch r.Intn(6) {
	case 0:
		req["from"] = name(&from)
	case 1:
		req["to"] = name(&to)
	case 2:
		req["from"], req["to"] = name(&from), name(&to)
	case 3:
		req[[]string{"from", "to"}[r.Intn(2)]], bad = []string{"nowhere", "1:xx", "::"}[r.Intn(3)], true
	}
	if from < 0 || to < 0 {
		return true
	}
	_, failed, ok := s.ask(req)
	if !ok {
		return false
	}
	if bad {
		if !failed {
			return s.fail("a replay from a place that does not exist succeeded")
		}
		return s.afterFailure()
	}
	if failed {
		return s.refusedOnlyBecause("replay")
	}
	kinds := []string{"shutdown", "bundle"}
	if s.cur == nil {
		// Which player the server holds is not known before it was used.
		kinds = s.maybeShutdown(kinds)
	}
	a, ok := s.expect(kinds...)
	if !ok {
		return false
	}
	s.c.Count("replays", 1)
	return s.wholeBundle(a["bundle"], from, to, 1)
}

// maybeShutdown leaves out the shutdown of a player that was never used when
// the server did not hold one.
func (s *session) maybeShutdown(kinds []string) []string {
	s.pool.Fence()
	for _, a := range s.pool.Arrivals()[s.taken:] {
		if len(a.Msgs) == 1 && a.Msgs[0].Addr == "/system/shutdown" {
			return kinds
		}
	}
	return kinds[1:]
}

func (s *session) refusedOnlyBecause(what string) bool {
	if !s.diedAt.IsZero() && time.Since(s.diedAt) < 15*time.Second {
		return s.afterFailure()
	}
	return s.fail("%s failed", what)
}

// afterFailure checks that a request that failed changed nothing. It may have
// cost the player.
func (s *session) afterFailure() bool {
	for _, k := range s.arrivals(0) {
		if k.Bundle || len(k.Msgs) == 0 {
			return s.fail("a request that failed made a player play something:\n  %s", describe([]replx.Arrival{k}))
		}
		if k.Msgs[0].Addr == "/system/shutdown" {
			s.cur = nil
		}
	}
	s.c.Count("failed requests checked", 1)
	return s.verify()
}

func (s *session) newScore() bool {
	_, failed, ok := s.ask(map[string]interface{}{"op": "new-score"})
	if !ok {
		return false
	}
	if failed {
		return s.refusedOnlyBecause("new-score")
	}
	kinds := []string{"shutdown"}
	if s.cur == nil {
		kinds = s.maybeShutdown(kinds)
	}
	if _, ok := s.expect(kinds...); !ok {
		return false
	}
	s.reset()
	s.c.Count("new scores", 1)
	return true
}

func (s *session) maxOffset() (float64, bool) {
	m := 0.0
	for i, o := range s.ref.PartOffsets() {
		if s.ref.InVoices(i) {
			return 0, false
		}
		m = math.Max(m, o)
	}
	return m, true
}

func (s *session) load(nodes []lang.Node, text string) bool {
	_, failed, ok := s.ask(map[string]interface{}{"op": "load", "code": text})
	if !ok {
		return false
	}
	if failed {
		return s.refusedOnlyBecause("load")
	}
	s.reset()
	s.pieces, s.nodes = []string{text}, [][]lang.Node{nodes}
	s.rebuild()
	return s.loaded("bundle", "offset")
}

func (s *session) loaded(kinds ...string) bool {
	kinds = append([]string{"shutdown"}, kinds...)
	if s.cur == nil {
		kinds = s.maybeShutdown(kinds)
	}
	a, ok := s.expect(kinds...)
	if !ok || !s.wholeBundle(a["bundle"], 0, math.Inf(1), 0) {
		return false
	}
	if end, known := s.maxOffset(); known && !near(int(a["offset"].Msgs[0].I(0)), end) {
		return s.fail("after loading, the player was told to go on at %d ms; the score ends at %.3f ms", a["offset"].Msgs[0].I(0), end)
	}
	s.c.Count("loads", 1)
	return true
}

func (s *session) export() bool {
	m, failed, ok := s.ask(map[string]interface{}{"op": "export"})
	if !ok {
		return false
	}
	if failed {
		return s.refusedOnlyBecause("export")
	}
	if !s.loaded("bundle", "offset", "export") {
		return false
	}
	if fmt.Sprint(m["binary-data"]) != string(replx.ExportData(s.cur.ID)) {
		return s.fail("the exported data is not what the player wrote: %q", fmt.Sprint(m["binary-data"]))
	}
	s.c.Count("exports", 1)
	return true
}

func (s *session) stop() bool {
	_, failed, ok := s.ask(map[string]interface{}{"op": "stop"})
	if !ok {
		return false
	}
	if failed {
		return s.refusedOnlyBecause("stop")
	}
	_, ok = s.expect("stop")
	return ok
}

// badText makes a text that has to be refused, most of the time after having
// had some effect.
func (s *session) badText() string {
	r := s.c.R
	f := lang.All()
	f.Sections, f.Len, f.MaxParts = 2, 4, 3
	f.MoreAttrs, f.MoreMarkers = 10, 10
	pre := lang.Plain((&lang.Gen{R: r, F: f}).Score())
	if r.Intn(3) == 0 {
		pre = []string{"(tempo! 77) ", "(vol! 11) ", "c d e ", "o2 ", "%mark ", "foo = c d e\n", "V3: c ", "", "(key-sig! \"f+ c+\") ", "piano: "}[r.Intn(10)]
	}
	bad := []string{"nosuchvariable", "@nowhere", "(no-such-function 1)", "(tempo -5)", "(vol \"x\")", "(octave 'sideways)", "(quant)", "nosuchinstrument: c",
		")", "]", "{c d", "[c d", "(tempo 120", "'1", "$", "c /", "piano \"x", "*3", "o", "(key-signature \"h\")", "(key-signature \"zz\")", "(midi-channel 99)"}
	b := bad[r.Intn(len(bad))]
	switch r.Intn(8) {
	case 0:
		b = "[c " + b + " d]*2"
	case 1:
		b = "{c " + b + "}2"
	case 2:
		b = "V1: c d V2: e " + b
	case 3:
		b = "foo2 = c " + b + "\n foo2"
	case 4:
		b = "piano/violin: c d " + b
	case 5:
		b = "c1 " + b + " d"
	}
	return pre + "\n" + b
}

// failing sends a request that cannot succeed.
func (s *session) failing() bool {
	r := s.c.R
	var req map[string]interface{}
	switch r.Intn(14) {
	case 0, 1, 2, 3, 4, 5:
		t := s.badText()
		if s.term != nil && r.Intn(3) > 0 {
			t = strings.Join(strings.Fields(t), " ")
		}
		// Whether it is wrong at this point of the session is for the whole
		// text to say.
		if sut.Compile(s.text()+t+"\n").Stage == sut.OK {
			return true
		}
		req = map[string]interface{}{"op": "eval-and-play", "code": t}
		s.c.Count("bad pieces", 1)
	case 6, 7:
		t := s.badText()
		if sut.Compile(t).Stage == sut.OK {
			return true
		}
		req = map[string]interface{}{"op": "load", "code": t}
		s.c.Count("bad loads", 1)
	case 8:
		req = map[string]interface{}{"op": []string{"eval-and-play", "load"}[r.Intn(2)]}
	case 9:
		req = map[string]interface{}{"op": []string{"eval-and-play", "load"}[r.Intn(2)], "code": []interface{}{1, "piano: c"}}
	case 10:
		req = map[string]interface{}{"op": []string{"eval-and-play", "load"}[r.Intn(2)], "code": r.Intn(100)}
	case 11:
		req = map[string]interface{}{"op": []string{"frobnicate", "", "EVAL-AND-PLAY", "close"}[r.Intn(4)], "code": "piano: c"}
	case 12:
		req = map[string]interface{}{"code": "piano: c"}
	case 13:
		req = map[string]interface{}{"op": 7, "code": "piano: c"}
	}
	m, failed, ok := s.ask(req)
	if !ok {
		return false
	}
	if !failed {
		return s.fail("a request that cannot be met succeeded")
	}
	if _, _, problems := replx.Status(m); len(problems) == 0 {
		st := fmt.Sprint(m["status"])
		if !strings.Contains(st, "unknown-op") {
			return s.fail("the reply to a failed request does not say what is wrong: %v", m)
		}
	}
	return s.afterFailure()
}

// aside are requests that have nothing to do with the score.
func (s *session) aside() bool {
	op := []string{"describe", "clone", "instruments", "eval"}[s.c.R.Intn(4)]
	m, failed, ok := s.ask(map[string]interface{}{"op": op, "code": "piano: c"})
	if !ok {
		return false
	}
	if failed {
		return s.fail("%s failed", op)
	}
	has := map[string][]string{"describe": {"ops", "versions"}, "clone": {"new-session"}, "instruments": {"instruments"}, "eval": {"value"}}
	for k := range m {
		want := k == "id" || k == "status" || k == "session"
		for _, x := range has[op] {
			want = want || k == x
		}
		if !want {
			return s.fail("the reply to %s contains %q: %v", op, k, m[k])
		}
	}
	for _, k := range has[op] {
		if _, ok := m[k]; !ok {
			return s.fail("the reply to %s has no %q: %v", op, k, m)
		}
	}
	if extra := s.arrivals(0); len(extra) > 0 {
		return s.fail("%s sent something to a player:\n  %s", op, describe(extra))
	}
	return true
}

// split cuts a score into pieces.
func split(c *fw.Ctx, s []lang.Node) [][]lang.Node {
	if len(s) == 0 {
		return nil
	}
	n := 1 + c.R.Intn(min(8, len(s)))
	cuts := map[int]bool{}
	for len(cuts) < n-1 {
		cuts[1+c.R.Intn(len(s)-1)] = true
	}
	var out [][]lang.Node
	var cur []lang.Node
	for i, x := range s {
		if cuts[i] {
			out = append(out, cur)
			cur = nil
		}
		cur = append(cur, x)
	}
	return append(out, cur)
}

// sessionScore generates a score that the reference accepts without doubt.
func sessionScore(c *fw.Ctx, i int) []lang.Node {
	for {
		f := lang.All()
		f.Errors = false
		f.Sections = 2 + c.R.Intn(4)
		f.Len = 4 + c.R.Intn(6)
		if i%3 == 0 {
			f.MoreAttrs, f.MoreMarkers = 8, 8
		}
		if i%5 == 1 {
			f.MoreVoices = 10
		}
		s := (&lang.Gen{R: c.R, F: f}).Valid()
		ref, err := lang.Interpret(s)
		if err != nil || len(ref.Events) > 3000 {
			continue
		}
		long := false
		for _, e := range ref.Events {
			long = long || e.Offset+e.Dur > 1e8 || e.Audible > 1e8
		}
		if !long {
			return s
		}
	}
}

// layout prints a piece: on one line if it is to be typed.
func (s *session) layout(n []lang.Node) string {
	if s.term != nil && s.c.R.Intn(8) > 0 {
		return lang.Print(n, lang.Layout{})
	}
	return sessionLayout(s.c, n)
}

func sessionLayout(c *fw.Ctx, n []lang.Node) string {
	return lang.Print(n, lang.Layout{Rng: c.R, Bars: true})
}

// replCase runs a session. mix weighs what happens between the pieces.
func replCase(c *fw.Ctx, i int, mix map[string]int) {
	linger := func() time.Duration { return time.Duration(c.R.Intn(120)) * time.Millisecond }
	s := newSession(c, 1+c.R.Intn(3), linger)
	if s == nil {
		return
	}
	defer s.close()
	s.play(i, mix)
}

// play runs the session, and says whether all was well.
func (s *session) play(i int, mix map[string]int) bool {
	c := s.c
	c.Eval()
	ops := []string{}
	for k := range mix {
		ops = append(ops, k)
	}
	sort.Strings(ops)
	total := 0
	for _, k := range ops {
		total += mix[k]
	}
	steps := 0
	for round := 0; round < 2; round++ {
		queue := split(c, sessionScore(c, i))
		for len(queue) > 0 {
			if steps++; steps > 60 {
				break
			}
			k := c.R.Intn(total)
			op := ""
			for _, o := range ops {
				if k -= mix[o]; k < 0 {
					op = o
					break
				}
			}
			ok := true
			switch op {
			case "eval":
				p := queue[0]
				queue = queue[1:]
				ok = s.evalPiece(p, s.layout(p))
			case "replay":
				ok = s.replay()
			case "verify":
				ok = s.verify()
			case "fail":
				ok = s.failing()
			case "stop":
				ok = s.stop()
			case "aside":
				ok = s.aside()
			case "new":
				ok = s.newScore()
				if ok {
					queue = split(c, sessionScore(c, i))
				}
			case "load":
				n := sessionScore(c, i)
				parts := split(c, n)
				ok = s.load(parts[0], sessionLayout(c, parts[0]))
				queue = parts[1:]
			case "export":
				ok = s.export()
			case "die":
				ok = s.die()
			case "client":
				ok = s.clientOnly()
			}
			if !ok {
				return false
			}
		}
		if !s.verify() || !s.replay() {
			return false
		}
		if round == 0 && !s.newScore() {
			return false
		}
	}
	time.Sleep(30 * time.Millisecond)
	if extra := s.arrivals(0); len(extra) > 0 {
		s.fail("messages nobody asked for:\n  %s", describe(extra))
		return false
	}
	c.Nontrivial(strings.Join(s.history, "\n"))
	if i < 3 {
		c.Sample(s.history)
	}
	return true
}

// die ends the player in use, and waits until the server has another one.
func (s *session) die() bool {
	if s.cur == nil {
		return true
	}
	clean := s.c.R.Intn(2) == 0
	s.cur.Die(clean)
	s.history = append(s.history, fmt.Sprintf("player %s dies (removing its state file: %v)", s.cur.ID, clean))
	s.cur = nil
	s.diedAt = time.Now()
	s.c.Count("players lost", 1)
	for {
		_, failed, ok := s.ask(map[string]interface{}{"op": "stop"})
		if !ok {
			return false
		}
		if !failed {
			break
		}
		if s.c.R.Intn(3) == 0 {
			// Something else that needs a player.
			p := []lang.Node{lang.VarDef{Name: "varDie", Events: []lang.Node{lang.Barline{}}}}
			n := len(s.pieces)
			if !s.evalPiece(p, "varDie = |\n") {
				return false
			}
			if len(s.pieces) > n {
				s.diedAt = time.Time{}
				return true
			}
			if !s.afterFailure() {
				return false
			}
		}
		if time.Since(s.diedAt) > 30*time.Second {
			return s.fail("30 s after its player disappeared the server has not found another one; %d are available", len(s.pool.Live()))
		}
		time.Sleep(50 * time.Millisecond)
	}
	s.diedAt = time.Time{}
	_, ok := s.expect("stop")
	return ok
}

func init() {
	fw.Register(&fw.Check{
		ID: "C20", Quick: 800, Thorough: 4000, MinNontrivialPct: 50, Workers: 16, CaseWall: 400 * time.Second,
		Rule: "sessions with a real REPL server process and stand-in players: generated scores are cut into pieces at random places and evaluated one by one, with replays (from/to, valid or not), stops, requests for information, failures, new scores, loads and exports in between. Every packet every player receives is accounted for: each evaluation has to send the notes the reference says the piece added, once, at their places relative to where each part was, on the right track, with the right instrument, volumes and panning; the score is compared with that of the joined text.",
		Need: []string{"pieces evaluated", "notes matched", "replays", "states compared", "loads", "exports", "new scores", "failed requests checked"},
		Case: func(c *fw.Ctx, i int) {
			replCase(c, i, map[string]int{"eval": 50, "replay": 8, "verify": 10, "fail": 10, "stop": 5, "aside": 5, "new": 2, "load": 3, "export": 3})
		},
	})
	fw.Register(&fw.Check{
		ID: "C21", Quick: 500, Thorough: 4000, MinNontrivialPct: 50, Workers: 16, CaseWall: 400 * time.Second,
		Rule: "sessions as in C20 in which most requests have to fail: pieces with a syntax error, an undefined name or an invalid value after parts that are fine (new tempo, markers, variables, parts, voices), loads of such texts, missing and mistyped parameters, unknown operations, replays from nowhere, lost players. After each one the text, the whole score document and the next playback have to be those of the accepted requests alone.",
		Need: []string{"pieces evaluated", "bad pieces", "bad loads", "failed requests checked", "states compared"},
		Case: func(c *fw.Ctx, i int) {
			mix := map[string]int{"eval": 30, "replay": 6, "fail": 50, "stop": 3, "new": 1, "load": 2, "export": 1}
			if i%10 == 0 {
				mix["die"] = 5
			}
			replCase(c, i, mix)
		},
	})
}
