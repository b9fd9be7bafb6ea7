package checks

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"alda.io/client/model"
	"alda.io/client/transmitter"

	"verif/fw"
	"verif/lang"
	"verif/oscx"
	"verif/sut"
)

// played is what a player does with a packet: the notes, each with the state of
// its channel when it starts, and the tempo changes.
type heard struct {
	track, ch, note, vel int
	off, dur, aud        int
	patch, vol, pan      int // of the channel at that moment, -1 if never set
}

type performance struct {
	notes    []heard
	tempos   []lang.TempoPoint
	play     int
	shutdown []int
	exports  []string
}

// perform schedules messages the way a sequencer does: by offset, and in the
// order they came in at the same offset.
func perform(msgs []oscx.Msg) (p performance, problem string) {
	type ev struct {
		off int
		m   oscx.Msg
		trk int
		op  string
	}
	var evs []ev
	for _, m := range msgs {
		switch {
		case m.Addr == "/system/play" && len(m.Args) == 0:
			p.play++
			continue
		case m.Addr == "/system/shutdown" && m.Types() == "i":
			p.shutdown = append(p.shutdown, int(m.I(0)))
			continue
		case m.Addr == "/system/midi/export" && m.Types() == "s":
			p.exports = append(p.exports, m.Args[0].(string))
			continue
		case m.Addr == "/system/tempo" && m.Types() == "if":
			t := float64(m.Args[1].(float32))
			if !(t > 0) || math.IsInf(t, 0) || m.I(0) < 0 {
				return p, "impossible tempo message " + m.String()
			}
			p.tempos = append(p.tempos, lang.TempoPoint{Offset: float64(m.I(0)), Tempo: t})
			continue
		}
		var trk int
		var op string
		if k, _ := fmt.Sscanf(m.Addr, "/track/%d/midi/%s", &trk, &op); k != 2 {
			return p, "unexpected message " + m.String()
		}
		want := "iii"
		if op == "note" {
			want = "iiiiii"
		} else if op != "patch" && op != "volume" && op != "panning" {
			return p, "unexpected message " + m.String()
		}
		if m.Types() != want {
			return p, "bad arguments in " + m.String()
		}
		if ch := m.I(0); ch < 0 || ch > 15 || trk < 1 {
			return p, "bad channel or track in " + m.String()
		}
		if v := m.I(2); v < 0 || v > 127 {
			return p, "value outside 0-127 in " + m.String()
		}
		if m.I(1) < 0 {
			return p, "negative offset in " + m.String()
		}
		evs = append(evs, ev{int(m.I(1)), m, trk, op})
	}
	sort.SliceStable(evs, func(i, j int) bool { return evs[i].off < evs[j].off })
	sort.SliceStable(p.tempos, func(i, j int) bool { return p.tempos[i].Offset < p.tempos[j].Offset })
	state := map[string][]int{"patch": nil, "volume": nil, "panning": nil}
	for k := range state {
		state[k] = make([]int, 16)
		for i := range state[k] {
			state[k][i] = -1
		}
	}
	for _, e := range evs {
		ch := int(e.m.I(0))
		if e.op != "note" {
			state[e.op][ch] = int(e.m.I(2))
			continue
		}
		h := heard{track: e.trk, ch: ch, off: e.off, note: int(e.m.I(2)), dur: int(e.m.I(3)), aud: int(e.m.I(4)), vel: int(e.m.I(5)),
			patch: state["patch"][ch], vol: state["volume"][ch], pan: state["panning"][ch]}
		if h.vel < 0 || h.vel > 127 {
			return p, "velocity outside 0-127 in " + e.m.String()
		}
		p.notes = append(p.notes, h)
	}
	return p, ""
}

func near(got int, want float64) bool { return math.Abs(float64(got)-want) <= 0.5+1e-6 }

// window selects what should be heard: the events in [from, to), moved.
type expected struct {
	sut.Ev
	maybe bool // so close to the edge of the window that either is right
}

func inWindow(evs []sut.Ev, from, to float64) []expected {
	var out []expected
	edge := func(a, b float64) bool { return a != b && math.Abs(a-b) < 1e-6 }
	for _, e := range evs {
		x := expected{e, edge(e.Offset, from) || edge(e.Offset, to)}
		if (e.Offset < from || e.Offset >= to) && !x.maybe {
			continue
		}
		x.Offset = math.Max(0, e.Offset-from)
		out = append(out, x)
	}
	return out
}

// inWindowWide is inWindow with every note at an edge optional.
func inWindowWide(evs []sut.Ev, from, to float64) []expected {
	var out []expected
	for _, e := range evs {
		x := expected{e, math.Abs(e.Offset-from) < 1e-6 || math.Abs(e.Offset-to) < 1e-6}
		if (e.Offset < from || e.Offset >= to) && !x.maybe {
			continue
		}
		x.Offset = math.Max(0, e.Offset-from)
		out = append(out, x)
	}
	return out
}

// compareNotes matches what was heard with what was written.
func compareNotes(want []expected, got []heard) string {
	key := func(track, ch, note int) string { return fmt.Sprint(track, ch, note) }
	pool := map[string][]heard{}
	for _, h := range got {
		k := key(h.track, h.ch, h.note)
		pool[k] = append(pool[k], h)
	}
	fits := func(e expected, h heard) string {
		switch {
		case !near(h.off, e.Offset):
			return "offset"
		case !near(h.dur, e.Dur):
			return "duration"
		case !near(h.aud, e.Audible):
			return "audible duration"
		case !near(h.vel, e.Vol*127):
			return "velocity"
		case e.Channel != 9 && h.patch != lang.Patch[e.Instr]:
			return fmt.Sprintf("instrument: program %d, %s is %d", h.patch, e.Instr, lang.Patch[e.Instr])
		case !near(h.vol, e.TVol*127):
			return "channel volume"
		case !near(h.pan, e.Pan*127):
			return "panning"
		}
		return ""
	}
	wants := map[string][]expected{}
	for _, e := range want {
		k := key(e.Track, e.Channel, e.Note)
		wants[k] = append(wants[k], e)
	}
	for k, es := range wants {
		hs := pool[k]
		delete(pool, k)
		ei, hi := match(len(es), len(hs), func(i, j int) bool { return fits(es[i], hs[j]) == "" }, func(i int) bool { return !es[i].maybe })
		for i, e := range es {
			if ei[i] < 0 && !e.maybe {
				why := "there is no other note message for this part, channel and pitch"
				best := math.Inf(1)
				for j, h := range hs {
					if d := math.Abs(float64(h.off) - e.Offset); hi[j] < 0 && d < best {
						best, why = d, fmt.Sprintf("the closest message has another %s: %+v", fits(e, h), h)
					}
				}
				return fmt.Sprintf("note not transmitted: %s on channel %d; %s", sut.Show(e.Event), e.Channel, why)
			}
		}
		for j, h := range hs {
			if hi[j] < 0 {
				return fmt.Sprintf("transmitted note that is not in the score (or not in the window): %+v", h)
			}
		}
	}
	for _, hs := range pool {
		for _, h := range hs {
			return fmt.Sprintf("transmitted note that is not in the score (or not in the window): %+v", h)
		}
	}
	return ""
}

// match finds a matching that covers as many of the required lefts as possible
// and then as many rights as possible. The results are -1 where unmatched.
func match(n, m int, edge func(i, j int) bool, required func(i int) bool) (left, right []int) {
	left, right = make([]int, n), make([]int, m)
	for i := range left {
		left[i] = -1
	}
	for j := range right {
		right[j] = -1
	}
	adj := make([][]int, n)
	radj := make([][]int, m)
	for i := range adj {
		for j := 0; j < m; j++ {
			if edge(i, j) {
				adj[i] = append(adj[i], j)
				radj[j] = append(radj[j], i)
			}
		}
	}
	var fromLeft func(i int, seen []bool) bool
	fromLeft = func(i int, seen []bool) bool {
		for _, j := range adj[i] {
			if !seen[j] {
				seen[j] = true
				if right[j] < 0 || fromLeft(right[j], seen) {
					left[i], right[j] = j, i
					return true
				}
			}
		}
		return false
	}
	for i := 0; i < n; i++ {
		if required(i) {
			fromLeft(i, make([]bool, m))
		}
	}
	var fromRight func(j int, seen []bool) bool
	fromRight = func(j int, seen []bool) bool {
		for _, i := range radj[j] {
			if !seen[i] {
				seen[i] = true
				if left[i] < 0 || fromRight(left[i], seen) {
					left[i], right[j] = j, i
					return true
				}
			}
		}
		return false
	}
	for j := 0; j < m; j++ {
		if right[j] < 0 {
			fromRight(j, make([]bool, n))
		}
	}
	return
}

func bundleOf(s *model.Score, opts ...transmitter.TransmissionOption) ([]oscx.Msg, error) {
	b, err := transmitter.OSCTransmitter{Port: 1}.ScoreToOSCBundle(s, opts...)
	if err != nil {
		return nil, err
	}
	raw, err := b.MarshalBinary()
	if err != nil {
		return nil, err
	}
	m, _, err := oscx.Decode(raw)
	if err != nil {
		return nil, fmt.Errorf("not valid OSC: %w", err)
	}
	return m, nil
}

// longest is the offset (in ms) up to which scores are compared: the protocol
// has 32 bits for it.
const longest = 2e9

func tooLong(evs []sut.Ev) bool {
	for _, e := range evs {
		if e.Offset+e.Dur > longest || e.Audible > longest {
			return true
		}
	}
	return false
}

// sendOf transmits over TCP, as alda does.
func sendOf(s *model.Score, opts ...transmitter.TransmissionOption) ([]oscx.Msg, error) {
	p, err := oscx.NewPlayer(0)
	if err != nil {
		panic(err)
	}
	defer p.Close()
	if err := (transmitter.OSCTransmitter{Port: p.Port}).TransmitScore(s, opts...); err != nil {
		return nil, err
	}
	k := p.Wait(1, 10*time.Second)
	if len(k) != 1 || k[0].Err != nil {
		return nil, fmt.Errorf("received %d packets, %+v", len(k), k)
	}
	return k[0].Msgs, nil
}

// transmitScore is a score for the transmitter checks.
func transmitScore(c *fw.Ctx, i int) (text string, ref *lang.Ref, res sut.Result, ok bool) {
	switch {
	case i%4 == 3: // many parts on few channels
		text = crowd(c)
		res = sut.Compile(text)
		return text, nil, res, res.Stage == sut.OK
	default:
		f := lang.All()
		f.Errors = false
		f.MoreAttrs = 15
		f.Sections = 5
		f.MaxParts = 2 + i%5
		s := (&lang.Gen{R: c.R, F: f}).Valid()
		text = lang.Plain(s)
		rf, err := lang.Interpret(s)
		if err == nil {
			ref = rf
		}
		res = sut.Compile(text)
		return text, ref, res, res.Stage == sut.OK
	}
}

// crowd writes a score whose parts share channels and change their settings.
func crowd(c *fw.Ctx) string {
	r := c.R
	n := 2 + r.Intn(4)
	many := r.Intn(2) == 0
	if many {
		n = 16 + r.Intn(10)
	}
	var b strings.Builder
	t := 0
	for k := 0; k < n; k++ {
		fmt.Fprintf(&b, "%s \"p%c%c\": (quant 100)", lang.GM[r.Intn(128)][0], 'a'+k/26, 'a'+k%26)
		if !many {
			fmt.Fprintf(&b, " (midi-channel %d)", r.Intn(2)*5)
		}
		if t > 0 {
			fmt.Fprintf(&b, " r%dms", t)
		}
		for q := 0; q < 1+r.Intn(3); q++ {
			switch r.Intn(5) {
			case 0:
				fmt.Fprintf(&b, " (panning %d)", lang.Percent(r))
			case 1:
				fmt.Fprintf(&b, " (track-vol %d)", lang.Percent(r))
			case 2:
				fmt.Fprintf(&b, " (vol %d)", lang.Percent(r))
			}
			d := 50 + r.Intn(4)*150
			fmt.Fprintf(&b, " %c%dms", "cdefgab"[r.Intn(7)], d)
			t += d
		}
		b.WriteString("\n")
	}
	// The parts come back later, in another order.
	for _, k := range r.Perm(n) {
		if r.Intn(2) == 0 {
			fmt.Fprintf(&b, "p%c%c: r%dms d200ms\n", 'a'+k/26, 'a'+k%26, t)
			t += 200
		}
	}
	return b.String()
}

func init() {
	fw.Register(&fw.Check{
		ID: "C13", Quick: 8000, Thorough: 300000, MinNontrivialPct: 25,
		Rule: "whole-language scores and scores of up to 25 parts sharing channels with changing volume and panning, transmitted with every combination of one-off, load-only, event range and synchronisation options (an eighth of them over TCP to a listening player); the bytes are decoded and performed like a sequencer does, and every note is compared with the score along with the instrument, volume and panning in force on its channel. Non-trivial: at least 4 notes and either several parts on a channel or a change of volume or panning.",
		Fixed: []fw.Fixed{{Name: "instruments", Run: func(c *fw.Ctx) {
			// Every documented name of every instrument selects its GM program.
			for p, names := range lang.GM {
				for _, n := range names {
					text := n + ": c"
					res := sut.Compile(text)
					if res.Stage != sut.OK {
						c.Fail(text, "refused: %v", res.Err)
						continue
					}
					m, err := bundleOf(res.Score)
					pf, prob := perform(m)
					if err != nil || prob != "" || len(pf.notes) != 1 || pf.notes[0].patch != p {
						c.Fail(text, "expected one note of program %d, got %+v %v %s", p, pf.notes, err, prob)
					}
					c.Eval()
					c.Nontrivial(text)
				}
			}
		}}},
		Case: func(c *fw.Ctx, i int) {
			text, _, res, ok := transmitScore(c, i)
			if !ok {
				c.Count("skipped: refused", 1)
				return
			}
			evs, err := sut.Events(res.Score)
			if err != nil {
				c.Fail(text, "%v", err)
				return
			}
			if tooLong(evs) {
				c.Count("skipped: longer than three weeks", 1)
				return
			}
			r := c.R
			var opts []transmitter.TransmissionOption
			oneOff, loadOnly := r.Intn(2) == 0, r.Intn(3) == 0
			what := ""
			if oneOff {
				opts = append(opts, transmitter.OneOff())
				what += " one-off"
			}
			if loadOnly {
				opts = append(opts, transmitter.LoadOnly())
				what += " load-only"
			}
			lo, hi := 0, len(evs)
			tempo := true
			sel := append([]sut.Ev{}, evs...)
			if r.Intn(4) == 0 && len(evs) > 0 {
				lo = r.Intn(len(evs) + 1)
				opts = append(opts, transmitter.TransmitFromIndex(lo))
				if r.Intn(2) == 0 {
					hi = lo + r.Intn(len(evs)+1-lo)
					opts = append(opts, transmitter.TransmitToIndex(hi))
				}
				what += fmt.Sprintf(" events %d-%d", lo, hi)
				sel = append([]sut.Ev{}, evs[lo:hi]...)
			}
			if r.Intn(4) == 0 {
				// Every part starts at its own position.
				tempo = false
				first := map[int]float64{}
				for _, e := range sel {
					if v, ok := first[e.Track]; !ok || e.Offset < v {
						first[e.Track] = e.Offset
					}
				}
				sync := map[*model.Part]float64{}
				same := r.Intn(2) == 0
				min := math.Inf(1)
				for _, v := range first {
					min = math.Min(min, v)
				}
				for p, t := range res.Score.Tracks() {
					if v, ok := first[int(t)]; ok {
						if same {
							v = min
						}
						sync[p] = v
						first[int(t)] = v
					}
				}
				if len(sync) > 0 {
					// Parts that share a channel have no order between them here.
					shared := map[int]int{}
					for _, e := range sel {
						if t, ok := shared[e.Channel]; ok && t != e.Track && !same {
							return
						}
						shared[e.Channel] = e.Track
					}
					opts = append(opts, transmitter.SyncOffsets(sync))
					what += " sync"
					for k := range sel {
						sel[k].Offset -= first[sel[k].Track]
					}
				} else {
					tempo = true
				}
			}
			send := bundleOf
			if i%8 == 0 {
				send = sendOf
				c.Count("sent over TCP", 1)
			}
			desc := text + "\noptions:" + what
			var msgs []oscx.Msg
			for again := 0; again < 2; again++ {
				if msgs, err = send(res.Score, opts...); err != nil {
					c.Fail(desc, "not transmitted: %v", err)
					return
				}
				pf, prob := perform(msgs)
				if prob != "" {
					c.Fail(desc, "%s", prob)
					return
				}
				c.Eval()
				c.Count("notes compared", len(pf.notes))
				if m := compareNotes(inWindow(sel, 0, math.Inf(1)), pf.notes); m != "" {
					c.Fail(desc, "transmission %d: %s", again+1, m)
					return
				}
				if (pf.play == 1) == loadOnly || pf.play > 1 {
					c.Fail(desc, "%d play messages", pf.play)
				}
				if (len(pf.shutdown) == 1) != oneOff || len(pf.shutdown) > 1 {
					c.Fail(desc, "shutdown messages: %v", pf.shutdown)
				}
				end := 0.0
				for _, e := range sel {
					end = math.Max(end, e.Offset+e.Audible)
				}
				if oneOff && float64(pf.shutdown[0]) < end {
					c.Fail(desc, "shutdown at %d ms, the score ends at %g ms", pf.shutdown[0], end)
				}
				if (len(pf.tempos) > 0) != tempo {
					c.Fail(desc, "tempo messages: %v", pf.tempos)
				}
				if len(pf.exports) > 0 {
					c.Fail(desc, "an export was requested")
				}
				if lo != 0 || hi != len(evs) {
					break // the events were put in order of time
				}
			}
			now, _ := sut.Events(res.Score)
			if d := sut.Diff(sut.Plain(evs), sut.Plain(now)); d != "" {
				c.Fail(desc, "transmitting changed the score: %s", d)
			}
			parts, settings := map[[2]int]bool{}, map[[3]int]bool{}
			for _, e := range sel {
				parts[[2]int{e.Channel, e.Track}] = true
				settings[[3]int{e.Channel, int(e.TVol * 1000), int(e.Pan * 1000)}] = true
			}
			chans := map[int]bool{}
			for k := range parts {
				chans[k[0]] = true
			}
			if len(parts) > len(chans) {
				c.Count("transmissions with a channel shared by parts", 1)
			}
			if len(settings) > len(chans) {
				c.Count("transmissions with changing volume or panning", 1)
			}
			if len(sel) >= 4 && (len(parts) > len(chans) || len(settings) > len(chans)) {
				c.Nontrivial(desc)
				c.Sample(map[string]interface{}{"text": text, "options": what, "notes": len(sel), "messages": len(msgs)})
			}
		},
	})
}
