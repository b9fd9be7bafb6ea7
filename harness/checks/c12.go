package checks

import (
	"fmt"
	"strings"

	"verif/fw"
	"verif/lang"
	"verif/sut"
)

// A note as the generator of C12 plans it.
type planned struct {
	part    int
	off     float64
	audible float64
	want    int // explicit channel, -1 if none
	perc    bool
	mc      string // an instruction that has to be refused instead
}

const overlapTol = 1e-6

// sounding says whether two stretches of time overlap for sure.
func sounding(a, al, b, bl float64) bool { return a+overlapTol < b+bl && b+overlapTol < a+al }

// touching says whether they might.
func touching(a, al, b, bl float64) bool { return a-overlapTol < b+bl && b-overlapTol < a+al }

// channelInvariant checks what holds of the channels of every accepted score.
func channelInvariant(evs []sut.Ev) string {
	byChannel := map[int][]sut.Ev{}
	for _, e := range evs {
		perc := e.Instr == "midi-percussion"
		if e.Channel < 0 || e.Channel > 15 {
			return fmt.Sprintf("channel %d: %s", e.Channel, sut.Show(e.Event))
		}
		if perc != (e.Channel == 9) {
			return fmt.Sprintf("%s plays on channel %d: %s", e.Instr, e.Channel, sut.Show(e.Event))
		}
		if !perc {
			byChannel[e.Channel] = append(byChannel[e.Channel], e)
		}
	}
	for ch, es := range byChannel {
		for i, a := range es {
			for _, b := range es[:i] {
				if a.Track != b.Track && sounding(a.Offset, a.Audible, b.Offset, b.Audible) {
					return fmt.Sprintf("two parts sound on channel %d at the same time:\n  %s\n  %s", ch, sut.Show(a.Event), sut.Show(b.Event))
				}
			}
		}
	}
	return ""
}

func init() {
	fw.Register(&fw.Check{
		ID: "C12", Quick: 12000, Thorough: 400000, MinNontrivialPct: 30,
		Rule: "scores of 1 to 40 parts (percussion, voices, explicit channels valid and not, parts written in pieces, overlapping or taking turns, notes longer than their slot); every pair of notes on a channel is checked for overlap, explicit channels and percussion are checked, and each refusal is checked to be forced by the notes already placed. A quarter are whole-language scores. Non-trivial: at least two parts shared a channel, an explicit channel was used, or the score was refused.",
		Case: func(c *fw.Ctx, i int) {
			if i%4 == 3 {
				f := lang.All()
				f.MaxParts, f.Sections = 8, 8
				s := (&lang.Gen{R: c.R, F: f}).Valid()
				res := sut.Compile(lang.Plain(s))
				if res.Stage == sut.OK {
					evs, err := sut.Events(res.Score)
					if err != nil {
						c.Fail(lang.Plain(s), "%v", err)
						return
					}
					c.Eval()
					c.Count("whole-language scores", 1)
					c.Count("notes checked", len(evs))
					if m := channelInvariant(evs); m != "" {
						c.Fail(lang.Plain(s), "%s", m)
					}
				}
				return
			}
			channelCase(c, i)
		},
	})
}

func channelCase(c *fw.Ctx, i int) {
	r := c.R
	n := 1 + r.Intn(6)
	switch r.Intn(3) {
	case 0:
		n = 10 + r.Intn(10)
	case 1:
		n = 14 + r.Intn(27)
	}
	turns := r.Intn(3) // 0: all at once; 1: random starts; 2: mostly taking turns
	explicit := r.Intn(3) == 0
	unit := []float64{100, 100, 100, 1, 7000, 600000}[r.Intn(6)] // how long the notes are
	type st struct {
		name  string
		perc  bool
		off   float64
		quant float64
		want  int
		voice bool
	}
	parts := make([]st, n)
	for k := range parts {
		inst := lang.GM[r.Intn(len(lang.GM))][0]
		parts[k] = st{off: 0, quant: 90, want: -1}
		if r.Intn(12) == 0 {
			inst, parts[k].perc = "midi-percussion", true
		}
		parts[k].name = fmt.Sprintf("%s \"p%c%c\"", inst, 'a'+k/26, 'a'+k%26)
	}
	var b strings.Builder
	var plan []planned
	sections := n + r.Intn(n+3)
	used := map[int]bool{}
	order := r.Perm(n)
	slot := 0.0
	for k := 0; k < sections; k++ {
		pi := order[k%n]
		if k >= n {
			pi = r.Intn(n)
		}
		p := &parts[pi]
		if used[pi] {
			fmt.Fprintf(&b, "p%c%c:", 'a'+pi/26, 'a'+pi%26)
		} else {
			fmt.Fprintf(&b, "%s:", p.name)
			used[pi] = true
		}
		if r.Intn(4) == 0 {
			p.quant = []float64{50, 100, 100, 150, 200}[r.Intn(5)]
			fmt.Fprintf(&b, " (quant %g)", p.quant)
		}
		if explicit && r.Intn(3) == 0 {
			ch := r.Intn(16)
			if r.Intn(3) > 0 {
				ch = r.Intn(4)
			}
			bad := ""
			switch {
			case r.Intn(60) == 0:
				ch = []int{16, -1, 200}[r.Intn(3)]
				bad = "range"
			case ch == 9 && !p.perc:
				bad = "channel 9"
			}
			if bad == "channel 9" && r.Intn(4) > 0 {
				ch, bad = 8, ""
			}
			fmt.Fprintf(&b, " (midi-channel %d)", ch)
			if bad != "" {
				plan = append(plan, planned{mc: bad})
			}
			p.want = ch
		}
		rest := 0.0
		switch turns {
		case 1:
			rest = float64(r.Intn(40)) * unit
		case 2:
			if p.off < slot {
				rest = slot - p.off
			}
			rest += float64(r.Intn(2)) * unit * float64(r.Intn(2))
		}
		if rest > 0 {
			fmt.Fprintf(&b, " r%.0fms", rest)
			p.off += rest
		}
		note := func() {
			d := float64(1+r.Intn(8)) * unit
			if r.Intn(10) == 0 {
				fmt.Fprintf(&b, " r%.0fms", d)
				p.off += d
				return
			}
			slur := r.Intn(8) == 0
			aud := d * p.quant / 100
			t := ""
			if slur {
				t, aud = "~", d
			}
			fmt.Fprintf(&b, " c%.0fms%s", d, t)
			plan = append(plan, planned{part: pi, off: p.off, audible: aud, want: p.want, perc: p.perc})
			p.off += d
		}
		if r.Intn(6) == 0 { // voices
			start, longest := p.off, p.off
			for v := 1; v <= 1+r.Intn(3); v++ {
				fmt.Fprintf(&b, " V%d:", v)
				p.off = start
				for q := 0; q < 1+r.Intn(3); q++ {
					note()
				}
				if p.off > longest {
					longest = p.off
				}
			}
			p.off = longest
			b.WriteString(" V0:")
		} else {
			for q := 0; q < 1+r.Intn(4); q++ {
				note()
			}
		}
		if p.off > slot {
			slot = p.off
		}
		b.WriteString("\n")
	}
	text := b.String()
	res := sut.Compile(text)
	if res.Score == nil {
		c.Fail(text, "not parsed: %v", res.Err)
		return
	}
	evs, err := sut.Events(res.Score)
	if err != nil {
		c.Fail(text, "%v", err)
		return
	}
	c.Eval()
	c.Count("notes checked", len(evs))
	c.Count("parts", n)
	if m := channelInvariant(evs); m != "" {
		c.Fail(text, "%s", m)
		return
	}
	if len(evs) > len(plan) {
		c.Fail(text, "%d notes, %d written", len(evs), len(plan))
		return
	}
	// The notes come out in the order they are written in.
	for k, e := range evs {
		p := plan[k]
		if p.mc != "" {
			c.Fail(text, "a channel that cannot be used (%s) was accepted", p.mc)
			return
		}
		if !sut.Close(e.Offset, p.off) || !sut.Close(e.Audible, p.audible) {
			c.Fail(text, "note %d is %s, expected at %g for %g ms", k, sut.Show(e.Event), p.off, p.audible)
			return
		}
		if p.want >= 0 && !p.perc && e.Channel != p.want {
			c.Fail(text, "note %d plays on channel %d, the part asked for %d", k, e.Channel, p.want)
			return
		}
	}
	tracks, shared := map[int]map[int]bool{}, false
	for _, e := range evs {
		if tracks[e.Channel] == nil {
			tracks[e.Channel] = map[int]bool{}
		}
		tracks[e.Channel][e.Track] = true
		shared = shared || e.Channel != 9 && len(tracks[e.Channel]) > 1
	}
	if shared {
		c.Count("scores with a channel shared by several parts", 1)
	}
	c.Max("parts in an accepted score", float64(map[bool]int{true: n}[res.Stage == sut.OK]))
	if explicit || shared || res.Stage != sut.OK {
		c.Nontrivial(text)
		c.Sample(map[string]interface{}{"text": text, "accepted": res.Stage == sut.OK})
	}
	if res.Stage == sut.OK {
		c.Count("accepted", 1)
		if len(evs) != len(plan) {
			c.Fail(text, "%d notes or channel changes expected, %d notes played", len(plan), len(evs))
		}
		return
	}
	if len(evs) == len(plan) {
		c.Fail(text, "refused although every note has its channel: %v", res.Err)
		return
	}
	p := plan[len(evs)]
	if p.mc != "" {
		c.Count("refused: "+p.mc, 1)
		return
	}
	if p.perc {
		c.Fail(text, "refused at a percussion note: %v", res.Err)
		return
	}
	busy := map[int]bool{}
	for k, e := range evs {
		if plan[k].part != p.part && touching(e.Offset, e.Audible, p.off, p.audible) {
			busy[e.Channel] = true
		}
	}
	if p.want >= 0 {
		if !busy[p.want] {
			c.Fail(text, "note %d (at %g for %g ms) was refused channel %d, which is free: %v", len(evs), p.off, p.audible, p.want, res.Err)
			return
		}
		c.Count("refused: explicit channel taken", 1)
		return
	}
	for ch := 0; ch < 16; ch++ {
		if ch != 9 && !busy[ch] {
			c.Fail(text, "note %d (at %g for %g ms) was refused although channel %d is free: %v", len(evs), p.off, p.audible, ch, res.Err)
			return
		}
	}
	c.Count("refused: all channels taken", 1)
}
