package checks

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verif/fw"
	"verif/lang"
	"verif/replx"
)

// C23: players come and go.

// c23Try submits a piece and says whether it was played.
func (s *session) c23Try(limit time.Duration) (played, ok bool) {
	n := len(s.pieces)
	letter := "cdefgab"[s.c.R.Intn(7)]
	piece := []lang.Node{lang.Note{Letter: letter}}
	text := string(letter) + "\n"
	if n == 0 || len(s.nodes) == 0 {
		piece = append([]lang.Node{lang.Part{Names: []string{"piano"}}}, piece...)
		text = "piano: " + text
	}
	start := time.Now()
	if s.diedAt.IsZero() {
		// The session must not take a refusal for a failure of the check.
		s.diedAt = start
		defer func() { s.diedAt = time.Time{} }()
	}
	if !s.evalPiece(piece, text) {
		return false, false
	}
	if d := time.Since(start); d > limit {
		return false, s.fail("the reply took %v", d)
	}
	if len(s.pieces) > n {
		return true, true
	}
	return false, s.afterFailure()
}

// c23Recover waits until playing works again.
func (s *session) c23Recover(why string, limit time.Duration) bool {
	start := time.Now()
	tries := 0
	// The server gives a player that says it is ready 20 s to prove it.
	limit += time.Duration(s.pool.DeadReady(false)) * 25 * time.Second
	for {
		tries++
		played, ok := s.c23Try(40 * time.Second)
		if !ok {
			return false
		}
		if played {
			s.c.Count("players adopted", 1)
			s.c.Max("longest recovery (ms)", time.Since(start).Seconds()*1000)
			return true
		}
		s.c.Count("requests without a player refused", 1)
		if time.Since(start) > limit {
			return s.fail("%v after %s, playing still fails; %d players are available", time.Since(start).Round(time.Second), why, len(s.pool.Live()))
		}
		time.Sleep(time.Duration(200+s.c.R.Intn(600)) * time.Millisecond)
	}
}

func c23Case(c *fw.Ctx, i int) {
	r := rand.New(rand.NewSource(c.R.Int63()))
	keep := 1 + r.Intn(3)
	late := i%8 == 3
	if late {
		keep = 0
	}
	lingers := []time.Duration{0, 50 * time.Millisecond, 500 * time.Millisecond, 3 * time.Second}
	s := newSession(c, keep, func() time.Duration { return lingers[r.Intn(len(lingers))] })
	if s == nil {
		return
	}
	defer s.close()
	c.Eval()
	s.pool.Lag = func() time.Duration { return time.Duration(r.Intn(3)) * 400 * time.Millisecond }
	// Players that are none of the server's business, and files that are not
	// about players.
	var others []*replx.Stub
	for k := r.Intn(3); k > 0; k-- {
		others = append(others, s.pool.Add([]string{"active", "starting", "finishing", "", "Ready"}[r.Intn(5)]))
	}
	foreign := (&replx.Pool{Env: replx.Env{Dir: s.env.Dir + "/foreign"}, R: r})
	foreign.Env.Setup()
	defer foreign.Close()
	f := foreign.Add("ready")
	old := filepath.Join(filepath.Dir(s.env.Players()), "0.0.1")
	os.MkdirAll(old, 0755)
	os.WriteFile(filepath.Join(old, f.ID+".json"), []byte(fmt.Sprintf(`{"state":"ready","port":%d,"expiry":%d,"pid":1}`, f.Port, time.Now().Add(time.Minute).UnixMilli())), 0644)
	others = append(others, f)
	junk := []string{"", "{", "[]", "null", `"ready"`, `{"state":"ready","port":"x"}`, `{"state":5,"port":1}`, "{}", "\x00\xff", `{"port":0}`}
	for k := r.Intn(5); k > 0; k-- {
		os.WriteFile(filepath.Join(s.env.Players(), fmt.Sprintf("a%02d.json", k)), []byte(junk[r.Intn(len(junk))]), 0644)
	}
	if r.Intn(4) == 0 {
		os.MkdirAll(filepath.Join(s.env.Players(), "aaa.json"), 0755)
	}
	if late {
		if !c23None(s, 2) {
			return
		}
	} else if !s.c23Recover("the start", 15*time.Second) {
		return
	}
	deadline := time.Now().Add(40 * time.Second)
	if c.Tier == "thorough" {
		deadline = time.Now().Add(4 * time.Minute)
	}
	story := []string{}
	for step := 0; step < 6 && time.Now().Before(deadline); step++ {
		what := []string{"dies", "dies", "unclean", "dead ready", "none", "new score", "replay", "plays", "dies idle", "hangs"}[r.Intn(10)]
		if what == "none" && i%4 != 0 {
			what = "plays"
		}
		story = append(story, what)
		s.pool.DeadReady(true)
		c.Count("step: "+what, 1)
		s.history = append(s.history, "step: "+what)
		ok := true
		switch what {
		case "dies", "unclean", "dies idle":
			if s.cur == nil {
				continue
			}
			clean := what != "unclean" && r.Intn(2) == 0
			s.cur.Die(clean)
			s.history = append(s.history, fmt.Sprintf("player %s dies (clean: %v)", s.cur.ID, clean))
			s.cur = nil
			s.diedAt = time.Now()
			s.pool.Start()
			c.Count("players lost", 1)
			if what == "dies idle" {
				// Nobody asks for anything until it must have noticed.
				time.Sleep(time.Duration(12+25*s.pool.DeadReady(false)) * time.Second)
				played, good := s.c23Try(40 * time.Second)
				if good && !played {
					good = s.fail("12 s after its player died, the first request fails; %d players are available", len(s.pool.Live()))
				}
				ok = good
			} else {
				time.Sleep(time.Duration(r.Intn(3)) * 300 * time.Millisecond)
				ok = s.c23Recover("its player died", 25*time.Second)
			}
			s.diedAt = time.Time{}
		case "hangs":
			// It is still there, but its state file isn't anymore.
			if s.cur == nil {
				continue
			}
			hung := s.cur
			hung.Hang()
			s.history = append(s.history, fmt.Sprintf("player %s loses its state file", hung.ID))
			s.cur = nil
			s.diedAt = time.Now()
			s.pool.Start()
			c.Count("players lost", 1)
			c.Count("players that hang", 1)
			time.Sleep(time.Duration(12+25*s.pool.DeadReady(false)) * time.Second)
			ok = s.c23Recover("its player's state file was removed", 25*time.Second)
			if ok && s.cur == hung {
				ok = s.fail("more than 12 s after the state file of %s was removed, the server still plays on it; %d players are available", hung.ID, len(s.pool.Live()))
			}
			s.diedAt = time.Time{}
		case "dead ready":
			// One that says it is ready and is not there any more.
			d := s.pool.Add("ready")
			d.Die(false)
			if s.cur != nil {
				s.cur.Die(r.Intn(2) == 0)
				c.Count("players lost", 1)
				s.history = append(s.history, fmt.Sprintf("player %s dies, and %s, which is ready", s.cur.ID, d.ID))
			}
			s.cur = nil
			s.diedAt = time.Now()
			s.pool.Start()
			c.Count("players lost", 1)
			ok = s.c23Recover("its player and another one died", 30*time.Second)
			s.diedAt = time.Time{}
		case "none":
			ok = c23None(s, 1+r.Intn(2))
		case "new score":
			ok = s.newScore()
			if ok && r.Intn(2) == 0 {
				ok = s.newScore()
			}
			if ok {
				ok = s.c23Recover("a new score", 10*time.Second)
			}
		case "replay":
			ok = s.replay()
		case "plays":
			played, good := s.c23Try(10 * time.Second)
			if good && !played {
				good = s.fail("a request fails although nothing happened to the player")
			}
			ok = good
		}
		if !ok {
			return
		}
	}
	if !s.verify() {
		return
	}
	for _, o := range others {
		if n := len(o.Packets()) + o.Pings(); n > 0 {
			s.fail("player %s, which is not available (state %q), was contacted %d times", o.ID, o.State(), n)
			return
		}
	}
	c.Count("unavailable players left alone", len(others))
	c.Nontrivial(strings.Join(story, " ") + fmt.Sprint(i))
	if i < 4 {
		c.Sample(s.history)
	}
}

// c23None takes all players away for a while.
func c23None(s *session, requests int) bool {
	s.pool.SetKeep(0)
	for _, p := range s.pool.Live() {
		if p.State() == "ready" || p == s.cur {
			p.Die(true)
		}
	}
	s.cur = nil
	s.diedAt = time.Now()
	s.history = append(s.history, "all players disappear")
	for k := 0; k < requests; k++ {
		played, ok := s.c23Try(40 * time.Second)
		if !ok {
			return false
		}
		if played {
			return s.fail("a request succeeds although there is no player")
		}
		s.c.Count("requests without a player refused", 1)
		if !s.srv.Alive() {
			return s.fail("the server ended: %s", s.srv.Stderr.String())
		}
		c, err := net.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", s.srv.Port))
		if err != nil {
			return s.fail("without players the server cannot be reached: %v", err)
		}
		c.Close()
		time.Sleep(time.Duration(s.c.R.Intn(3)) * time.Second)
	}
	s.pool.SetKeep(2)
	s.pool.Start()
	s.diedAt = time.Now()
	ok := s.c23Recover("there are players again", 25*time.Second)
	s.diedAt = time.Time{}
	return ok
}

func init() {
	fw.Register(&fw.Check{
		ID: "C23", Quick: 32, Thorough: 640, MinNontrivialPct: 80, Workers: 32, CaseWall: 800 * time.Second,
		Rule: "a REPL server process whose stand-in players die with and without removing their state files, hang without a state file, before requests, between them and while nobody asks, shut down slowly while still looking ready, update their state files late, are missing altogether for a while, or are there but busy, starting or of another version, among malformed state files. Every packet every player receives is accounted for: playback goes to the one player in use, never to one that was told to shut down, and moves only after that one is gone; within a time limit after a loss playing works again; without any player requests fail in time and the server lives on.",
		Need: []string{"players lost", "players adopted", "requests without a player refused", "unavailable players left alone", "packets checked"},
		Case: c23Case,
	})
}
