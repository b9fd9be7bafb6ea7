package replx

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"alda.io/client/generated"

	"verif/oscx"
)

// Env is an isolated environment for alda processes.
type Env struct{ Dir string }

// Vars are the environment variables of a process in it.
func (e Env) Vars() []string {
	return []string{"PATH=" + os.Getenv("PATH"), "ALDA_DISABLE_SPAWNING=yes", "ALDA_DISABLE_TELEMETRY=yes", "HOME=" + e.Dir,
		"XDG_CACHE_HOME=" + e.Dir + "/cache", "XDG_CONFIG_HOME=" + e.Dir + "/config", "NO_COLOR=1", "TMPDIR=" + e.Dir + "/tmp"}
}

// Setup makes the directories.
func (e Env) Setup() {
	for _, d := range []string{"tmp", "work", "stage"} {
		os.MkdirAll(filepath.Join(e.Dir, d), 0755)
	}
	os.MkdirAll(e.Players(), 0755)
}

// Players is where players of this version keep their state files.
func (e Env) Players() string {
	return filepath.Join(e.Dir, "cache", "alda", "state", "players", generated.ClientVersion)
}

// Servers is where REPL servers keep theirs.
func (e Env) Servers() string { return filepath.Join(e.Dir, "cache", "alda", "state", "repl-servers") }

// Stub is a stand-in for a player process. It does what the player does with
// its state file: a ping (or playing) makes it active, a shutdown message
// removes it.
type Stub struct {
	*oscx.Player
	ID       string
	env      Env
	mu       sync.Mutex
	state    string
	gone     bool
	ShutAt   time.Time     // when it was told to shut down
	Linger   time.Duration // how long it takes to shut down
	OnExport func(path string)
	pool     *Pool
}

// Pool is a set of players.
type Pool struct {
	Env   Env
	R     *rand.Rand
	mu    sync.Mutex
	All   []*Stub
	n     int
	Keep  int // how many ready players to keep around
	Delay func() time.Duration
	Lag   func() time.Duration // how long until the state file tells the truth
	Log   []string             // what the players saw, in order of arrival
}

// Add starts a player.
func (p *Pool) Add(state string) *Stub {
	pl, err := oscx.NewPlayer(0)
	if err != nil {
		panic(err)
	}
	p.mu.Lock()
	p.n++
	s := &Stub{Player: pl, ID: fmt.Sprintf("p%c%02d", 'a'+p.R.Intn(26), p.n), env: p.Env, state: state, pool: p}
	if p.Delay != nil {
		s.Linger = p.Delay()
	}
	p.All = append(p.All, s)
	p.mu.Unlock()
	pl.OnPacket = s.packet
	s.write()
	return s
}

func (s *Stub) file() string { return filepath.Join(s.env.Players(), s.ID+".json") }

func (s *Stub) write() {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.gone {
		return
	}
	b, _ := json.Marshal(map[string]interface{}{"state": s.state, "port": s.Port, "expiry": time.Now().Add(7 * time.Minute).UnixMilli(), "pid": os.Getpid()})
	tmp := filepath.Join(s.env.Dir, "stage", s.ID)
	os.WriteFile(tmp, b, 0644)
	os.Rename(tmp, s.file())
}

// State reports what it says about itself.
func (s *Stub) State() string { s.mu.Lock(); defer s.mu.Unlock(); return s.state }

// Gone says whether it no longer exists.
func (s *Stub) Gone() bool { s.mu.Lock(); defer s.mu.Unlock(); return s.gone }

func (s *Stub) packet(k oscx.Packet) {
	for _, m := range k.Msgs {
		s.pool.mu.Lock()
		if m.Addr != "/ping" || s.State() != "active" {
			s.pool.Log = append(s.pool.Log, s.ID+" "+m.Addr)
		}
		s.pool.mu.Unlock()
		switch {
		case m.Addr == "/ping" || m.Addr == "/system/play":
			if s.State() != "active" {
				s.mu.Lock()
				s.state = "active"
				s.mu.Unlock()
				if s.pool.Lag != nil {
					go func() {
						time.Sleep(s.pool.Lag())
						s.write()
					}()
				} else {
					s.write()
				}
				s.pool.refill()
			}
		case m.Addr == "/system/shutdown" && m.I(0) == 0:
			s.mu.Lock()
			if s.ShutAt.IsZero() {
				s.ShutAt = k.At
			}
			s.mu.Unlock()
			go func() {
				time.Sleep(s.Linger)
				s.Die(true)
			}()
		case m.Addr == "/system/midi/export":
			if s.OnExport != nil {
				s.OnExport(m.Args[0].(string))
			} else {
				go WriteSlowly(m.Args[0].(string), ExportData(s.ID))
			}
		}
	}
}

// ExportData is what a player writes when it is asked for a MIDI file: a file
// of one track.
func ExportData(id string) []byte {
	events := strings.Repeat("\x00\xff\x01\x0c"+fmt.Sprintf("data of %-4.4s", id), 50) + "\x00\xff\x2f\x00"
	return []byte("MThd\x00\x00\x00\x06\x00\x00\x00\x01\x00\x80MTrk\x00\x00" +
		string([]byte{byte(len(events) >> 8), byte(len(events))}) + events)
}

// WriteSlowly writes a file in three parts.
func WriteSlowly(path string, data []byte) {
	f, err := os.Create(path)
	if err != nil {
		return
	}
	defer f.Close()
	for _, part := range [][]byte{data[:0], data[:len(data)/2], data[len(data)/2:]} {
		time.Sleep(20 * time.Millisecond)
		f.Write(part)
	}
}

// Shut says when it was told to shut down.
func (s *Stub) Shut() time.Time { s.mu.Lock(); defer s.mu.Unlock(); return s.ShutAt }

// Die ends the player, with or without taking its state file along.
func (s *Stub) Die(clean bool) {
	s.mu.Lock()
	s.gone = true
	s.mu.Unlock()
	s.Close()
	if clean {
		os.Remove(s.file())
	}
	s.pool.refill()
}

// Hang leaves it listening, but without a state file (as if it had stopped taking
// care of it).
func (s *Stub) Hang() {
	s.mu.Lock()
	s.gone = true
	s.mu.Unlock()
	os.Remove(s.file())
	s.pool.refill()
}

func (p *Pool) refill() {
	p.mu.Lock()
	n := 0
	for _, s := range p.All {
		if !s.Gone() && s.State() == "ready" {
			n++
		}
	}
	keep := p.Keep
	p.mu.Unlock()
	for ; n < keep; n++ {
		p.Add("ready")
	}
}

// SetKeep changes how many ready players there should be.
func (p *Pool) SetKeep(n int) { p.mu.Lock(); p.Keep = n; p.mu.Unlock() }

// Start brings the pool up to strength.
func (p *Pool) Start() { p.refill() }

// DeadReady counts the state files of dead players that say ready, and removes
// them if wanted.
func (p *Pool) DeadReady(remove bool) int {
	n := 0
	for _, s := range p.Stubs() {
		if b, err := os.ReadFile(s.file()); err == nil && s.Gone() && strings.Contains(string(b), "ready") {
			n++
			if remove {
				os.Remove(s.file())
			}
		}
	}
	return n
}

// Live lists the players that exist.
func (p *Pool) Live() []*Stub {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := []*Stub{}
	for _, s := range p.All {
		if !s.Gone() {
			out = append(out, s)
		}
	}
	return out
}

// Stubs lists all players that ever existed.
func (p *Pool) Stubs() []*Stub { p.mu.Lock(); defer p.mu.Unlock(); return append([]*Stub{}, p.All...) }

// Close ends everything.
func (p *Pool) Close() {
	p.mu.Lock()
	p.Keep = 0
	p.mu.Unlock()
	for _, s := range p.Stubs() {
		s.Die(true)
	}
}

// Arrival is a packet with the player that got it.
type Arrival struct {
	Stub *Stub
	oscx.Packet
}

// Fence waits until the players have dealt with everything sent to them before.
func (p *Pool) Fence() {
	var wg sync.WaitGroup
	for _, s := range p.Stubs() {
		if !s.Gone() {
			wg.Add(1)
			go func(s *Stub) { s.Player.Fence(); wg.Done() }(s)
		}
	}
	wg.Wait()
}

// Arrivals lists all packets other than pings, in order of arrival.
func (p *Pool) Arrivals() []Arrival {
	var out []Arrival
	for _, s := range p.Stubs() {
		for _, k := range s.Packets() {
			out = append(out, Arrival{s, k})
		}
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j].At.Before(out[j-1].At); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// Server is a running REPL server process.
type Server struct {
	Env    Env
	Port   int
	cmd    *exec.Cmd
	Stderr *bytes.Buffer
	done   chan struct{}
	err    error
	term   *Term // the client in the same process
}

// StartServer runs `alda repl --server`.
func StartServer(bin string, env Env, r *rand.Rand) (*Server, error) {
	var last error
	for try := 0; try < 4; try++ {
		l, err := oscx.Listen()
		if err != nil {
			return nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		s := &Server{Env: env, Port: port, Stderr: &bytes.Buffer{}, done: make(chan struct{})}
		args := []string{"repl", "--server", "--port", fmt.Sprint(port)}
		if os.Getenv("VERIF_REPL_LOG") != "" {
			args = append(args, "-v", "2")
		}
		s.cmd = exec.Command(bin, args...)
		s.cmd.Dir = filepath.Join(env.Dir, "work")
		s.cmd.Env = append(env.Vars(), "GORACE=exitcode=66 halt_on_error=0")
		s.cmd.Stderr = s.Stderr
		s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		if err := s.cmd.Start(); err != nil {
			return nil, err
		}
		go func() { s.err = s.cmd.Wait(); close(s.done) }()
		end := time.Now().Add(30 * time.Second)
		for time.Now().Before(end) && s.Alive() {
			c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
			if err == nil {
				c.Close()
				if s.Alive() {
					return s, nil
				}
			}
			time.Sleep(10 * time.Millisecond)
		}
		s.Kill()
		last = fmt.Errorf("the server did not start: %s", s.Stderr.String())
	}
	return nil, last
}

// Alive says whether the process still runs.
func (s *Server) Alive() bool {
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

// Kill ends it at once.
func (s *Server) Kill() { s.cmd.Process.Kill(); <-s.done }

// Stop asks it to end, and returns what it wrote to standard error.
func (s *Server) Stop() (stderr string, clean bool) {
	if s.term != nil {
		s.term.CloseInput()
		return s.term.All(), s.term.Wait(20*time.Second) == 0
	}
	if s.Alive() {
		s.cmd.Process.Signal(os.Interrupt)
		select {
		case <-s.done:
			clean = true
		case <-time.After(20 * time.Second):
			s.Kill()
		}
	}
	return s.Stderr.String(), clean
}

// Pid of the process.
func (s *Server) Pid() int { return s.cmd.Process.Pid }

// Conn is a client connection.
type Conn struct {
	net.Conn
	r *bufio.Reader
	n int
}

// Dial connects to the server.
func (s *Server) Dial() (*Conn, error) {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 10*time.Second)
	if err != nil {
		return nil, err
	}
	return &Conn{Conn: c, r: bufio.NewReader(c)}, nil
}

// Recv reads one reply.
func (c *Conn) Recv(d time.Duration) (map[string]interface{}, error) {
	c.SetReadDeadline(time.Now().Add(d))
	v, err := Decode(c.r)
	if err != nil {
		return nil, err
	}
	m, ok := v.(map[string]interface{})
	if !ok {
		return nil, fmt.Errorf("a reply that is a %T", v)
	}
	return m, nil
}

// Quiet says whether nothing (more) arrives for a while.
func (c *Conn) Quiet(d time.Duration) bool {
	c.SetReadDeadline(time.Now().Add(d))
	_, err := c.r.ReadByte()
	if err == nil {
		c.r.UnreadByte()
		return false
	}
	ne, ok := err.(net.Error)
	return ok && ne.Timeout() || err == io.EOF
}

// Status sums up a reply.
func Status(m map[string]interface{}) (done, failed bool, problems []string) {
	l, _ := m["status"].([]interface{})
	for _, s := range l {
		done = done || s == "done"
		failed = failed || s == "error"
	}
	ps, _ := m["problems"].([]interface{})
	for _, p := range ps {
		problems = append(problems, fmt.Sprint(p))
	}
	return
}

// Ask sends a request and waits for its reply.
func (c *Conn) Ask(req map[string]interface{}, d time.Duration) (map[string]interface{}, error) {
	c.n++
	id := fmt.Sprintf("req-%d", c.n)
	q := map[string]interface{}{"id": id}
	for k, v := range req {
		q[k] = v
	}
	if _, err := io.WriteString(c.Conn, Encode(q)); err != nil {
		return nil, err
	}
	m, err := c.Recv(d)
	if err != nil {
		return nil, err
	}
	if m["id"] != q["id"] {
		return m, fmt.Errorf("reply with id %v to request %v", m["id"], q["id"])
	}
	if done, _, _ := Status(m); !done {
		return m, fmt.Errorf("reply without the status done: %v", m["status"])
	}
	return m, nil
}
