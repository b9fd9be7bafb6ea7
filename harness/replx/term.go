package replx

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/oscx"
)

// Term is an interactive REPL client (possibly with its server in the same
// process), at the other end of two pipes.
type Term struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	mu   sync.Mutex
	out  bytes.Buffer
	seen int // bytes of out already returned
	n    int
	done chan struct{}
	err  error
}

// Write collects what the process shows.
func (t *Term) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.out.Write(b)
}

// StartTerm runs `alda repl` with some arguments.
func StartTerm(bin string, env Env, args ...string) (*Term, error) {
	t := &Term{done: make(chan struct{})}
	t.cmd = exec.Command(bin, append([]string{"repl"}, args...)...)
	t.cmd.Dir = filepath.Join(env.Dir, "work")
	t.cmd.Env = append(env.Vars(), "GORACE=exitcode=66 halt_on_error=0", "NO_COLOR=1")
	t.cmd.Stdout, t.cmd.Stderr = t, t // the same pipe: in order
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	if t.in, err = t.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	if err := t.cmd.Start(); err != nil {
		return nil, err
	}
	go func() { t.err = t.cmd.Wait(); close(t.done) }()
	return t, nil
}

// Alive says whether the process still runs.
func (t *Term) Alive() bool {
	select {
	case <-t.done:
		return false
	default:
		return true
	}
}

// Send types something, without waiting.
func (t *Term) Send(s string) { io.WriteString(t.in, s) }

// All is everything that was shown.
func (t *Term) All() string { t.mu.Lock(); defer t.mu.Unlock(); return t.out.String() }

// Type types lines, and returns what is shown until the client has dealt with
// all of them: until it has complained about an unknown command typed last.
func (t *Term) Type(lines string, limit time.Duration) (string, error) {
	t.n++
	mark := fmt.Sprintf("zz%dzz", t.n)
	if lines != "" {
		lines += "\n"
	}
	t.Send(lines + ":" + mark + "\n")
	end := time.Now().Add(limit)
	for {
		alive := t.Alive()
		t.mu.Lock()
		s := t.out.String()[t.seen:]
		t.mu.Unlock()
		if i := strings.Index(s, mark); i >= 0 {
			if j := strings.IndexByte(s[i:], '\n'); j >= 0 {
				t.seen += i + j + 1
				before := s[:i]
				return before[:strings.LastIndexByte(before, '\n')+1], nil
			}
		}
		if !alive {
			return s, fmt.Errorf("the client ended")
		}
		if time.Now().After(end) {
			return s, fmt.Errorf("the client does nothing for %v", limit)
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// CloseInput is the end of the input.
func (t *Term) CloseInput() { t.in.Close() }

// Wait waits for the process to end, and returns its exit status (-1 if it had
// to be killed).
func (t *Term) Wait(limit time.Duration) int {
	select {
	case <-t.done:
	case <-time.After(limit):
		t.cmd.Process.Signal(syscall.SIGQUIT)
		select {
		case <-t.done:
		case <-time.After(5 * time.Second):
			t.cmd.Process.Kill()
			<-t.done
		}
		return -1
	}
	return t.cmd.ProcessState.ExitCode()
}

// Kill ends it at once.
func (t *Term) Kill() { t.cmd.Process.Signal(os.Kill); <-t.done }

// StartBoth runs a client and its server in one process.
func StartBoth(bin string, env Env, explicit bool) (*Server, *Term, error) {
	var last error
	for try := 0; try < 4; try++ {
		l, err := oscx.Listen()
		if err != nil {
			return nil, nil, err
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		args := []string{"--port", fmt.Sprint(port)}
		if explicit {
			args = append(args, "--client", "--server")
		}
		t, err := StartTerm(bin, env, args...)
		if err != nil {
			return nil, nil, err
		}
		s := &Server{Env: env, Port: port, Stderr: &bytes.Buffer{}, cmd: t.cmd, done: t.done, term: t}
		if _, err = t.Type("", 60*time.Second); err == nil {
			return s, t, nil
		}
		last = fmt.Errorf("%v: %s", err, t.All())
		t.Kill()
	}
	return nil, nil, last
}
