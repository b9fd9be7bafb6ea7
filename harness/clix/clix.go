// Package clix runs alda commands in an isolated environment: their own home,
// caches and configuration, a stand-in for the alda-player executable, and a
// proxy that answers for the hosts they contact.
package clix

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"

	"alda.io/client/generated"

	"verif/fw"
	"verif/replx"
)

// Env is an environment.
type Env struct {
	replx.Env
	Spawn bool     // let alda start players (of the stand-in kind)
	Extra []string // additional environment variables
	Drop  []string // environment variables not to set
	Wrap  []string // what to run commands with
}

// New makes one in a new directory.
func New() *Env {
	dir, err := os.MkdirTemp(fw.Scratch(), "cli")
	if err != nil {
		panic(err)
	}
	e := &Env{Env: replx.Env{Dir: dir}}
	e.Setup()
	os.MkdirAll(filepath.Join(dir, "bin"), 0o755)
	os.MkdirAll(filepath.Join(dir, "config"), 0o755)
	script := fmt.Sprintf("#!/bin/sh\nif [ \"$1\" = info ]; then echo 'alda-player %s'; else echo \"$@\" >> %s; fi\n", generated.ClientVersion, e.SpawnLog())
	os.WriteFile(e.Player(), []byte(script), 0o755)
	return e
}

// Player is the stand-in for the alda-player executable.
func (e *Env) Player() string { return filepath.Join(e.Dir, "bin", "alda-player") }

// SpawnLog is where the stand-in notes that it was started.
func (e *Env) SpawnLog() string { return filepath.Join(e.Dir, "spawned") }

// Spawned counts the players started.
func (e *Env) Spawned() int {
	b, _ := os.ReadFile(e.SpawnLog())
	return strings.Count(string(b), "run")
}

// Close removes it.
func (e *Env) Close() { os.RemoveAll(e.Dir) }

// Vars are the environment variables.
func (e *Env) Vars() []string {
	var out []string
	set := append(e.Env.Vars(), "TERM=dumb")
next:
	for _, v := range set {
		if strings.HasPrefix(v, "PATH=") {
			v = "PATH=" + filepath.Join(e.Dir, "bin") + ":/usr/bin:/bin"
		}
		if e.Spawn && strings.HasPrefix(v, "ALDA_DISABLE_SPAWNING=") {
			continue
		}
		for _, d := range e.Drop {
			if strings.HasPrefix(v, d+"=") {
				continue next
			}
		}
		out = append(out, v)
	}
	return append(out, e.Extra...)
}

// Path is a path in the directory that the commands run in.
func (e *Env) Path(parts ...string) string {
	return filepath.Join(append([]string{e.Dir, "work"}, parts...)...)
}

// Cmd is a command to run.
type Cmd struct {
	Args    []string
	Stdin   []byte
	NoStdin bool     // /dev/null, which alda takes for no input
	Stdout  *os.File // where standard output goes instead
	Bin     string
	Limit   time.Duration
	Prefix  []string // a command that runs the command
	KillAt  time.Duration
	Env     []string
	Fault   *Fault
}

// Fault is something that the operating system does to a command: the When-th
// of the system calls fails with an error, or the command is killed there.
type Fault struct {
	Calls string // strace's idea of a set of system calls
	Error string // or else it is killed
	When  int
	Log   string // what was traced, afterwards
	Hit   bool   // whether there was such a call
	// Runtime is whether the call was one by which the Go runtime wakes up a
	// thread of its own. It doesn't expect that to fail, and no program can do
	// anything about it.
	Runtime bool
}

// A write to an eventfd, possibly one that another thread's call interrupts in
// the log.
var wakeUp = regexp.MustCompile(`write\(\d+, "\\1\\0\\0\\0\\0\\0\\0\\0", 8(\)\s+= .*INJECTED| <unfinished)`)

func (f *Fault) String() string {
	if f == nil {
		return "-"
	}
	what := "killed"
	if f.Error != "" {
		what = f.Error
	}
	return fmt.Sprintf("%s at call %d of %s (hit %v)\n%s", what, f.When, f.Calls, f.Hit, clip(f.Log))
}

// Changing are the system calls that change which files there are or what is in
// them, apart from write.
const Changing = "rename,renameat,renameat2,link,linkat,symlinkat,unlink,unlinkat,chmod,fchmod,fchmodat,fsync,fdatasync,ftruncate,truncate,mkdir,mkdirat,rmdir,copy_file_range,sendfile,splice"

// Result is what happened.
type Result struct {
	Args     []string
	Exit     int
	Signal   string
	TimedOut bool
	Out, Err string
	Took     time.Duration
}

func (r *Result) String() string {
	return fmt.Sprintf("alda %q: exit %d %s (%v)\nstdout: %s\nstderr: %s", r.Args, r.Exit, r.Signal, r.Took.Round(time.Millisecond), clip(r.Out), clip(r.Err))
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:700] + "\n…\n" + s[len(s)-700:]
	}
	return s
}

// Crashed says whether it ended in a way no command should.
func (r *Result) Crashed() string {
	switch {
	case r.TimedOut:
		return "does not end"
	case r.Signal != "":
		return "is ended by " + r.Signal
	case strings.Contains(r.Err, "panic: ") || strings.Contains(r.Err, "goroutine 1 ["):
		return "crashes"
	case strings.Contains(r.Err, "DATA RACE"):
		return "has a data race"
	case r.Exit != 0 && r.Exit != 1:
		return fmt.Sprintf("exits with status %d", r.Exit)
	}
	return ""
}

// Bin is the alda executable built for the checks.
func Bin() string { return filepath.Join(fw.Root(), ".build", "bin", "alda") }

// Run runs a command.
func (e *Env) Run(c Cmd) *Result {
	bin := c.Bin
	if bin == "" {
		bin = Bin()
	}
	argv := append(append(append(append([]string{}, e.Wrap...), c.Prefix...), bin), c.Args...)
	logfile := ""
	if f := c.Fault; f != nil {
		logfile = filepath.Join(e.Dir, "strace.out")
		os.Remove(logfile)
		action := "error=" + f.Error
		if f.Error == "" {
			action = "signal=KILL"
		}
		argv = append([]string{"/usr/bin/strace", "-f", "-qq", "-o", logfile, "-e", "trace=" + f.Calls, "-e", "signal=none",
			"-e", fmt.Sprintf("inject=%s:%s:when=%d", f.Calls, action, f.When)}, argv...)
	}
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Dir = e.Path()
	cmd.Env = append(e.Vars(), c.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if !c.NoStdin {
		cmd.Stdin = bytes.NewReader(c.Stdin)
	}
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if c.Stdout != nil {
		cmd.Stdout = c.Stdout
	}
	cmd.WaitDelay = 5 * time.Second
	limit := c.Limit
	if limit == 0 {
		limit = 60 * time.Second
	}
	res := &Result{Args: c.Args}
	start := time.Now()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(limit, func() {
		res.TimedOut = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	if c.KillAt > 0 {
		time.AfterFunc(c.KillAt, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	}
	cmd.Wait()
	timer.Stop()
	res.Took = time.Since(start)
	res.Out, res.Err = out.String(), errb.String()
	if c.Fault != nil {
		b, _ := os.ReadFile(logfile)
		c.Fault.Runtime = wakeUp.Match(b) && c.Fault.Error != "" || strings.Contains(res.Err, "netpollBreak write failed")
		c.Fault.Log = string(b)
		c.Fault.Hit = strings.Contains(c.Fault.Log, "(INJECTED)") || (c.Fault.Error == "" && cmd.ProcessState.ExitCode() == -1)
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok {
		if ws.Signaled() {
			res.Signal = ws.Signal().String()
			res.Exit = -1
		} else {
			res.Exit = ws.ExitStatus()
		}
	}
	return res
}
