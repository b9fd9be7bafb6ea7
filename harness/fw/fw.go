// Package fw runs the cases of a check in worker processes, collects what the
// monitors observed, and reports verdicts and evidence.
package fw

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	ID    string
	Level string
	Rule  string
	// Number of cases per tier.
	Quick, Thorough int
	// Case runs case number i. All its random choices come from c.R.
	Case func(c *Ctx, i int)
	// Fixed, if any, lists named cases that run in addition to the numbered ones.
	Fixed []Fixed
	// MinNontrivial fails the run as an error of the check when fewer
	// non-trivial cases were seen (percentage of the evaluations).
	MinNontrivialPct int
	// Need lists counters that must be non-zero at the end of a run.
	Need []string
	// Workers limits the number of worker processes (0: one per CPU).
	Workers int
	// CaseCPU is the CPU time one case may use before it counts as not
	// terminating (0: 60 s).
	CaseCPU time.Duration
	// CaseWall is the wall-clock time after which a case is given up as
	// inconclusive when it uses no CPU (0: 300 s).
	CaseWall time.Duration
	// Assumptions for the evidence.
	Assumptions []string
	// Race: run the workers from the binary built with the race detector.
	Race bool
}

// Fixed is a named case.
type Fixed struct {
	Name string
	Run  func(c *Ctx)
}

// Failure is a violation found.
type Failure struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Message  string `json:"message"`
	Input    string `json:"input,omitempty"`
	Key      string `json:"key,omitempty"` // identifies known findings
}

// Ctx is handed to a case.
type Ctx struct {
	R        *rand.Rand
	Tier     string
	Seed     int64
	Check    *Check
	CaseName string
	w        *worker
	mu       sync.Mutex
	evals    int
	Replay   bool
}

type worker struct {
	mu       sync.Mutex
	Counts   map[string]int64
	Evals    int64
	Distinct map[uint64]bool
	Samples  []interface{}
	Failures []Failure
	Max      map[string]float64
}

// Result is what a worker process reports.
type result struct {
	Counts   map[string]int64
	Evals    int64
	Distinct []uint64
	Samples  []interface{}
	Failures []Failure
	Max      map[string]float64
	Done     bool
}

// Count adds to a counter of observed things.
func (c *Ctx) Count(k string, n int) {
	c.w.mu.Lock()
	c.w.Counts[k] += int64(n)
	c.w.mu.Unlock()
}

// Max records the largest value seen.
func (c *Ctx) Max(k string, v float64) {
	c.w.mu.Lock()
	if v > c.w.Max[k] {
		c.w.Max[k] = v
	}
	c.w.mu.Unlock()
}

// Eval counts one evaluation of the oracle.
func (c *Ctx) Eval() {
	c.w.mu.Lock()
	c.w.Evals++
	c.w.mu.Unlock()
}

// Nontrivial records a distinct non-trivial case by its content.
func (c *Ctx) Nontrivial(content string) {
	h := fnv.New64a()
	h.Write([]byte(content))
	c.w.mu.Lock()
	c.w.Distinct[h.Sum64()] = true
	c.w.mu.Unlock()
}

// Sample keeps a few cases for the evidence.
func (c *Ctx) Sample(v interface{}) {
	c.w.mu.Lock()
	if len(c.w.Samples) < 3 {
		c.w.Samples = append(c.w.Samples, v)
	}
	c.w.mu.Unlock()
}

// Fail reports a violation.
func (c *Ctx) Fail(input, format string, args ...interface{}) { c.FailKey("", input, format, args...) }

// FailKey reports a violation with a key that known findings may name.
func (c *Ctx) FailKey(key, input, format string, args ...interface{}) {
	f := Failure{Property: c.Check.ID, Case: c.CaseName, Seed: c.Seed, Tier: c.Tier,
		Message: fmt.Sprintf(format, args...), Input: input, Key: key}
	c.w.mu.Lock()
	c.w.Failures = append(c.w.Failures, f)
	c.w.mu.Unlock()
}

// Failed says whether this worker has already found violations.
func (c *Ctx) Failed() bool {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	return len(c.w.Failures) > 0
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// Root is /verif.
func Root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

// Scratch is a directory for this run's temporary files.
func Scratch() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = filepath.Join(os.TempDir(), fmt.Sprintf("verif-%d", os.Getpid()))
	}
	os.MkdirAll(d, 0o755)
	return d
}

func seedTier() (int64, string) {
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

func caseRand(seed int64, id, name string) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s", seed, id, name)
	return rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
}

func (k *Check) names(tier string) []string {
	var out []string
	for _, f := range k.Fixed {
		out = append(out, "fixed:"+f.Name)
	}
	n := k.Quick
	if tier == "thorough" {
		n = k.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			n = v
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, strconv.Itoa(i))
	}
	return out
}

func (k *Check) runCase(w *worker, seed int64, tier, name string, replay bool) {
	c := &Ctx{R: caseRand(seed, k.ID, name), Tier: tier, Seed: seed, Check: k, CaseName: name, w: w, Replay: replay}
	defer func() {
		if x := recover(); x != nil {
			c.Fail("", "panic: %v\n%s", x, debug.Stack())
		}
	}()
	if strings.HasPrefix(name, "fixed:") {
		for _, f := range k.Fixed {
			if "fixed:"+f.Name == name {
				f.Run(c)
			}
		}
		return
	}
	i, err := strconv.Atoi(name)
	if err != nil {
		panic(err)
	}
	k.Case(c, i)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Worker runs the cases index%n == shard and prints the result.
func Worker(id string, shard, n, skip int, out string) {
	k := registry[id]
	seed, tier := seedTier()
	names := k.names(tier)
	w := &worker{Counts: map[string]int64{}, Distinct: map[uint64]bool{}, Max: map[string]float64{}}
	debug.SetMaxStack(512 << 20)
	var cur atomic.Value
	cur.Store("")
	var started atomic.Int64
	capCPU := k.CaseCPU
	if capCPU == 0 {
		capCPU = 60 * time.Second
	}
	capWall := k.CaseWall
	if capWall == 0 {
		capWall = 300 * time.Second
	}
	var cpu0 atomic.Int64
	var wall0 atomic.Int64
	dump := func(done bool) {
		w.mu.Lock()
		r := result{Counts: w.Counts, Evals: w.Evals, Samples: w.Samples, Failures: w.Failures, Max: w.Max, Done: done}
		for h := range w.Distinct {
			r.Distinct = append(r.Distinct, h)
		}
		b, err := json.Marshal(r)
		w.mu.Unlock()
		if err != nil {
			panic(err)
		}
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	pf, err := os.Create(out + ".progress")
	if err != nil {
		panic(err)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			name := cur.Load().(string)
			if name == "" {
				continue
			}
			if time.Duration(int64(cpuTime())-cpu0.Load()) > capCPU {
				dump(false)
				fmt.Fprintln(os.Stderr, "VERIF-HANG cpu")
				os.Exit(97)
			}
			if time.Since(time.Unix(0, wall0.Load())) > capWall {
				dump(false)
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				os.Stderr.Write(buf)
				fmt.Fprintln(os.Stderr, "VERIF-HANG wall")
				os.Exit(98)
			}
		}
	}()
	for j, name := range names {
		if j%n != shard || j <= skip {
			continue
		}
		cpu0.Store(int64(cpuTime()))
		wall0.Store(time.Now().UnixNano())
		started.Add(1)
		cur.Store(name)
		pf.WriteAt([]byte(fmt.Sprintf("%-40s\n", name)), 0)
		pf.WriteAt([]byte(fmt.Sprintf("%-12d\n", j)), 41)
		k.runCase(w, seed, tier, name, false)
		cur.Store("")
		w.mu.Lock()
		stop := len(w.Failures) >= 5
		w.mu.Unlock()
		if stop {
			break
		}
	}
	dump(true)
}

// KnownFinding is an entry of known_findings.txt.
type KnownFinding struct{ Property, Key, Text string }

// KnownFindings reads the file: lines "finding: property=<id> key=<key> <text>".
func KnownFindings() []KnownFinding {
	f, err := os.Open(filepath.Join(Root(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []KnownFinding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		p := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(p) < 3 {
			continue
		}
		out = append(out, KnownFinding{strings.TrimPrefix(p[0], "property="), strings.TrimPrefix(p[1], "key="), p[2]})
	}
	return out
}

// Main runs a whole check and exits.
func Main(id string) {
	k := registry[id]
	if k == nil {
		fmt.Fprintln(os.Stderr, "no check for", id)
		os.Exit(3)
	}
	seed, tier := seedTier()
	start := time.Now()
	n := runtime.NumCPU()
	if k.Workers > 0 {
		n = k.Workers
	}
	names := k.names(tier)
	if n > len(names) {
		n = len(names)
	}
	scratch := filepath.Join(os.TempDir(), fmt.Sprintf("verif-%s-%d", id, os.Getpid()))
	if err := os.MkdirAll(scratch, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	exit := func(code int) {
		os.RemoveAll(scratch)
		os.Exit(code)
	}
	exe, _ := os.Executable()
	if k.Race {
		exe = exe + "-race"
	}
	tot := result{Counts: map[string]int64{}, Max: map[string]float64{}}
	distinct := map[uint64]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	var problems []string
	merge := func(r result) {
		mu.Lock()
		defer mu.Unlock()
		for a, b := range r.Counts {
			tot.Counts[a] += b
		}
		for a, b := range r.Max {
			if b > tot.Max[a] {
				tot.Max[a] = b
			}
		}
		tot.Evals += r.Evals
		for _, h := range r.Distinct {
			distinct[h] = true
		}
		if len(tot.Samples) < 6 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.Failures = append(tot.Failures, r.Failures...)
	}
	for s := 0; s < n; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			skip := -1
			for attempt := 0; attempt < 6; attempt++ {
				out := filepath.Join(scratch, fmt.Sprintf("w%d-%d.json", s, attempt))
				cmd := exec.Command(exe, "worker", id, strconv.Itoa(s), strconv.Itoa(n), strconv.Itoa(skip), out)
				cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+filepath.Join(scratch, fmt.Sprintf("s%d", s)), "GOMEMLIMIT=3GiB", fmt.Sprintf("VERIF_SHARD=%d", s))
				if k.Race {
					cmd.Env = append(cmd.Env, "GORACE=halt_on_error=0 exitcode=0 log_path="+out+".race")
				}
				errf, _ := os.Create(out + ".stderr")
				cmd.Stderr = errf
				cmd.Stdout = errf
				cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
				runtime.LockOSThread()
				err := cmd.Run()
				errf.Close()
				var r result
				if b, e := os.ReadFile(out); e == nil {
					json.Unmarshal(b, &r)
				}
				merge(r)
				if races, _ := filepath.Glob(out + ".race*"); len(races) > 0 {
					for _, rf := range races {
						b, _ := os.ReadFile(rf)
						if c := strings.Count(string(b), "WARNING: DATA RACE"); c > 0 {
							mu.Lock()
							tot.Failures = append(tot.Failures, Failure{Property: id, Case: "race", Seed: seed, Tier: tier,
								Message: fmt.Sprintf("%d data race reports", c), Input: head(string(b), 6000)})
							mu.Unlock()
						}
					}
				}
				if err == nil && r.Done {
					return
				}
				// The worker died or hung in a case.
				pb, _ := os.ReadFile(out + ".progress")
				f := strings.Fields(string(pb))
				eb, _ := os.ReadFile(out + ".stderr")
				if len(f) < 2 {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("worker %d did not start: %v %s", s, err, tail(string(eb), 2000)))
					mu.Unlock()
					return
				}
				skip, _ = strconv.Atoi(f[1])
				code := -1
				if cmd.ProcessState != nil {
					code = cmd.ProcessState.ExitCode()
				}
				mu.Lock()
				switch code {
				case 97:
					tot.Failures = append(tot.Failures, Failure{Property: id, Case: f[0], Seed: seed, Tier: tier,
						Message: "the case did not terminate within its CPU budget"})
				case 98:
					tot.Counts["inconclusive"]++
					tot.Failures = append(tot.Failures, Failure{Property: id, Case: f[0], Seed: seed, Tier: tier,
						Message: "the case blocked for ever without using CPU (watchdog): " + tail(string(eb), 4000)})
				default:
					tot.Failures = append(tot.Failures, Failure{Property: id, Case: f[0], Seed: seed, Tier: tier,
						Message: fmt.Sprintf("the process crashed (%v): %s", err, head(string(eb), 3000))})
				}
				mu.Unlock()
			}
		}(s)
	}
	wg.Wait()
	known := KnownFindings()
	var viol []Failure
	seenKnown := map[string]bool{}
	for _, f := range tot.Failures {
		matched := false
		for _, kf := range known {
			if kf.Property == id && f.Key != "" && kf.Key == f.Key {
				matched = true
				if !seenKnown[kf.Key] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, kf.Text)
				}
				seenKnown[kf.Key] = true
			}
		}
		if !matched {
			viol = append(viol, f)
		}
	}
	sort.SliceStable(viol, func(i, j int) bool { return len(viol[i].Input) < len(viol[j].Input) })
	level := k.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":         tot.Evals,
		"distinct_nontrivial": len(distinct),
		"rule":                k.Rule,
		"samples":             tot.Samples,
		"cases":               len(names),
		"observed":            tot.Counts,
	}
	if len(tot.Max) > 0 {
		cov["largest"] = tot.Max
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": level,
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	if len(k.Assumptions) > 0 {
		ev["assumptions"] = k.Assumptions
	}
	os.MkdirAll(filepath.Join(Root(), "evidence", "replay"), 0o755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		exit(3)
	}
	os.WriteFile(filepath.Join(Root(), "evidence", id+".json"), append(b, '\n'), 0o644)
	for i, f := range viol {
		if i >= 5 {
			break
		}
		p := filepath.Join(Root(), "evidence", "replay", fmt.Sprintf("%s-%d.json", id, i))
		fb, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(p, append(fb, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		fmt.Printf("  case %s: %s\n", f.Case, head(f.Message, 1500))
		if f.Input != "" {
			fmt.Printf("  input: %s\n", head(f.Input, 1500))
		}
	}
	if len(viol) > 0 {
		exit(1)
	}
	if len(problems) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(problems, "\n"))
		exit(3)
	}
	for _, need := range k.Need {
		if tot.Counts[need] == 0 {
			fmt.Fprintf(os.Stderr, "the run observed nothing of %q\n", need)
			exit(3)
		}
	}
	if tot.Evals == 0 || len(distinct)*100 < int(tot.Evals)*k.MinNontrivialPct {
		fmt.Fprintf(os.Stderr, "too few non-trivial cases: %d of %d\n", len(distinct), tot.Evals)
		exit(3)
	}
	fmt.Printf("%s held: %d cases, %d evaluations, %d distinct non-trivial, %.1f s\n", id, len(names), tot.Evals, len(distinct), time.Since(start).Seconds())
	defer os.RemoveAll(scratch)
	keys := []string{}
	for a := range tot.Counts {
		keys = append(keys, a)
	}
	sort.Strings(keys)
	for _, a := range keys {
		fmt.Printf("  %s: %d\n", a, tot.Counts[a])
	}
}

// Replay runs the case of a replay file again.
func Replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	k := registry[f.Property]
	w := &worker{Counts: map[string]int64{}, Distinct: map[uint64]bool{}, Max: map[string]float64{}}
	k.runCase(w, f.Seed, f.Tier, f.Case, true)
	for _, x := range w.Failures {
		fmt.Printf("VIOLATION property=%s replay=%s\n%s\n%s\n", f.Property, path, x.Message, x.Input)
	}
	if len(w.Failures) > 0 {
		os.Exit(1)
	}
	fmt.Println("not reproduced")
}

// IDs lists the registered checks.
func IDs() []string {
	var out []string
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return "..." + s[len(s)-n:]
	}
	return s
}
