package checks

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/fw"
	"verif/replx"
)

// C22: many clients at once.

// c22Op is a kind of request: what to send, and which fields a reply without
// and with an error may have besides status, id and session.
type c22Op struct {
	op   string
	good []string
	code func(r *rand.Rand, tag string) map[string]interface{}
	// fails: the request always fails; works: it always succeeds.
	fails, works bool
	player       bool // needs a player
}

func c22Ops() []c22Op {
	f := func(m map[string]interface{}) func(*rand.Rand, string) map[string]interface{} {
		return func(*rand.Rand, string) map[string]interface{} { return m }
	}
	type o = map[string]interface{}
	return []c22Op{
		{op: "describe", good: []string{"versions", "ops"}, code: f(o{}), works: true},
		{op: "clone", good: []string{"new-session"}, code: f(o{}), works: true},
		{op: "eval", good: []string{"value"}, code: f(o{"code": "piano: c"}), works: true},
		{op: "instruments", good: []string{"instruments"}, code: f(o{}), works: true},
		{op: "score-text", good: []string{"text"}, code: f(o{}), works: true},
		{op: "score-data", good: []string{"data"}, code: f(o{}), works: true},
		{op: "score-ast", good: []string{"ast"}, code: f(o{}), works: true},
		{op: "score-events", good: []string{"events"}, code: f(o{}), works: true},
		{op: "nonsense", code: f(o{}), fails: true},
		{op: "", code: f(o{"code": "piano: c"}), fails: true},
		{op: "eval-and-play", code: f(o{}), fails: true},
		{op: "eval-and-play", code: f(o{"code": []interface{}{"piano: c"}}), fails: true},
		{op: "load", code: f(o{"code": int64(3)}), fails: true},
		{op: "eval-and-play", code: f(o{"code": "piano: c ]"}), fails: true, player: true},
		{op: "eval-and-play", code: f(o{"code": "piano: (nonsense) c"}), fails: true, player: true},
		{op: "stop", code: f(o{}), player: true},
		{op: "replay", code: f(o{"from": "nowhere"}), fails: true},
	}
}

type c22Req struct {
	kind  c22Op
	msg   map[string]interface{}
	piece string // the line it adds to the score
	sent  time.Time
	done  time.Time
	ok    bool
	text  string
}

func c22ID(r *rand.Rand, client, n int) interface{} {
	s := fmt.Sprintf("c%d-%d", client, n)
	switch r.Intn(8) {
	case 0:
		return int64(client*1000 + n)
	case 1:
		return []interface{}{s, int64(-n), []interface{}{}}
	case 2:
		return map[string]interface{}{"client": int64(client), "n": s}
	case 3:
		return s + " \x00\xff é"
	default:
		return s
	}
}

// c22Client sends its requests in bursts, cut anywhere, and reads the replies.
func c22Client(c *fw.Ctx, srv *replx.Server, r *rand.Rand, me int, n int, eval bool, report func(string, ...interface{}), count func(string, int)) []*c22Req {
	conn, err := srv.Dial()
	if err != nil {
		report("client %d: %v", me, err)
		return nil
	}
	defer conn.Close()
	ops := c22Ops()
	var reqs []*c22Req
	for i := 0; i < n; i++ {
		q := &c22Req{}
		if eval && r.Intn(3) == 0 {
			q.piece = fmt.Sprintf("piano: c # %d.%d", me, i)
			q.kind = c22Op{op: "eval-and-play", player: true}
			q.msg = map[string]interface{}{"code": q.piece}
			if r.Intn(3) == 0 {
				q.msg["code"] = "\n  " + q.piece + "\n\n"
			}
		} else {
			q.kind = ops[r.Intn(len(ops))]
			q.msg = map[string]interface{}{}
			for k, v := range q.kind.code(r, "") {
				q.msg[k] = v
			}
		}
		q.msg["op"] = q.kind.op
		if q.kind.fails && r.Intn(8) == 0 {
			delete(q.msg, "op")
		}
		if r.Intn(12) > 0 {
			q.msg["id"] = c22ID(r, me, i)
		}
		if r.Intn(3) == 0 {
			q.msg["session"] = fmt.Sprintf("session of %d", me)
		}
		if r.Intn(6) == 0 {
			q.msg["extra"] = []interface{}{map[string]interface{}{"x": strings.Repeat("y", r.Intn(9000))}}
		}
		reqs = append(reqs, q)
	}
	sent := make(chan *c22Req, n)
	go func() {
		defer close(sent)
		for i := 0; i < len(reqs); {
			burst := 1 + r.Intn(6)
			if burst > len(reqs)-i {
				burst = len(reqs) - i
			}
			b := ""
			for _, q := range reqs[i : i+burst] {
				b += replx.Encode(q.msg)
				q.sent = time.Now()
				sent <- q
			}
			i += burst
			for len(b) > 0 {
				k := len(b)
				if r.Intn(2) == 0 {
					k = 1 + r.Intn(len(b))
					if r.Intn(3) == 0 && k > 20 {
						k = 1 + r.Intn(20)
					}
				}
				if _, err := io.WriteString(conn, b[:k]); err != nil {
					report("client %d: writing a request: %v", me, err)
					return
				}
				b = b[k:]
				if len(b) > 0 {
					count("messages cut", 1)
					time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				}
			}
			if r.Intn(3) == 0 {
				time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
			}
		}
	}()
	for q := range sent {
		m, err := conn.Recv(replyTimeout)
		if err != nil {
			report("client %d: request %v is not answered: %v", me, q.msg, err)
			return reqs
		}
		q.done = time.Now()
		if problem := c22Reply(q, m); problem != "" {
			report("client %d: %s\nrequest: %.500v\nreply: %.1500v", me, problem, q.msg, m)
			return reqs
		}
		count("replies checked", 1)
	}
	if !conn.Quiet(30 * time.Millisecond) {
		m, err := conn.Recv(time.Second)
		report("client %d: more replies than requests: %.500v %v", me, m, err)
	}
	return reqs
}

func c22Reply(q *c22Req, m map[string]interface{}) string {
	for _, k := range []string{"id", "session"} {
		x, in := q.msg[k]
		y, out := m[k]
		if in != out || in && replx.Encode(x) != replx.Encode(y) {
			return fmt.Sprintf("the %s of the reply is %#v, that of the request %#v", k, m[k], q.msg[k])
		}
	}
	done, failed, problems := replx.Status(m)
	if !done {
		return "the status is not final"
	}
	if failed && q.kind.works {
		return fmt.Sprintf("the request failed: %v", problems)
	}
	if !failed && q.kind.fails {
		return "a request that cannot work succeeded"
	}
	may := map[string]bool{"status": true, "id": true, "session": true}
	if failed {
		may["problems"] = true
	} else {
		for _, k := range q.kind.good {
			may[k] = true
			if _, ok := m[k]; !ok {
				return "the reply lacks " + k
			}
		}
	}
	for k := range m {
		if !may[k] {
			return fmt.Sprintf("the reply has a field %q that belongs to another request", k)
		}
	}
	q.ok = !failed
	if q.kind.op == "score-text" && q.ok {
		q.text, _ = m["text"].(string)
	}
	return ""
}

// hostile is a client that does not behave.
func hostile(srv *replx.Server, r *rand.Rand, kind int, stop chan struct{}) string {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", srv.Port), 5*time.Second)
	if err != nil {
		return fmt.Sprintf("a new client cannot connect: %v", err)
	}
	defer c.Close()
	send := func(s string) { c.SetWriteDeadline(time.Now().Add(3 * time.Second)); io.WriteString(c, s) }
	valid := replx.Encode(map[string]interface{}{"op": "describe", "id": "hostile"})
	switch kind {
	case 0: // garbage
		b := make([]byte, 1+r.Intn(300))
		r.Read(b)
		send(string(b))
	case 1: // almost a message
		send([]string{"d", "d2:op", "d2:op8:describe", "i5", "l", "99999999999:x", "-5:abc", "9223372036854775807:", "d2:opi1.5e2:idi1e4ee", "d2:op8:describe2:idi123456789012345678901234567890ee", "di5e3:abce", "d2:op8:describe2:op4:stope", "0", "00005:abcde", "i--5e", "i e", ":", "e", "d3:ope", "\n\n", "d2:op8:describe2:id1073741824:"}[r.Intn(21)])
	case 2: // things that are not requests
		send([]string{"i5e", "le", "3:abc", "li1ei2ee", "de", "d2:opi5ee", "d2:ople2:id1:xe", "d2:opde2:idlee", "d2:op13:eval-and-play4:codedee", "d0:0:e"}[r.Intn(10)])
		if r.Intn(2) == 0 {
			send(valid)
		}
	case 3: // deep
		n := []int{900, 5000, 3000000}[r.Intn(3)]
		send("d2:op8:describe2:id" + strings.Repeat("l", n) + strings.Repeat("e", n) + "e")
	case 4: // leaves in the middle of a message
		send(valid + valid[:r.Intn(len(valid))])
	case 5: // leaves without reading
		send(strings.Repeat(replx.Encode(map[string]interface{}{"op": "instruments"}), 1+r.Intn(5)))
		if r.Intn(2) == 0 {
			c.(*net.TCPConn).SetLinger(0)
		}
	case 6: // stays without reading
		c.(*net.TCPConn).SetReadBuffer(4096)
		req := replx.Encode(map[string]interface{}{"op": "instruments", "id": strings.Repeat("z", 30000)})
		for i := 0; i < 300; i++ {
			c.SetWriteDeadline(time.Now().Add(200 * time.Millisecond))
			if _, err := io.WriteString(c, req); err != nil {
				break
			}
		}
		<-stop
	case 7: // says nothing
		<-stop
	case 8: // stops sending, and still wants its reply
		send(valid)
		c.(*net.TCPConn).CloseWrite()
		k := make([]byte, 1)
		c.SetReadDeadline(time.Now().Add(replyTimeout))
		if _, err := c.Read(k); err != nil || k[0] != 'd' {
			return fmt.Sprintf("a client that has finished sending does not get its reply: %v", err)
		}
	}
	return ""
}

// c22Linear checks the texts that were seen against the pieces that were
// accepted: there has to be one order of the pieces in which each request took
// effect between its start and its reply.
func c22Linear(all [][]*c22Req, final string) string {
	pos := map[string]int{}
	lines := []string{}
	for _, l := range strings.Split(strings.TrimSuffix(final, "\n"), "\n") {
		if l == "" {
			continue
		}
		if _, dup := pos[l]; dup {
			return "the score has a piece twice: " + l
		}
		pos[l] = len(lines)
		lines = append(lines, l)
	}
	type at struct {
		q *c22Req
		p int // number of pieces that had been accepted just after it
	}
	var seq []at
	seen := map[string]bool{}
	for _, reqs := range all {
		for _, q := range reqs {
			switch {
			case q.piece != "":
				p, in := pos[q.piece]
				if q.ok && !in {
					return fmt.Sprintf("%q was accepted and is not part of the score", q.piece)
				}
				if !q.ok && in && !q.done.IsZero() {
					return fmt.Sprintf("%q failed and is part of the score", q.piece)
				}
				if in {
					seen[q.piece] = true
					seq = append(seq, at{q, p + 1})
				}
			case q.kind.op == "score-text" && q.ok:
				if !strings.HasPrefix(final, q.text) {
					return fmt.Sprintf("a text that the score never had:\n%s\nin the end:\n%s", q.text, final)
				}
				seq = append(seq, at{q, strings.Count(q.text, "\n")})
			}
		}
	}
	for l := range pos {
		if !seen[l] {
			return fmt.Sprintf("the score has a piece nobody sent: %q", l)
		}
	}
	// Real time: what was answered before another request was sent may not
	// have a later place.
	sort.Slice(seq, func(i, j int) bool { return seq[i].q.done.Before(seq[j].q.done) })
	for j := range seq {
		for i := range seq {
			if seq[i].q.done.Before(seq[j].q.sent) && !seq[i].q.done.IsZero() {
				if seq[i].p > seq[j].p || seq[i].p == seq[j].p && seq[j].q.piece != "" {
					return fmt.Sprintf("%v was answered before %v was sent, and the latter does not know about it", seq[i].q.msg, seq[j].q.msg)
				}
			}
		}
	}
	return ""
}

func c22Case(c *fw.Ctx, i int) {
	env := replx.Env{Dir: filepath.Join(fw.Scratch(), fmt.Sprintf("many-%d", c.R.Int63()))}
	env.Setup()
	defer os.RemoveAll(env.Dir)
	pool := &replx.Pool{Env: env, R: rand.New(rand.NewSource(c.R.Int63())), Keep: 2}
	pool.Start()
	defer pool.Close()
	bin := "alda-race"
	if i%3 == 2 {
		bin = "alda"
	}
	srv, err := replx.StartServer(filepath.Join(fw.Root(), ".build", "bin", bin), env, c.R)
	if err != nil {
		c.Fail("", "%v", err)
		return
	}
	c.Eval()
	var mu sync.Mutex
	problems := []string{}
	report := func(f string, a ...interface{}) {
		mu.Lock()
		problems = append(problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	count := func(k string, n int) { mu.Lock(); c.Count(k, n); mu.Unlock() }
	clients := 2 + c.R.Intn(6)
	n := 10 + c.R.Intn(30)
	var wg, bad sync.WaitGroup
	stop := make(chan struct{})
	all := make([][]*c22Req, clients)
	for k := 0; k < clients; k++ {
		r := rand.New(rand.NewSource(c.R.Int63()))
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			all[k] = c22Client(c, srv, r, k, n, true, report, count)
		}(k)
	}
	kinds := []string{}
	hs := c.R.Intn(8)
	slow := 0
	for k := 0; k < hs; k++ {
		kind := c.R.Intn(9)
		if kind == 6 {
			if slow++; slow > 1 {
				kind = 0
			}
		}
		kinds = append(kinds, fmt.Sprint(kind))
		r := rand.New(rand.NewSource(c.R.Int63()))
		bad.Add(1)
		delay := time.Duration(c.R.Intn(150)) * time.Millisecond
		go func() {
			defer bad.Done()
			time.Sleep(delay)
			if p := hostile(srv, r, kind, stop); p != "" {
				report("%s", p)
			}
			count("hostile clients", 1)
		}()
	}
	if i%2 == 0 {
		// Its player dies in the middle.
		r := rand.New(rand.NewSource(c.R.Int63()))
		bad.Add(1)
		go func() {
			defer bad.Done()
			time.Sleep(time.Duration(r.Intn(300)) * time.Millisecond)
			for _, s := range pool.Live() {
				if s.State() == "active" {
					s.Die(r.Intn(2) == 0)
					count("players lost", 1)
				}
			}
			pool.Start()
		}()
	}
	wg.Wait()
	what := fmt.Sprintf("%d clients with %d requests each, hostile clients: %s", clients, n, strings.Join(kinds, " "))
	// The server is still there for others.
	final := ""
	if conn, err := srv.Dial(); err != nil {
		report("after that, a new client cannot connect: %v", err)
	} else {
		m, err := conn.Ask(map[string]interface{}{"op": "score-text"}, replyTimeout)
		if err != nil {
			report("after that, a new client gets no reply: %v", err)
		} else if len(problems) == 0 {
			final, _ = m["text"].(string)
			if p := c22Linear(all, final); p != "" {
				report("%s", p)
			} else {
				count("orders of pieces checked", 1)
				count("pieces accepted", strings.Count(final, "\n"))
			}
		}
		conn.Close()
	}
	close(stop)
	bad.Wait()
	alive := srv.Alive()
	errs, _ := srv.Stop()
	if !alive {
		report("the server process ended")
	}
	if k := strings.Index(errs, "WARNING: DATA RACE"); k >= 0 {
		e := errs[k:]
		if len(e) > 3000 {
			e = e[:3000]
		}
		report("data race in the server:\n%s", e)
	} else if strings.Contains(errs, "panic:") || strings.Contains(errs, "fatal error:") {
		report("the server crashed:\n%.3000s", errs)
	}
	if bin == "alda-race" {
		c.Count("servers watched by the race detector", 1)
	}
	if len(problems) > 0 {
		c.Fail(what, "%s", problems[0])
		return
	}
	c.Nontrivial(what + final)
	if i < 3 {
		c.Sample(what + "\n" + final)
	}
}

func init() {
	fw.Register(&fw.Check{
		ID: "C22", Quick: 90, Thorough: 3000, MinNontrivialPct: 80, Workers: 12, CaseWall: 400 * time.Second,
		Rule: "a REPL server process (two thirds built with the race detector) is used by 2-7 clients at once, each sending 10-40 requests of every kind in bursts, cut at random bytes, with ids of every type, while up to 7 more clients send garbage, half messages, huge or deep ones, leave in the middle, never read or never write, and the player dies. Each reply is matched with its request: one each, in order, with its id and session, a final status and only its own kind of fields. The texts of the score that the clients saw and the pieces accepted have to be explained by one order of effects (linearizability of an append-only log). The race detector, crashes and a last client decide about the server.",
		Need: []string{"replies checked", "messages cut", "hostile clients", "orders of pieces checked", "pieces accepted", "servers watched by the race detector", "players lost"},
		Case: c22Case,
	})
}
