// Package oscx decodes OSC packets and stands in for a player process. It is
// written against the OSC 1.0 specification, not against the library alda uses.
package oscx

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Msg is an OSC message.
type Msg struct {
	Addr string
	Args []interface{} // int32, float32, string, []byte
}

func (m Msg) String() string { return fmt.Sprint(m.Addr, m.Args) }

// I is the i-th argument, which has to be an int32.
func (m Msg) I(i int) int32 {
	if i < len(m.Args) {
		if v, ok := m.Args[i].(int32); ok {
			return v
		}
	}
	return math.MinInt32
}

// Types is the type tag string.
func (m Msg) Types() string {
	s := ""
	for _, a := range m.Args {
		switch a.(type) {
		case int32:
			s += "i"
		case float32:
			s += "f"
		case string:
			s += "s"
		default:
			s += "?"
		}
	}
	return s
}

func str(b []byte) (string, []byte, error) {
	for i, c := range b {
		if c == 0 {
			end := i + 4 - i%4
			if end > len(b) {
				return "", nil, fmt.Errorf("string padding past the end of the packet")
			}
			for _, z := range b[i:end] {
				if z != 0 {
					return "", nil, fmt.Errorf("string padding is not zero")
				}
			}
			return string(b[:i]), b[end:], nil
		}
	}
	return "", nil, fmt.Errorf("unterminated string")
}

// Decode decodes a packet: a message, or a (nested) bundle.
func Decode(b []byte) (msgs []Msg, bundle bool, err error) {
	if len(b)%4 != 0 {
		return nil, false, fmt.Errorf("packet size %d is not a multiple of 4", len(b))
	}
	if len(b) >= 8 && string(b[:8]) == "#bundle\x00" {
		if len(b) < 16 {
			return nil, true, fmt.Errorf("truncated bundle")
		}
		b = b[16:]
		for len(b) > 0 {
			if len(b) < 4 {
				return msgs, true, fmt.Errorf("truncated bundle element")
			}
			n := int(int32(binary.BigEndian.Uint32(b)))
			b = b[4:]
			if n < 0 || n > len(b) {
				return msgs, true, fmt.Errorf("bundle element of %d bytes, %d left", n, len(b))
			}
			in, _, err := Decode(b[:n])
			if err != nil {
				return msgs, true, err
			}
			msgs = append(msgs, in...)
			b = b[n:]
		}
		return msgs, true, nil
	}
	m := Msg{}
	if m.Addr, b, err = str(b); err != nil {
		return nil, false, err
	}
	if !strings.HasPrefix(m.Addr, "/") {
		return nil, false, fmt.Errorf("bad address %q", m.Addr)
	}
	tags := ","
	if len(b) > 0 {
		if tags, b, err = str(b); err != nil {
			return nil, false, err
		}
	}
	if !strings.HasPrefix(tags, ",") {
		return nil, false, fmt.Errorf("bad type tags %q", tags)
	}
	for _, t := range tags[1:] {
		switch t {
		case 'i', 'f':
			if len(b) < 4 {
				return nil, false, fmt.Errorf("truncated argument")
			}
			v := binary.BigEndian.Uint32(b)
			b = b[4:]
			if t == 'i' {
				m.Args = append(m.Args, int32(v))
			} else {
				m.Args = append(m.Args, math.Float32frombits(v))
			}
		case 's':
			var s string
			if s, b, err = str(b); err != nil {
				return nil, false, err
			}
			m.Args = append(m.Args, s)
		default:
			return nil, false, fmt.Errorf("argument of type %c", t)
		}
	}
	if len(b) != 0 {
		return nil, false, fmt.Errorf("%d bytes left after a message", len(b))
	}
	return []Msg{m}, false, nil
}

// Packet is what arrived in one connection.
type Packet struct {
	At     time.Time
	Raw    []byte
	Msgs   []Msg
	Bundle bool
	Err    error
}

// Player is a stand-in for a player process: it listens on a TCP port and
// records the packets it gets.
type Player struct {
	l    net.Listener
	Port int
	mu   sync.Mutex
	got  []Packet
	wake chan struct{}
	// OnPacket, when set, is called for every packet, in order of arrival.
	OnPacket func(Packet)
}

// NewPlayer starts a player on a free port (or the given one, if not 0).
func NewPlayer(port int) (*Player, error) {
	var l net.Listener
	var err error
	if port == 0 {
		l, err = Listen()
	} else {
		l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	}
	if err != nil {
		return nil, err
	}
	p := &Player{l: l, Port: l.Addr().(*net.TCPAddr).Port, wake: make(chan struct{}, 1)}
	go p.serve()
	return p, nil
}

var nextPort = time.Now().UnixNano() % 550

// Listen listens on a port that hasn't been used for a long time and that the
// system doesn't hand out, so that nothing that was meant for a player that has
// died reaches another one.
func Listen() (net.Listener, error) {
	var err error
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD")) // each worker has its own ports
	for i := 0; i < 200; i++ {
		var l net.Listener
		port := 10000 + int64(shard%40)*550 + atomic.AddInt64(&nextPort, 1)%550
		if l, err = net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port)); err == nil {
			return l, nil
		}
	}
	return nil, err
}

func (p *Player) serve() {
	for {
		c, err := p.l.Accept()
		if err != nil {
			return
		}
		// Like the real player, one connection at a time.
		c.SetReadDeadline(time.Now().Add(20 * time.Second))
		raw, err := io.ReadAll(c)
		c.Close()
		k := Packet{At: time.Now(), Raw: raw, Err: err}
		if len(raw) == 0 || string(raw) == fence {
			continue // a port check
		}
		if err == nil {
			k.Msgs, k.Bundle, k.Err = Decode(raw)
		}
		p.mu.Lock()
		p.got = append(p.got, k)
		p.mu.Unlock()
		if p.OnPacket != nil {
			p.OnPacket(k)
		}
		select {
		case p.wake <- struct{}{}:
		default:
		}
	}
}

const fence = "fence"

// Fence waits until the player has dealt with everything that was sent to it
// before: connections are taken one at a time and in order.
func (p *Player) Fence() {
	c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", p.Port), 10*time.Second)
	if err != nil {
		return // it is gone
	}
	defer c.Close()
	c.SetDeadline(time.Now().Add(30 * time.Second))
	io.WriteString(c, fence)
	c.(*net.TCPConn).CloseWrite()
	io.ReadAll(c)
}

// Packets returns what arrived so far, other than pings.
func (p *Player) Packets() []Packet {
	p.mu.Lock()
	defer p.mu.Unlock()
	out := []Packet{}
	for _, k := range p.got {
		if len(k.Msgs) == 1 && k.Msgs[0].Addr == "/ping" {
			continue
		}
		out = append(out, k)
	}
	return out
}

// Pings counts the pings.
func (p *Player) Pings() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	n := 0
	for _, k := range p.got {
		if len(k.Msgs) == 1 && k.Msgs[0].Addr == "/ping" {
			n++
		}
	}
	return n
}

// Wait waits until n packets (other than pings) arrived.
func (p *Player) Wait(n int, d time.Duration) []Packet {
	end := time.After(d)
	for {
		if k := p.Packets(); len(k) >= n {
			return k
		}
		select {
		case <-p.wake:
		case <-time.After(5 * time.Millisecond):
		case <-end:
			return p.Packets()
		}
	}
}

// Close stops listening.
func (p *Player) Close() { p.l.Close() }
