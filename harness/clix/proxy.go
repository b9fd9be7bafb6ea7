package clix

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sync"
	"time"
)

// Request is a request that a command made.
type Request struct {
	Host, Method, Path string
	Body               []byte
	At                 time.Time
}

// Proxy stands in for the hosts that commands contact: it is their HTTPS
// proxy, and has a certificate for every host that the commands trust.
type Proxy struct {
	l       net.Listener
	mu      sync.Mutex
	got     []Request
	conns   int
	Tunnel  []string // hosts asked for
	certs   map[string]*tls.Certificate
	ca      *x509.Certificate
	caKey   *ecdsa.PrivateKey
	CAFile  string
	Handler func(conn net.Conn, r *http.Request) // writes the response; may do worse
	Refuse  func(conn net.Conn, host string) bool // instead of a tunnel
}

// NewProxy starts one; its certificate goes into the directory.
func NewProxy(dir string) *Proxy {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "verif"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(48 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	ca, _ := x509.ParseCertificate(der)
	p := &Proxy{certs: map[string]*tls.Certificate{}, ca: ca, caKey: key, CAFile: filepath.Join(dir, "ca.pem")}
	os.WriteFile(p.CAFile, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}), 0o644)
	if p.l, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		panic(err)
	}
	go p.serve()
	return p
}

// Vars are the environment variables that make commands use it.
func (p *Proxy) Vars() []string {
	u := "http://" + p.l.Addr().String()
	return []string{"HTTPS_PROXY=" + u, "HTTP_PROXY=" + u, "NO_PROXY=", "SSL_CERT_FILE=" + p.CAFile, "SSL_CERT_DIR=/nonexistent"}
}

// Close stops it.
func (p *Proxy) Close() { p.l.Close() }

// Take returns what happened since the last time.
func (p *Proxy) Take() (got []Request, conns int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	got, conns = p.got, p.conns
	p.got, p.conns = nil, 0
	return
}

func (p *Proxy) cert(host string) *tls.Certificate {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c := p.certs[host]; c != nil {
		return c
	}
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: host}, DNSNames: []string{host},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour), ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, p.ca, &key.PublicKey, p.caKey)
	if err != nil {
		panic(err)
	}
	c := &tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	p.certs[host] = c
	return c
}

func (p *Proxy) serve() {
	for {
		c, err := p.l.Accept()
		if err != nil {
			return
		}
		p.mu.Lock()
		p.conns++
		p.mu.Unlock()
		go p.conn(c)
	}
}

func (p *Proxy) conn(c net.Conn) {
	defer c.Close()
	c.SetDeadline(time.Now().Add(120 * time.Second))
	r, err := http.ReadRequest(bufio.NewReader(c))
	if err != nil {
		return
	}
	host, _, err := net.SplitHostPort(r.Host)
	if err != nil {
		host = r.Host
	}
	p.mu.Lock()
	p.Tunnel = append(p.Tunnel, host)
	p.mu.Unlock()
	if p.Refuse != nil && p.Refuse(c, host) {
		return
	}
	if r.Method != "CONNECT" {
		p.answer(c, host, r)
		return
	}
	io.WriteString(c, "HTTP/1.1 200 OK\r\n\r\n")
	t := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*p.cert(host)}, NextProtos: []string{"http/1.1"}})
	defer t.Close()
	b := bufio.NewReader(t)
	for {
		r, err := http.ReadRequest(b)
		if err != nil {
			return
		}
		if !p.answer(t, host, r) {
			return
		}
	}
}

func (p *Proxy) answer(c net.Conn, host string, r *http.Request) bool {
	body, _ := io.ReadAll(r.Body)
	r.Body = io.NopCloser(bytes.NewReader(body))
	p.mu.Lock()
	p.got = append(p.got, Request{Host: host, Method: r.Method, Path: r.URL.RequestURI(), Body: body, At: time.Now()})
	p.mu.Unlock()
	if p.Handler == nil {
		io.WriteString(c, "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n{}")
		return true
	}
	p.Handler(c, r)
	return false
}
