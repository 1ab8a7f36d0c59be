package main

import (
	"bufio"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"time"
	"verif/harness/mon"
)

type ca struct {
	key *ecdsa.PrivateKey
	tpl *x509.Certificate
	pem []byte
}

func newCA(t *mon.T) *ca {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t.Must(err, "key")
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "CA"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(100 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
	b, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &k.PublicKey, k)
	t.Must(err, "certificate")
	return &ca{k, tpl, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: b})}
}

func (c *ca) cert(t *mon.T, expired bool, names ...string) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t.Must(err, "key")
	tpl := &x509.Certificate{SerialNumber: big.NewInt(2), NotBefore: time.Now().Add(-2 * time.Hour), NotAfter: time.Now().Add(100 * time.Hour)}
	if expired {
		tpl.NotAfter = time.Now().Add(-time.Hour)
	}
	for _, n := range names {
		if ip := net.ParseIP(n); ip != nil {
			tpl.IPAddresses = append(tpl.IPAddresses, ip)
		} else {
			tpl.DNSNames = append(tpl.DNSNames, n)
		}
	}
	b, err := x509.CreateCertificate(crand.Reader, tpl, c.tpl, &k.PublicKey, c.key)
	t.Must(err, "certificate")
	return tls.Certificate{Certificate: [][]byte{b}, PrivateKey: k}
}

// smtpd is a mail server which follows a script.
type smtpd struct {
	l    net.Listener
	port int

	mu       sync.Mutex
	faults   map[string]string // by stage: a reply, "close"
	cert     *tls.Certificate
	auth     string
	verdict  func(data []byte) string // a reply to a message instead of accepting it
	accepted []accepted
	commands []string
	seen     []byte // everything received without TLS
	conns    int
	wg       sync.WaitGroup
}

type accepted struct {
	from, to string
	data     []byte
	tls      bool
	auth     string
}

func newSMTP(t *mon.T) *smtpd {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	s := &smtpd{l: l, port: l.Addr().(*net.TCPAddr).Port}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.wg.Add(1)
			go func() {
				defer s.wg.Done()
				s.serve(c)
			}()
		}
	}()
	return s
}

// set gives the server a new script.
func (s *smtpd) set(faults map[string]string, cert *tls.Certificate, auth string) {
	s.wg.Wait()
	s.mu.Lock()
	defer s.mu.Unlock()
	s.faults, s.cert, s.auth = faults, cert, auth
	s.accepted, s.commands, s.seen, s.conns = nil, nil, nil, 0
}

func (s *smtpd) result() ([]accepted, []string, []byte) {
	done := make(chan bool)
	go func() { s.wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.accepted, s.commands, s.seen
}

func (s *smtpd) serve(c net.Conn) {
	defer func() { c.Close() }()
	c.SetDeadline(time.Now().Add(20 * time.Second))
	s.mu.Lock()
	faults, cert, auth := s.faults, s.cert, s.auth
	s.conns++
	s.mu.Unlock()
	r := bufio.NewReader(c)
	secure := false
	reply := func(stage, ok string) bool {
		f, bad := faults[stage]
		if bad && f == "close" {
			return false
		}
		if bad {
			ok = f
		}
		fmt.Fprintf(c, "%s\r\n", ok)
		return !bad
	}
	if _, ok := faults["greet"]; ok {
		if !reply("greet", "") {
			return
		}
	} else if !reply("greet", "220 ready") {
		return
	}
	var from, to, user string
	for {
		line, err := r.ReadString('\n')
		if !secure {
			s.mu.Lock()
			s.seen = append(s.seen, line...)
			s.mu.Unlock()
		}
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		s.mu.Lock()
		s.commands = append(s.commands, line)
		s.mu.Unlock()
		up := strings.ToUpper(line)
		closeNow := func(stage string) bool { return faults[stage] == "close" }
		switch {
		case strings.HasPrefix(up, "EHLO"):
			stage := "ehlo"
			if secure {
				stage = "ehlo2"
			}
			ext := ""
			if cert != nil && !secure {
				ext += "250-STARTTLS\r\n"
			}
			if auth != "" {
				ext += "250-AUTH " + auth + "\r\n"
			}
			reply(stage, "250-hello\r\n"+ext+"250 8BITMIME")
			if closeNow(stage) {
				return
			}
		case strings.HasPrefix(up, "HELO"):
			reply("helo", "250 hello")
			if closeNow("helo") {
				return
			}
		case up == "STARTTLS" && cert != nil:
			if !reply("starttls", "220 go") {
				if closeNow("starttls") {
					return
				}
				continue
			}
			tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{*cert}})
			if err := tc.Handshake(); err != nil {
				return
			}
			c, secure, r = tc, true, bufio.NewReader(tc)
		case strings.HasPrefix(up, "AUTH"):
			user = line
			if strings.HasPrefix(up, "AUTH CRAM-MD5") {
				fmt.Fprintf(c, "334 %s\r\n", base64.StdEncoding.EncodeToString([]byte("<challenge>")))
				l, err := r.ReadString('\n')
				if err != nil {
					return
				}
				user = l
			}
			reply("auth", "235 ok")
			if closeNow("auth") {
				return
			}
		case strings.HasPrefix(up, "MAIL FROM:"):
			from = line[10:]
			reply("mail", "250 ok")
			if closeNow("mail") {
				return
			}
		case strings.HasPrefix(up, "RCPT TO:"):
			to = line[8:]
			reply("rcpt", "250 ok")
			if closeNow("rcpt") {
				return
			}
		case up == "DATA":
			if !reply("data", "354 go") {
				if closeNow("data") {
					return
				}
				continue
			}
			var data []byte
			for {
				l, err := r.ReadString('\n')
				if !secure {
					s.mu.Lock()
					s.seen = append(s.seen, l...)
					s.mu.Unlock()
				}
				if err != nil {
					return
				}
				if faults["during-data"] != "" {
					return
				}
				if l == ".\r\n" {
					break
				}
				if l[0] == '.' {
					l = l[1:]
				}
				data = append(data, l...)
			}
			s.mu.Lock()
			verdict := s.verdict
			s.mu.Unlock()
			if verdict != nil {
				if v := verdict(data); v != "" {
					fmt.Fprintf(c, "%s\r\n", v)
					continue
				}
			}
			if _, bad := faults["body"]; !bad {
				s.mu.Lock()
				s.accepted = append(s.accepted, accepted{from, to, data, secure, user})
				s.mu.Unlock()
			}
			reply("body", "250 queued")
			if closeNow("body") {
				return
			}
		case up == "QUIT":
			reply("quit", "221 bye")
			return
		case up == "RSET", up == "NOOP":
			fmt.Fprintf(c, "250 ok\r\n")
		default:
			fmt.Fprintf(c, "500 what?\r\n")
		}
	}
}
