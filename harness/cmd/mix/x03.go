package main

import (
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"verif/harness/mon"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/mix/smtpclient"
)

var x03 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "message envelopes of all sizes written, read and stored; deliveries to a scripted mail server which refuses, fails or drops the connection at every command and every reply, with resending from the stored form; servers without TLS or with foreign certificates; " +
		"one evaluation is one delivery attempt or envelope which was judged",
	MinEvents: 500,
	Run:       runX03,
}

// ca makes certificates.
func moEq(a, b *mixclient.MessageOutput) bool {
	return bytes.Equal(a.Message, b.Message) && a.To == b.To && a.From == b.From && bytes.Equal(a.RevokeID, b.RevokeID) && a.SMTPPort == b.SMTPPort && a.SmartHost == b.SmartHost &&
		bytes.Equal(a.CACert, b.CACert) && a.Resend == b.Resend && fmt.Sprint(a.Error) == fmt.Sprint(b.Error)
}

func runX03(t *mon.T) {
	mails(t)
	s := newSMTP(t)
	defer s.l.Close()
	own, foreign := newCA(t), newCA(t)
	good := own.cert(t, false, "127.0.0.1")
	k := 0
	message := func(rng *rand.Rand, cacert []byte) (*mixclient.MessageOutput, *aMix, []byte) {
		m := newMix(rng, k, time.Now().Unix()+100000)
		tmp := nymaddr.AddressTemplate{Secret: bs(rng, 64), MixCandidates: mixaddr.AddressList{m.adr}, Expire: time.Now().Unix() + 1000}
		na, err := tmp.NewAddress([]byte("mailbox@001."), bs(rng, 32))
		t.Must(err, "address")
		mo := mixclient.MessageInput{Token: bs(rng, 10), NymAddress: na, Message: bs(rng, 4096+rng.Intn(5000)), SMTPPort: s.port, SmartHost: "127.0.0.1", CACert: cacert}.Create()
		t.Must(mo.Error, "create")
		k++
		return mo, m, append([]byte{}, mo.Message...)
	}
	store := func(mo *mixclient.MessageOutput) *mixclient.MessageOutput {
		n := mo.Marshal().Unmarshal()
		if !moEq(mo, n) {
			t.Violation("stored", map[string]interface{}{"before": fmt.Sprintf("%.400v", mo), "after": fmt.Sprintf("%.400v", n)})
		}
		t.Count("stored")
		return n
	}
	// faults at each stage
	codes := map[string]string{"retry": "451 4.3.0 later", "final": "550 5.1.1 never", "close": "close", "garbage": "what is this"}
	stages := []string{"none", "greet", "ehlo", "ehlo2", "starttls", "mail", "rcpt", "data", "during-data", "body", "quit"}
	for round := 0; round < t.N(2, 20); round++ {
		for _, stage := range stages {
			for _, kind := range []string{"retry", "final", "close", "garbage"} {
				for _, secure := range []bool{false, true} {
					if t.Violations() >= 8 {
						return
					}
					if !secure && (stage == "starttls" || stage == "ehlo2") || stage == "none" && kind != "retry" || stage == "during-data" && kind != "close" {
						continue
					}
					rng := t.Rand("smtp", round, stage, kind, secure)
					stored := (round+len(stage)+len(kind))%2 == 0
					var cert *tls.Certificate
					var cacert []byte
					if secure {
						cert, cacert = &good, own.pem
					}
					faults := map[string]string{}
					if stage != "none" {
						faults[stage] = codes[kind]
						if stage == "ehlo" {
							faults["helo"] = codes[kind]
						}
					}
					s.set(faults, cert, "")
					mo, m, orig := message(rng, cacert)
					to, from := mo.To, mo.From
					if stored {
						mo = store(mo)
					}
					d := map[string]interface{}{"stage": stage, "fault": kind, "TLS": secure, "stored": stored}
					t.Case(d)
					var err error
					if !t.Finishes("hang/"+stage, d, 60*time.Second, func() { mo, err = mo.Deliver() }) {
						return
					}
					acc, cmds, seen := s.result()
					d["error"], d["commands"], d["resend"] = fmt.Sprint(err), cmds, mo.Resend
					name := stage + "/" + kind
					judgeMail := func(acc []accepted) {
						if len(acc) != 1 || acc[0].from != "<"+from+">" && !strings.HasPrefix(acc[0].from, "<"+from+"> ") || acc[0].to != "<"+to+">" || !bytes.Equal(bytes.TrimRight(acc[0].data, "\r\n"), bytes.TrimRight(orig, "\r\n")) || acc[0].tls != secure {
							t.Violation("delivered-wrong/"+name, map[string]interface{}{"case": d, "messages": len(acc), "accepted": fmt.Sprintf("%.300v", acc)})
							return
						}
						body, err := mixclient.ReadMail(acc[0].data)
						if err != nil {
							t.Violation("delivered-unreadable", d)
						} else if _, err := mixReceive(m, body); err != nil {
							t.Violation("delivered-unreadable", d)
						}
					}
					t.Eval(fmt.Sprint(round, name, secure, 1))
					t.Count("delivery/" + name)
					if len(acc) > 0 {
						judgeMail(acc)
						if err != nil || mo.Resend || len(mo.Message) > 0 {
							t.Violation("accepted-but-kept/"+name, d)
							continue
						}
						for i := 0; i < 2; i++ {
							s.set(nil, cert, "")
							mo, err = mo.Deliver()
							if acc, cmds, _ := s.result(); len(cmds) > 0 || len(acc) > 0 || err == nil {
								d["again"] = fmt.Sprint(err, cmds)
								t.Violation("delivered-twice/"+name, d)
							}
							mo = store(mo)
						}
						continue
					}
					if secure && bytes.Contains(seen, orig[len(orig)-300:len(orig)-200]) {
						t.Violation("sent-in-clear/"+name, d)
					}
					if err == nil {
						t.Violation("lost/"+name, d)
						continue
					}
					wantFinal := kind == "final" && stage != "greet" && stage != "during-data"
					if stage == "ehlo" && !secure || stage == "ehlo2" {
						// how a refused greeting is followed up is not specified
						wantFinal = !mo.Resend
					}
					if stage == "ehlo" && secure {
						// no TLS without extensions: enforced TLS is missing
						wantFinal = !mo.Resend
					}
					if mo.Resend == wantFinal {
						t.Violation("classified/"+name, d)
					}
					if !bytes.Equal(mo.Message, orig) || mo.To != to || mo.From != from || mo.SMTPPort != s.port || mo.SmartHost != "127.0.0.1" || !bytes.Equal(mo.CACert, cacert) || mo.Error == nil {
						t.Violation("not-kept/"+name, d)
						continue
					}
					if stored || round%2 == 1 {
						mo = store(mo)
					}
					// later
					s.set(nil, cert, "")
					resend := mo.Resend
					mo, err = mo.Deliver()
					acc, cmds, _ = s.result()
					d["later"] = fmt.Sprint(err, cmds)
					t.Eval(fmt.Sprint(round, name, secure, 2))
					t.Count("delivery-again")
					if resend {
						if err != nil || mo.Resend {
							t.Violation("resend/"+name, d)
							continue
						}
						judgeMail(acc)
					} else if err == nil || len(cmds) > 0 {
						t.Violation("final-resent/"+name, d)
					}
				}
			}
		}
	}
	// nobody who listens on the way gets a message meant for TLS
	certs := map[string]tls.Certificate{"foreign": foreign.cert(t, false, "127.0.0.1"), "other-name": own.cert(t, false, "mix.example.com", "127.0.0.2"), "expired": own.cert(t, true, "127.0.0.1")}
	for round := 0; round < t.N(3, 40); round++ {
		for _, kind := range []string{"no-tls", "foreign", "other-name", "expired", "bad-ca"} {
			rng := t.Rand("tls", round, kind)
			var cert *tls.Certificate
			cacert := own.pem
			if kind == "bad-ca" {
				cert, cacert = &good, []byte("no certificate")
			} else if c, ok := certs[kind]; ok {
				cert = &c
			}
			s.set(nil, cert, "")
			mo, _, orig := message(rng, cacert)
			if round%2 == 0 {
				mo = store(mo)
			}
			mo, err := mo.Deliver()
			acc, cmds, seen := s.result()
			d := map[string]interface{}{"kind": kind, "error": fmt.Sprint(err), "commands": cmds}
			if err == nil || len(acc) > 0 || bytes.Contains(seen, orig[len(orig)-200:len(orig)-100]) || bytes.Contains(seen, []byte("MAIL")) {
				t.Violation("tls-not-enforced/"+kind, d)
			}
			if !bytes.Equal(mo.Message, orig) {
				t.Violation("tls-lost/"+kind, d)
			}
			t.Eval(fmt.Sprint("tls", round, kind))
			t.Count("tls/" + kind)
		}
	}
	// authentication
	for round := 0; round < t.N(2, 20); round++ {
		for _, kind := range []string{"", "PLAIN", "CRAM-MD5", "CRAM-MD5 PLAIN", "LOGIN"} {
			for _, refuse := range []bool{false, true} {
				rng := t.Rand("auth", round, kind)
				f := map[string]string{}
				if refuse {
					f["auth"] = "535 5.7.8 no"
				}
				s.set(f, &good, kind)
				mo, _, orig := message(rng, own.pem)
				mc := smtpclient.MailClient{CACert: own.pem, Port: s.port, SmartHost: "127.0.0.1", User: "user", Password: "SECRETPASSWORD"}
				err := mc.SendMail(mo.To, mo.From, orig)
				acc, cmds, seen := s.result()
				d := map[string]interface{}{"offered": kind, "refused": refuse, "error": fmt.Sprint(err), "commands": cmds}
				can := (kind == "PLAIN" || strings.HasPrefix(kind, "CRAM")) && !refuse
				if can != (err == nil) || can != (len(acc) == 1) || can && acc[0].auth == "" || !can && err != smtpclient.ErrFinal {
					t.Violation("auth", d)
				}
				if bytes.Contains(seen, []byte("SECRETPASSWORD")) || bytes.Contains(seen, []byte("AUTH")) || strings.HasPrefix(kind, "CRAM") && strings.Contains(strings.Join(cmds, " "), base64.StdEncoding.EncodeToString([]byte("\x00user\x00SECRETPASSWORD"))) {
					t.Violation("auth-in-clear", d)
				}
				t.Eval(fmt.Sprint("auth", round, kind, refuse))
				t.Count("auth/" + kind)
			}
		}
	}
}

// mails: envelopes.
func mails(t *mon.T) {
	for c := 0; c < t.N(300, 10000) && t.Violations() < 6; c++ {
		rng := t.Rand("mail", c)
		n := rng.Intn(400)
		if c%10 == 0 {
			n = rng.Intn(199000)
		}
		if c%10 == 1 {
			n = 54*rng.Intn(6) + rng.Intn(3)
		}
		if c < 40 {
			n = 190000 + rng.Intn(20000)
		}
		body := bs(rng, n)
		m := mixclient.WriteMail("client@mute.one", "mix@mute.berlin", body)
		saved := append([]byte{}, m...)
		lines := bytes.Split(m, []byte("\r\n"))
		for _, l := range lines {
			if len(l) > 200 || bytes.ContainsAny(l, "\r\n") {
				t.Violation("mail/lines", map[string]interface{}{"length": n})
				break
			}
		}
		// The limit is that of the encoded body.
		enc := len(m) - bytes.Index(m, []byte("\r\n\r\n")) - 4
		got, err := mixclient.ReadMail(m)
		if enc <= mixclient.MaxMessageSize && (err != nil || !bytes.Equal(got, body)) || enc > mixclient.MaxMessageSize && err == nil {
			t.Violation("mail/read", map[string]interface{}{"length": n, "error": fmt.Sprint(err)})
		}
		if !bytes.Equal(saved, m) {
			t.Violation("mail/changed", nil)
		}
		// line ends as they are changed on the way
		if got, err := mixclient.ReadMail(bytes.ReplaceAll(append(append([]byte{}, m...), "\r\n"...), []byte("\r\n"), []byte("\n"))); enc <= mixclient.MaxMessageSize-2 && (err != nil || !bytes.Equal(got, body)) {
			t.Violation("mail/line-ends", map[string]interface{}{"length": n, "error": fmt.Sprint(err)})
		}
		t.Eval(fmt.Sprint("mail", c))
		t.Count("mails")
		for i := 0; i < 6; i++ {
			b := append([]byte{}, m...)
			switch i {
			case 0:
				b = b[:rng.Intn(len(b))]
			case 1:
				b[rng.Intn(len(b))] = byte(rng.Intn(256))
			case 2:
				b = bs(rng, rng.Intn(500))
			case 3:
				b = append([]byte("A: b\r\n\r\n"), bs(rng, rng.Intn(400))...)
			case 4:
				b = append([]byte("\r\n\r\n"), b...)
			case 5:
				b = append([]byte("A: b\r\n\r\n"), bytes.Repeat([]byte("A"), mixclient.MaxMessageSize+rng.Intn(3)*100000)...)
			}
			t.NoPanic("mail-crash", map[string]interface{}{"kind": i, "mail": fmt.Sprintf("%.300q", b)}, func() {
				if got, err := mixclient.ReadMail(b); err == nil && len(got) > mixclient.MaxMessageSize {
					t.Violation("mail/too-long", nil)
				}
			})
			t.Count("mails-damaged")
		}
		// stored messages
		mo := &mixclient.MessageOutput{Message: bs(rng, rng.Intn(100)), To: "mix@mute.berlin", From: "ü@x", RevokeID: bs(rng, 32), SMTPPort: rng.Intn(70000), SmartHost: "host", CACert: bs(rng, rng.Intn(3)*40), Resend: rng.Intn(2) == 0}
		if rng.Intn(2) == 0 {
			mo.Error = []error{smtpclient.ErrFinal, smtpclient.ErrRetry, mixclient.ErrMaxSize, nymaddr.ErrExpired, fmt.Errorf("550 never\nagain")}[rng.Intn(5)]
		}
		b := mo.Marshal()
		n2 := b.Unmarshal()
		if !moEq(mo, n2) {
			t.Violation("stored", map[string]interface{}{"before": fmt.Sprintf("%+v", mo), "after": fmt.Sprintf("%+v", n2)})
		}
		if mo.Error == smtpclient.ErrRetry && n2.Error != smtpclient.ErrRetry {
			t.Violation("stored/error", nil)
		}
		for i := 0; i < 4; i++ {
			x := append([]byte{}, b...)
			if i == 0 {
				x = x[:rng.Intn(len(x))]
			} else {
				x[rng.Intn(len(x))] ^= byte(1 + rng.Intn(255))
			}
			t.NoPanic("stored-crash", nil, func() {
				n3 := mixclient.MessageMarshalled(x).Unmarshal()
				if i == 0 && (n3.Error == nil || n3.Resend) {
					t.Violation("stored-damaged", map[string]interface{}{"got": fmt.Sprintf("%+v", n3)})
				}
			})
			t.Count("stored-damaged")
		}
	}
}
