package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/protoengine"
	"verif/harness/engkit"
	"verif/harness/mon"
)

var x06 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "runs of the muteproto engine with real descriptors: envelopes made and opened again by the mix, deliveries to a mail server failing at each command, fetches of mailboxes with the account server failing at each message and the caller stopping at each message; " +
		"one evaluation is one run whose output, status lines and effects were judged",
	MinEvents: 230,
	Run:       runX06,
}

// protoRun runs one muteproto command.
func protoRun(t *mon.T, home string, in, pass, cmd string, args ...string) (out, status string, err error) {
	dir, e := os.MkdirTemp(home, "io")
	t.Must(e, "directory")
	defer os.RemoveAll(dir)
	a := []string{"muteproto", "--homedir", home, "--logdir", filepath.Join(home, "log"), "--loglevel", "critical"}
	for i, f := range []struct{ flag, content string }{{"--input-fd", in}, {"--output-fd", ""}, {"--status-fd", ""}, {"--passphrase-fd", pass}, {"--command-fd", cmd}} {
		name := filepath.Join(dir, fmt.Sprint(i))
		t.Must(os.WriteFile(name, []byte(f.content), 0600), "file")
		fp, e := os.OpenFile(name, os.O_RDWR, 0600)
		t.Must(e, "file")
		fd, e := syscall.Dup(int(fp.Fd()))
		t.Must(e, "dup")
		syscall.CloseOnExec(fd)
		fp.Close()
		a = append(a, f.flag, fmt.Sprint(fd))
	}
	stdout := os.Stdout
	if null, e := os.OpenFile(os.DevNull, os.O_WRONLY, 0); e == nil {
		os.Stdout = null
		defer func() { os.Stdout = stdout; null.Close() }()
	}
	err = protoengine.New().Run(append(a, args...))
	b, _ := os.ReadFile(filepath.Join(dir, "1"))
	s, _ := os.ReadFile(filepath.Join(dir, "2"))
	return string(b), string(s), err
}

func runX06(t *mon.T) {
	ca := newCA(t)
	d := newAcctd(t, ca)
	defer d.close()
	home := t.TempDir("proto")
	m := engkit.Config(map[string]string{"mixclient.RPCPort": d.port, "mixclient.AccountServer": d.hosts[0], "mixclient.Sender": "sender@mute.one"})
	t.Must(engkit.WriteConfig(home, m), "configuration")
	// engkit writes no certificate
	b, err := json.Marshal(map[string]interface{}{"Map": m, "CACert": ca.pem})
	t.Must(err, "json")
	t.Must(os.WriteFile(filepath.Join(home, "config", "mainnet@mute.one"), b, 0600), "configuration")
	fetches(t, d, home)
	creates(t, home, ca)
	deliveries(t, home, ca)
}

// fetches: every announced message is written whole, in the order of the list,
// and a run which could not get a message says so.
func fetches(t *mon.T, d *acctd, home string) {
	for run := 0; run < t.N(120, 1000); run++ {
		rng := t.Rand("fetch", run)
		u := newUser(t)
		host := d.hosts[rng.Intn(2)]
		n := rng.Intn(7)
		d.mu.Lock()
		acc := d.get(host, u.pub)
		for i := 0; i < n; i++ {
			m := acctMsg{id: make([]byte, 32), recv: 1400000000 + rng.Int63n(1000), body: make([]byte, []int{0, 1, 2, 3, 4095, 4096, 20000, 100000}[rng.Intn(8)]), userKey: u.pub}
			crand.Read(m.id)
			crand.Read(m.body)
			acc.msgs = append(acc.msgs, m)
		}
		msgs := append([]acctMsg{}, acc.msgs...)
		since := int64(1400000000)
		if rng.Intn(3) == 0 {
			since += rng.Int63n(1000)
		}
		// fail the k-th message, or the list
		kind := []string{"none", "none", "message", "message", "list", "cut", "empty"}[run%7]
		failAt, seen := -1, 0
		if kind == "message" || kind == "cut" {
			failAt = rng.Intn(n + 1)
		}
		d.reply = func(w http.ResponseWriter, method string, _ map[string]interface{}) bool {
			if method == "ListMessages" {
				if kind == "list" {
					w.WriteHeader(500)
					return true
				}
				if kind == "empty" {
					io.WriteString(w, `{"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"accountdb: Nothing found"}}`)
					return true
				}
				return false
			}
			seen++
			if seen-1 == failAt {
				if kind == "cut" {
					w.Header().Set("Content-Length", "100000")
					io.WriteString(w, "From: x\r\n\r\n")
					if f, ok := w.(http.Flusher); ok {
						f.Flush()
					}
					if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
						c.Close()
					}
					return true
				}
				io.WriteString(w, "ERROR: accountdb: disk full")
				return true
			}
			return false
		}
		d.mu.Unlock()
		var list []acctMsg
		for _, m := range msgs {
			if m.recv >= since {
				list = append(list, m)
			}
		}
		// the caller's commands
		cmds := strings.Repeat("NEXT\n", len(list))
		end := "none"
		stopAt := -1
		if rng.Intn(3) == 0 && len(list) > 0 {
			stopAt = rng.Intn(len(list))
			end = []string{"QUIT\n", "", "WHAT\n"}[rng.Intn(3)]
			cmds = strings.Repeat("NEXT\n", stopAt) + end
		}
		var out, status string
		var err error
		t.NoPanic("crash/fetch", kind, func() {
			out, status, err = protoRun(t, home, "", base64.StdEncoding.EncodeToString(u.priv[:])+"\n", cmds, "fetch", "--server", host, "--last-message-time", fmt.Sprint(since))
		})
		d.mu.Lock()
		d.reply = nil
		d.mu.Unlock()
		d.take()
		// expected
		var wantOut, wantStatus string
		wantErr := false
		if kind == "list" {
			wantErr = true
		} else if kind == "empty" {
			wantStatus = "NONE\n"
		} else {
			finished := true
			for i, m := range list {
				if i == failAt {
					wantErr, finished = true, false
					break
				}
				wantStatus += "MESSAGEID:\t" + base64.StdEncoding.EncodeToString(m.id) + "\n"
				if i == stopAt {
					wantErr, finished = end != "QUIT\n", false
					break
				}
				enc := base64.StdEncoding.EncodeToString(m.body)
				wantOut += enc
				wantStatus += fmt.Sprintf("LENGTH:\t%d\nRECEIVETIME:\t%d\n", len(enc), m.recv)
			}
			if finished {
				wantStatus += "NONE\n"
			}
		}
		what := fmt.Sprintf("%d messages, %d asked for, failure %s at %d, caller stops at %d with %q", n, len(list), kind, failAt, stopAt, end)
		if out != wantOut {
			t.Violation("fetch/output/"+kind, fmt.Sprintf("%s: output of %d bytes, expected %d or other bytes (error %v)", what, len(out), len(wantOut), err))
		}
		if status != wantStatus {
			t.Violation("fetch/status/"+kind, fmt.Sprintf("%s: status %q, expected %q", what, status, wantStatus))
		}
		if (err != nil) != wantErr {
			t.Violation("fetch/error/"+kind, fmt.Sprintf("%s: error %v", what, err))
		}
		t.Count("fetch/" + kind)
		t.CountN("fetched", int64(strings.Count(status, "LENGTH")))
		t.Eval(fmt.Sprint("fetch/", run))
	}
	// keys which are none
	for i, p := range []string{"\n", "", "%%%\n", "abc\n"} {
		var err error
		var out string
		t.NoPanic("crash/fetch/key", p, func() {
			out, _, err = protoRun(t, home, "", p, "NEXT\n", "fetch", "--server", d.hosts[0], "--last-message-time", "0")
		})
		if out != "" {
			t.Violation("fetch/key", fmt.Sprintf("output %q without a key", out))
		}
		_ = err
		d.take()
		t.Eval(fmt.Sprint("fetch/key", i))
	}
}

// creates: the envelope holds exactly what was asked for.
func creates(t *mon.T, home string, ca *ca) {
	for i := 0; i < t.N(64, 400); i++ {
		rng := t.Rand("create", i)
		m := newMix(rng, i, time.Now().Unix()+100000)
		secret, nym, token := bs(rng, 64), bs(rng, 32), bs(rng, 1+rng.Intn(200))
		tmp := nymaddr.AddressTemplate{Secret: secret, MixCandidates: mixaddr.AddressList{m.adr}, Expire: time.Now().Unix() + 1000}
		na, err := tmp.NewAddress([]byte("mailbox@001."), nym)
		t.Must(err, "address")
		body := bs(rng, []int{4096, 5000, 65536, 30000, 4097, 4095, 0, 65537}[rng.Intn(8)])
		min, max := 60+rng.Intn(1000), 1100+rng.Intn(10000)
		enc := base64.StdEncoding.EncodeToString
		in := enc(body)
		bad := ""
		na64, tok64 := enc(na), enc(token)
		switch i % 8 {
		case 1:
			bad, in = "input", "%"+in
		case 2:
			bad, na64 = "address", na64[:len(na64)/2]+"A"
		case 3:
			bad, tok64 = "token", "???"
		case 4:
			k := rng.Intn(len(na))
			x := append([]byte{}, na[:k]...)
			bad, na64 = "address", enc(x)
		}
		args := []string{"create", "--mindelay", fmt.Sprint(min), "--maxdelay", fmt.Sprint(max), "--token", tok64, "--nymaddress", na64}
		var out string
		t.NoPanic("crash/create", bad, func() { out, _, err = protoRun(t, home, in, "", "", args...) })
		t.Eval(fmt.Sprint("create/", i))
		if bad != "" {
			if err == nil || out != "" {
				t.Violation("create/bad/"+bad, fmt.Sprintf("bad %s: error %v, %d bytes of output", bad, err, len(out)))
			}
			t.Count("create/bad-" + bad)
			continue
		}
		if err != nil {
			t.Violation("create", fmt.Sprintf("create of %d bytes: %v", len(body), err))
			continue
		}
		raw, err := base64.StdEncoding.DecodeString(out)
		if err != nil {
			t.Violation("create/base64", err.Error())
			continue
		}
		mo := mixclient.MessageMarshalled(raw).Unmarshal()
		if mo.Error != nil || !mo.Resend || mo.To != m.adr.Address || mo.From != "sender@mute.one" || mo.SMTPPort != 587 || !bytes.Equal(mo.CACert, ca.pem) || len(mo.RevokeID) == 0 {
			t.Violation("create/envelope", fmt.Sprintf("%.300v", mo))
			continue
		}
		relay, err := mixclient.ReadMail(mo.Message)
		t.Must(err, "ReadMail")
		r, err := mixcrypt.ReceiveMessage(m.keys, relay)
		if len(body) < 4096 || len(body) > 65536 {
			if err == nil {
				t.Violation("create/size", fmt.Sprint("message of ", len(body), " bytes passes the mix"))
			}
			t.Count("create/size")
			continue
		}
		if err != nil || !bytes.Equal(r.Message, body) || !bytes.Equal(r.MixHeader.Token, token) || r.MixHeader.SenderMinDelay != int32(min) || r.MixHeader.SenderMaxDelay != int32(max) ||
			!bytes.Equal(r.MixHeader.RevokeID, mo.RevokeID) {
			t.Violation("create/mix", fmt.Sprintf("the mix gets something else: %v", err))
			continue
		}
		msg, _, err := r.Send()
		if err == nil {
			var dec, n2 []byte
			dec, n2, err = mixcrypt.ReceiveFromMix(tmp, []byte("mailbox@001."), msg)
			if err == nil && (!bytes.Equal(dec, body) || !bytes.Equal(n2, nym)) {
				err = fmt.Errorf("other bytes")
			}
		}
		if err != nil {
			t.Violation("create/recipient", err.Error())
		}
		t.Count("create/good")
	}
}

// deliveries: nothing is said to be delivered which was not, and nothing
// accepted is offered for sending again.
func deliveries(t *mon.T, home string, ca *ca) {
	s := newSMTP(t)
	defer s.l.Close()
	cert := ca.cert(t, false, "127.0.0.1")
	codes := map[string]string{"retry": "451 4.3.0 later", "final": "550 5.1.1 never", "close": "close"}
	n := 0
	for _, stage := range []string{"none", "greet", "ehlo2", "starttls", "mail", "rcpt", "data", "during-data", "body", "quit"} {
		for _, kind := range []string{"retry", "final", "close"} {
			if stage == "none" && kind != "retry" || stage == "during-data" && kind != "close" {
				continue
			}
			for rep := 0; rep < t.N(2, 10); rep++ {
				rng := t.Rand("deliver", stage, kind, rep)
				n++
				body := bs(rng, 1+rng.Intn(5000))
				mail := mixclient.WriteMail("sender@mute.one", "mix@mute.one", body)
				mo := &mixclient.MessageOutput{Message: mail, To: "mix@mute.one", From: "sender@mute.one", RevokeID: bs(rng, 32), SMTPPort: s.port, SmartHost: "127.0.0.1", CACert: ca.pem, Resend: true}
				f := map[string]string{}
				if stage != "none" {
					f[stage] = codes[kind]
				}
				s.set(f, &cert, "")
				var out, status string
				var err error
				t.NoPanic("crash/deliver", stage+"/"+kind, func() {
					out, status, err = protoRun(t, home, base64.StdEncoding.EncodeToString(mo.Marshal()), "", "", "deliver")
				})
				acc, _, clear := s.result()
				what := fmt.Sprintf("%s at %s: error %v, status %q, accepted %d times", kind, stage, err, status, len(acc))
				if bytes.Contains(clear, []byte("MAIL FROM")) {
					t.Violation("deliver/clear", what)
				}
				if len(acc) > 1 {
					t.Violation("deliver/twice", what)
				}
				delivered := err == nil && status == ""
				if delivered != (len(acc) == 1) && !(stage == "body" && len(acc) == 0 && !delivered) {
					t.Violation("deliver/said", what)
				}
				if delivered && (acc[0].from != "<sender@mute.one>" && !strings.HasPrefix(acc[0].from, "<sender@mute.one>") || !bytes.Equal(normal(acc[0].data), normal(mail))) {
					t.Violation("deliver/content", fmt.Sprintf("%s: from %q, %d bytes instead of %d", what, acc[0].from, len(acc[0].data), len(mail)))
				}
				if err == nil && status != "" && (!strings.HasPrefix(status, "RESEND:\t") || strings.Count(status, "\n") != 1) {
					t.Violation("deliver/status", what)
				}
				if out != "" {
					t.Violation("deliver/output", what)
				}
				t.Count("deliver/" + stage + "/" + kind)
				t.Eval(fmt.Sprint("deliver/", n))
			}
		}
	}
	// stored messages which are delivered, or no messages
	done := &mixclient.MessageOutput{RevokeID: []byte("x")}
	for i, in := range []string{base64.StdEncoding.EncodeToString(done.Marshal()), "", "%%", "AAAA", base64.StdEncoding.EncodeToString([]byte("junk")), hex.EncodeToString(done.Marshal())} {
		s.set(map[string]string{}, &cert, "")
		var err error
		t.NoPanic("crash/deliver/junk", in, func() { _, _, err = protoRun(t, home, in, "", "", "deliver") })
		if acc, cmds, _ := s.result(); err == nil || len(acc) > 0 || len(cmds) > 0 {
			t.Violation("deliver/junk", fmt.Sprintf("input %d is delivered: %v", i, err))
		}
		t.Eval(fmt.Sprint("deliver/junk/", i))
	}
}

// normal makes line ends comparable.
func normal(b []byte) []byte {
	return bytes.TrimRight(bytes.ReplaceAll(b, []byte("\r\n"), []byte("\n")), "\n")
}
