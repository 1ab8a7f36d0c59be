package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"reflect"
	"strings"
	"time"

	"verif/harness/mon"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/util"
)

var x05 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "histories of account calls (pay, status, list, fetch, delete) of several users against two account servers which keep their own books, raise counters behind the client's back, refuse, drop connections and return malformed replies of every kind; servers with foreign certificates; mix key and revocation calls; " +
		"one evaluation is one call whose request and result were judged",
	MinEvents: 900,
	Run:       runX05,
}

func short(b []byte) string { return fmt.Sprintf("%.8x", b) }

func runX05(t *mon.T) {
	defer func(p, a string, g func(string) (string, error), m string) {
		mixclient.RPCPort, mixclient.DefaultAccountServer, mixclient.GetMixAddress, util.MixAddress = p, a, g, m
	}(mixclient.RPCPort, mixclient.DefaultAccountServer, mixclient.GetMixAddress, util.MixAddress)
	ca := newCA(t)
	d := newAcctd(t, ca)
	defer d.close()
	mixclient.RPCPort = d.port
	mixclient.DefaultAccountServer = d.hosts[0]
	history(t, d, ca)
	hostileReplies(t, d, ca)
	foreign(t, d, ca)
	mixCalls(t, d, ca)
	tokens(t)
}

type user struct {
	priv *[64]byte
	pub  [32]byte
}

func newUser(t *mon.T) *user {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	t.Must(err, "key")
	u := &user{priv: new([64]byte)}
	copy(u.priv[:], priv)
	copy(u.pub[:], pub)
	return u
}

// history drives random calls against servers which answer well, with counters
// raised behind the client's back.
func history(t *mon.T, d *acctd, ca *ca) {
	for run := 0; run < t.N(6, 60); run++ {
		rng := t.Rand("history", run)
		users := []*user{newUser(t), newUser(t), newUser(t)}
		var log []string
		fail := func(kind, f string, a ...interface{}) {
			h := log
			if len(h) > 12 {
				h = h[len(h)-12:]
			}
			t.Violation(kind, map[string]interface{}{"what": fmt.Sprintf(f, a...), "history": strings.Join(h, "; ")})
		}
		for step := 0; step < 60; step++ {
			u := users[rng.Intn(len(users))]
			host := d.hosts[rng.Intn(2)]
			races := 0
			if rng.Intn(3) == 0 {
				races = 1 + rng.Intn(6)
			}
			d.mu.Lock()
			acc := d.get(host, u.pub)
			// counters may be ahead of the client's clock
			if rng.Intn(25) == 0 {
				acc.counter = uint64(time.Now().UnixNano()) + uint64(rng.Int63n(1e18))
			}
			ahead := acc.counter > uint64(time.Now().UnixNano())
			d.races = races
			if rng.Intn(2) == 0 { // mail comes in
				for n := rng.Intn(4); n > 0; n-- {
					m := acctMsg{id: make([]byte, 32), recv: 1400000000 + rng.Int63n(1000000), nano: rng.Int63n(1000000000), read: rng.Int63n(2) * 1400000001, body: make([]byte, rng.Intn(5000)), userKey: u.pub}
					crand.Read(m.id)
					crand.Read(m.body)
					acc.msgs = append(acc.msgs, m)
				}
			}
			load, npay := acc.load, len(acc.payments)
			msgs := append([]acctMsg{}, acc.msgs...)
			d.mu.Unlock()
			// at most four tries: three more after a replay error
			need := races
			if need == 0 && ahead {
				need = 1
			}
			served := need <= 3
			op := []string{"LoadAccount", "LoadAccount", "AccountStat", "ListMessages", "message", "message", "DeleteAccount"}[rng.Intn(7)]
			log = append(log, fmt.Sprintf("%s of %s at %s (counter raised %d times, ahead %v)", op, short(u.pub[:]), host, races, ahead))
			var err error
			var since int64
			var id []byte
			pay := make([]byte, 1+rng.Intn(300))
			crand.Read(pay)
			judge := func() {}
			t.NoPanic("crash/"+op, strings.Join(log, "; "), func() {
				switch op {
				case "LoadAccount":
					known := host
					if host == d.hosts[0] && rng.Intn(2) == 0 {
						known = ""
					}
					var server string
					server, err = mixclient.PayAccount(u.priv, pay, known, ca.pem)
					judge = func() {
						if err == nil && server != host {
							fail("pay/server", "PayAccount returned server %q, the account is at %s", server, host)
						}
					}
				case "AccountStat":
					var lt int64
					lt, err = mixclient.AccountStat(u.priv, host, ca.pem)
					judge = func() {
						if err == nil && lt != load {
							fail("stat", "AccountStat is %d, the server said %d", lt, load)
						}
					}
				case "ListMessages":
					since = 1400000000 + rng.Int63n(1200000)
					if rng.Intn(2) == 0 {
						since = 0
					}
					var l []mixclient.MessageMeta
					l, err = mixclient.ListMessages(u.priv, since, host, ca.pem)
					judge = func() {
						var want []mixclient.MessageMeta
						for _, m := range msgs {
							if m.recv >= since {
								want = append(want, mixclient.MessageMeta{MessageID: m.id, ReceiveTime: m.recv, ReceiveTimeNano: m.nano, ReadTime: m.read, UserKey: m.userKey})
							}
						}
						if err == nil && !reflect.DeepEqual(l, want) {
							fail("list", "the server listed %d messages, ListMessages has %d or others", len(want), len(l))
						}
					}
				case "message":
					var want []byte
					id = make([]byte, 32)
					crand.Read(id)
					if len(msgs) > 0 && rng.Intn(5) > 0 {
						m := msgs[rng.Intn(len(msgs))]
						id, want = m.id, m.body
					}
					var b []byte
					b, err = mixclient.FetchMessage(u.priv, id, host, ca.pem)
					judge = func() {
						if want == nil && served {
							if err == nil {
								fail("fetch/none", "FetchMessage of an unknown message gives %d bytes", len(b))
							}
							err = nil
						} else if err == nil && !bytes.Equal(b, want) {
							fail("fetch", "FetchMessage gives other bytes (%d instead of %d)", len(b), len(want))
						}
					}
				case "DeleteAccount":
					err = mixclient.DeleteAccount(u.priv, host, ca.pem)
					judge = func() {
						if served && load == 0 {
							if err != mixclient.ErrNoMatch {
								fail("delete", "DeleteAccount of no account: %v", err)
							}
							err = nil
						}
					}
				}
			})
			judge()
			d.mu.Lock()
			d.races = 0
			d.mu.Unlock()
			reqs := d.take()
			if served && err != nil {
				fail("refused/"+op, "%s failed: %v", op, err)
			}
			if !served && err != walletauth.ErrReplay {
				fail("replay/"+op, "%s: the counter was raised %d times, result is %v", op, races, err)
			}
			accepted := 0
			for i, q := range reqs {
				if i > 0 && q.counter <= reqs[i-1].counter {
					fail("counter", "%s: counter %d after %d", q.method, q.counter, reqs[i-1].counter)
				}
				if q.bad != "" {
					fail("auth", "%s: %s", q.method, q.bad)
				}
				if q.key != u.pub {
					fail("auth", "%s for another key", q.method)
				}
				if q.host != host || q.method != op {
					fail("wrong-server/"+op, "%s at %s sent %s to %s", op, host, q.method, q.host)
				}
				if op == "LoadAccount" && !bytes.Equal(q.pay, pay) {
					fail("pay/token", "another payment token was sent")
				}
				if op != "LoadAccount" && q.pay != nil {
					fail("pay/token", "a payment token was sent with %s", op)
				}
				if op == "ListMessages" && q.since != float64(since) {
					fail("list/since", "messages since %v instead of %v were asked for", q.since, since)
				}
				if op == "message" && !bytes.Equal(q.msgid, id) {
					fail("fetch/id", "another message was asked for")
				}
				if q.accepted {
					accepted++
				}
			}
			if wantAcc := map[bool]int{true: 1, false: 0}[served]; accepted != wantAcc || len(reqs) > 4 {
				fail("calls/"+op, "%s was carried out %d times with %d requests (expected %d)", op, accepted, len(reqs), wantAcc)
			}
			if op == "LoadAccount" {
				d.mu.Lock()
				n := len(acc.payments) - npay
				d.mu.Unlock()
				if (n == 1) != served || n > 1 {
					fail("pay/once", "the account was paid %d times by one PayAccount", n)
				}
			}
			kind := "served"
			if !served {
				kind = "replay"
			} else if need > 0 {
				kind = "served-after-replay"
			}
			t.Count("call/" + op + "/" + kind)
			t.Eval(fmt.Sprintf("call/%d/%d", run, step))
			t.Sample("call", log[len(log)-1])
		}
		t.Case(fmt.Sprint("history ", run))
	}
}

// hostileReplies enumerates malformed replies. A call must fail or report what
// the reply says, in full, and must be sent once.
func hostileReplies(t *mon.T, d *acctd, ca *ca) {
	mk := func(key string) map[string]interface{} {
		return map[string]interface{}{"MessageID": strings.Repeat("ab", 32), "ReceiveTime": 1400000000, "ReceiveTimeNano": 5, "ReadTime": 0, "UserKey": key}
	}
	junk := []interface{}{nil, true, -1, 1.5, 1e300, "", "x", "ErrReplay: ", strings.Repeat("ab", 31), strings.Repeat("ab", 33), []interface{}{}, map[string]interface{}{}, []interface{}{nil}, []interface{}{1, "x"}}
	type reply struct {
		name  string
		f     func(w http.ResponseWriter, method string, res map[string]interface{}) bool
		fails bool // the call cannot be right
	}
	field := map[string]string{"LoadAccount": "Server", "DeleteAccount": "Result", "AccountStat": "LoadTime", "ListMessages": "Messages"}
	send := func(w http.ResponseWriter, v interface{}) bool {
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "result": v})
		return true
	}
	okType := func(method string, v interface{}) bool {
		switch v.(type) {
		case string:
			return method == "LoadAccount"
		case bool:
			return method == "DeleteAccount"
		case int, float64:
			return method == "AccountStat"
		}
		return false
	}
	for _, op := range []string{"LoadAccount", "DeleteAccount", "AccountStat", "ListMessages", "message"} {
		op := op
		var rs []reply
		raw := func(name string, status int, body string) {
			rs = append(rs, reply{name, func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
				w.WriteHeader(status)
				io.WriteString(w, body)
				return true
			}, op != "message" || !strings.HasPrefix(body, "{") || !strings.Contains(body, ":")}) // such a body is a mail header
		}
		for i, e := range []string{"", "E", "ErrReplay", "ErrReplay:", "ErrReplay: ", "ErrReplay: x", "ErrReplay: 99999999999999999999999", "accountdb: Nothing found", "ErrRep", "0123456789", "01234567890"} {
			b, _ := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "id": 1, "error": map[string]interface{}{"code": -32000, "message": e}})
			if op == "message" {
				b = []byte("ERROR: " + e)
			}
			raw(fmt.Sprint("error/", i), 200, string(b))
		}
		for i, s := range []string{"", "{", "null", "[]", "7", "ERROR", "ERROR:", "ERROR:x", "ERRORx", "\x00\xff", `{"jsonrpc":"2.0","id":1}`, `{"jsonrpc":"2.0","result":null,"id":1}`, `{"jsonrpc":"2.0","result":[1],"id":1}`, `{"jsonrpc":"2.0","result":{},"id":1}`, strings.Repeat("x", 300)} {
			raw(fmt.Sprint("body/", i), 200, s)
		}
		raw("status/500", 500, "internal error")
		raw("status/404", 404, "not found")
		rs = append(rs, reply{"close", func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
			return true
		}, true}, reply{"short", func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
			w.Header().Set("Content-Length", "4000")
			io.WriteString(w, `{"jsonrpc":"2.0","id":1,"result":{"Server":"127`)
			return true
		}, true})
		if f := field[op]; f != "" {
			for i, j := range junk {
				j := j
				fails := !okType(op, j)
				if l, ok := j.([]interface{}); ok && op == "ListMessages" && len(l) == 0 {
					fails = false
				}
				rs = append(rs, reply{fmt.Sprint("field/", i), func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
					return send(w, map[string]interface{}{f: j})
				}, fails})
			}
			rs = append(rs, reply{"field/case", func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
				return send(w, map[string]interface{}{"x" + f: "x"})
			}, true})
		}
		if op == "ListMessages" {
			for pos := 0; pos < 3; pos++ {
				pos := pos
				for _, mf := range []string{"MessageID", "ReceiveTime", "ReceiveTimeNano", "ReadTime", "UserKey", "missing", "whole"} {
					mf := mf
					for i, j := range junk {
						j := j
						fails := true
						switch j.(type) {
						case int, float64:
							fails = mf == "MessageID" || mf == "UserKey" || mf == "whole"
						case string:
							_, err := hex.DecodeString(j.(string))
							fails = !(mf == "MessageID" && err == nil)
						}
						if mf == "missing" && i >= 5 {
							continue
						}
						rs = append(rs, reply{fmt.Sprintf("entry/%s/%d/%d", mf, pos, i), func(w http.ResponseWriter, m string, _ map[string]interface{}) bool {
							l := []interface{}{}
							for p := 0; p < 3; p++ {
								e := mk(strings.Repeat("cd", 32))
								if p == pos {
									switch mf {
									case "whole":
										l = append(l, j)
										continue
									case "missing":
										delete(e, []string{"MessageID", "ReceiveTime", "ReceiveTimeNano", "ReadTime", "UserKey"}[i])
									default:
										e[mf] = j
									}
								}
								l = append(l, e)
							}
							return send(w, map[string]interface{}{"Messages": l})
						}, fails})
					}
				}
			}
		}
		for _, r := range rs {
			if !t.Thorough() && op == "ListMessages" && strings.HasPrefix(r.name, "entry/") && t.Rand(r.name).Intn(2) == 0 && !strings.Contains(r.name, "whole") {
				continue
			}
			u := newUser(t)
			d.mu.Lock()
			d.reply = r.f
			d.mu.Unlock()
			var err error
			var n int
			t.NoPanic("crash/hostile/"+op, op+" "+r.name, func() {
				switch op {
				case "LoadAccount":
					_, err = mixclient.PayAccount(u.priv, []byte("token"), d.hosts[1], ca.pem)
				case "DeleteAccount":
					err = mixclient.DeleteAccount(u.priv, d.hosts[1], ca.pem)
				case "AccountStat":
					_, err = mixclient.AccountStat(u.priv, d.hosts[1], ca.pem)
				case "ListMessages":
					var l []mixclient.MessageMeta
					l, err = mixclient.ListMessages(u.priv, 0, d.hosts[1], ca.pem)
					n = len(l)
				case "message":
					_, err = mixclient.FetchMessage(u.priv, []byte("id"), d.hosts[1], ca.pem)
				}
			})
			d.mu.Lock()
			d.reply = nil
			d.mu.Unlock()
			reqs := d.take()
			kind := strings.SplitN(r.name, "/", 2)[0]
			if r.fails && err == nil {
				t.Violation("hostile/accepted/"+op, fmt.Sprintf("reply %s was taken for a good one (%d entries)", r.name, n))
			}
			if err == nil && kind == "entry" && n != 3 {
				t.Violation("hostile/shortened", fmt.Sprintf("reply %s has three entries, the result %d and no error", r.name, n))
			}
			if op == "LoadAccount" && len(reqs) != 1 {
				t.Violation("hostile/paid-again", fmt.Sprintf("after reply %s the payment was sent %d times", r.name, len(reqs)))
			}
			if op != "LoadAccount" && (len(reqs) < 1 || len(reqs) > 4) {
				t.Violation("hostile/requests", fmt.Sprintf("reply %s: %d requests", r.name, len(reqs)))
			}
			t.Count("hostile/" + op + "/" + kind)
			t.Eval("hostile/" + op + "/" + r.name)
		}
	}
}

// foreign: servers without a certificate of the configured authority get nothing.
func foreign(t *mon.T, d *acctd, ca *ca) {
	other := newCA(t)
	good := d.cert
	set := func(c tls.Certificate) { d.mu.Lock(); d.cert = &c; d.mu.Unlock() }
	for name, c := range map[string]tls.Certificate{
		"authority": other.cert(t, false, "127.0.0.1", "127.0.0.2"), "name": ca.cert(t, false, "127.0.0.3", "mute.one"), "expired": ca.cert(t, true, "127.0.0.1", "127.0.0.2"),
	} {
		set(c)
		u := newUser(t)
		calls := map[string]func() error{
			"pay":    func() error { _, err := mixclient.PayAccount(u.priv, []byte("t"), d.hosts[0], ca.pem); return err },
			"paynew": func() error { _, err := mixclient.PayAccount(u.priv, []byte("t"), "", ca.pem); return err },
			"stat":   func() error { _, err := mixclient.AccountStat(u.priv, d.hosts[0], ca.pem); return err },
			"list":   func() error { _, err := mixclient.ListMessages(u.priv, 0, d.hosts[1], ca.pem); return err },
			"fetch":  func() error { _, err := mixclient.FetchMessage(u.priv, []byte("x"), d.hosts[1], ca.pem); return err },
			"delete": func() error { return mixclient.DeleteAccount(u.priv, d.hosts[0], ca.pem) },
			"keys":   func() error { _, err := mixclient.GetMixKeys("mix@127.0.0.1", ca.pem); return err },
			"revoke": func() error { _, err := mixclient.RevokeMessage([]byte("x"), "mix@127.0.0.1", ca.pem); return err },
		}
		d.mu.Lock()
		d.keys, d.revoke = `{}`, "REVOKED\n"
		d.mu.Unlock()
		mixclient.GetMixAddress = func(string) (string, error) { return d.hosts[0] + ":" + d.port, nil }
		for call, f := range calls {
			var err error
			t.NoPanic("crash/foreign", call, func() { err = f() })
			reqs := d.take()
			if err == nil || len(reqs) > 0 {
				t.Violation("foreign/"+call, fmt.Sprintf("server with a bad certificate (%s): error %v, it got %d requests", name, err, len(reqs)))
			}
			t.Count("foreign/" + name)
			t.Eval("foreign/" + name + "/" + call)
		}
	}
	set(*good)
}

// mixCalls: keys, nym addresses made from them, revocations.
func mixCalls(t *mon.T, d *acctd, ca *ca) {
	mixclient.GetMixAddress = func(string) (string, error) { return d.hosts[0] + ":" + d.port, nil }
	util.MixAddress = "mix@127.0.0.1"
	for i := 0; i < t.N(12, 100); i++ {
		rng := t.Rand("keys", i)
		kl := mixaddr.New(mustKey(t), "mix@mute.one", 48*60*60, 24*60*60, t.TempDir(fmt.Sprint("keys", i)))
		if kl == nil {
			t.Fatalf("no key list")
		}
		kl.AddKey()
		stmt := kl.GetStatement()
		js, err := json.Marshal(stmt)
		t.Must(err, "json")
		d.mu.Lock()
		d.keys = string(js)
		d.mu.Unlock()
		got, err := mixclient.GetMixKeys("mix@127.0.0.1", ca.pem)
		if err != nil || !got.Verify() || !reflect.DeepEqual(got.Addresses, stmt.Addresses) {
			t.Violation("keys", fmt.Sprintf("GetMixKeys: %v, statement differs or does not verify", err))
		}
		t.Eval(fmt.Sprint("keys/", i))
		// a nym address made from them reaches the owner
		secret := make([]byte, 64)
		crand.Read(secret)
		u := newUser(t)
		expire := time.Now().Unix() + 3600
		single := rng.Intn(2) == 0
		server := "accounts" + fmt.Sprint(rng.Intn(10)) + "." + mixcrypt.MuteSystemDomain
		mixAddress, enc, err := util.NewNymAddress("mute.one", secret, expire, single, 10, 20, "alice@mute.one", &u.pub, server, ca.pem)
		if err != nil {
			t.Violation("nymaddress", fmt.Sprintf("NewNymAddress: %v", err))
			continue
		}
		raw, err := base64.StdEncoding.DecodeString(enc)
		if err != nil {
			t.Violation("nymaddress", fmt.Sprintf("nym address is not base64: %v", err))
			continue
		}
		if mixAddress != "mix@mute.one" {
			t.Violation("nymaddress", fmt.Sprintf("mix address is %q", mixAddress))
		}
		body := make([]byte, 4096+rng.Intn(3000))
		crand.Read(body)
		cm := &mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: []byte("token")}
		relay, to, err := cm.NewRelayMessage(raw, body)
		if err != nil || to != mixAddress {
			t.Violation("nymaddress/relay", fmt.Sprintf("NewRelayMessage to the nym address: %v, to %q", err, to))
			continue
		}
		rs, err := mixcrypt.ReceiveMessage(kl.GetPrivateKey, relay)
		if err != nil {
			t.Violation("nymaddress/mix", fmt.Sprintf("the mix refuses: %v", err))
			continue
		}
		out, addr, err := rs.Send()
		if err != nil || !strings.HasPrefix(addr, hex.EncodeToString(u.pub[:])+"@") || !strings.HasSuffix(addr, server) {
			t.Violation("nymaddress/mailbox", fmt.Sprintf("the mix sends to %q (%v), the mailbox is at %s", addr, err, server))
			continue
		}
		tmpl := nymaddr.AddressTemplate{Secret: secret}
		dec, nym, err := mixcrypt.ReceiveFromMix(tmpl, util.MailboxAddress(&u.pub, server), out)
		if err != nil || !bytes.Equal(dec, body) || len(nym) != 32 {
			t.Violation("nymaddress/receive", fmt.Sprintf("the owner cannot read the message: %v", err))
		}
		t.Count("nymaddress")
		t.Eval(fmt.Sprint("nymaddress/", i))
	}
	for i, body := range []string{"REVOKED", "REVOKED\n", "REVOKED x", "REVOKE", "revoked", "", "ERROR: nothing", "ERROR", "NOT REVOKED", "OK", "ERROR: REVOKED", "\x00"} {
		for k := 0; k < 3; k++ {
			id := make([]byte, 32)
			crand.Read(id)
			d.take()
			d.mu.Lock()
			d.revoke = body
			d.mu.Unlock()
			var ok bool
			var err error
			t.NoPanic("crash/revoke", body, func() { ok, err = mixclient.RevokeMessage(id, "mix@127.0.0.1", ca.pem) })
			if want := strings.HasPrefix(body, "REVOKED"); ok != want || (err == nil) != want {
				t.Violation("revoke", fmt.Sprintf("mix answers %q: revoked %v, error %v", body, ok, err))
			}
			if r := d.take(); len(r) != 1 || !bytes.Equal(r[0].msgid, id) {
				t.Violation("revoke/id", "another message was revoked")
			}
			t.Count("revoke")
			t.Eval(fmt.Sprintf("revoke/%d/%d", i, k))
		}
	}
}

func mustKey(t *mon.T) *[64]byte {
	return newUser(t).priv
}

// tokens: altered authentication tokens are refused.
func tokens(t *mon.T) {
	for i := 0; i < t.N(3, 20); i++ {
		u, v := newUser(t), newUser(t)
		tok := walletauth.CreateToken(&u.pub, u.priv, uint64(i)*77)
		check := func(name string, b []byte, want bool) {
			var err error
			var pk *[32]byte
			t.NoPanic("crash/token", name, func() { pk, _, _, err = walletauth.AuthToken(b).CheckToken() })
			if (err == nil) != want || (want && *pk != u.pub) {
				t.Violation("token/"+name, fmt.Sprintf("CheckToken: %v", err))
			}
			t.Count("token/" + name)
			t.Eval(fmt.Sprintf("token/%d/%s/%x", i, name, len(b)))
		}
		check("good", tok, true)
		for p := 0; p < len(tok); p++ {
			b := append([]byte{}, tok...)
			b[p] ^= 1 << uint(p%8)
			check("altered", b, false)
		}
		for _, n := range []int{0, 1, 31, 79, 80, 143} {
			check("short", tok[:n], false)
		}
		check("long", append(append([]byte{}, tok...), 0), false)
		check("foreign", walletauth.CreateToken(&u.pub, v.priv, 5), false)
		b := append([]byte{}, walletauth.CreateToken(&v.pub, v.priv, 5)...)
		copy(b, u.pub[:])
		check("claimed", b, false)
	}
}
