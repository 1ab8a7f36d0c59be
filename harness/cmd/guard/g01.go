package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha256"
	"database/sql"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	_ "github.com/mutecomm/go-sqlcipher/v4"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"verif/harness/mon"
)

var g01 = &mon.Prop{
	Level: "exploration",
	Rule: "tokens of trusted, untrusted and expired keys for every kind of owner, presented to a client; every field altered, moved, cut, extended and exchanged; keys looked up at a server which gives other keys, altered keys, errors and malformed replies; " +
		"one evaluation is one presented token, with the verdict compared with an independent verification",
	MinEvents: 1500,
	Run:       runG01,
}

func openDB(t *mon.T, file string) *sql.DB {
	db, err := sql.Open("sqlite3", file)
	t.Must(err, "open database")
	return db
}

type wallet struct {
	pub  [32]byte
	priv [64]byte
}

func newWallet(t *mon.T) *wallet {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	t.Must(err, "wallet key")
	w := new(wallet)
	copy(w.pub[:], pub)
	copy(w.priv[:], priv)
	return w
}

// errs are the errors which mean that nothing was accepted.
var errs = map[error]bool{client.ErrRetry: true, client.ErrOffline: true, client.ErrFinal: true, client.ErrFatal: true}

func runG01(t *mon.T) {
	n := newNet(t)
	defer n.close()
	client.TrustRoot = &n.rootPub
	for c := 0; c < t.N(6, 60); c++ {
		authenticity(t, n, c)
	}
	verifyLists(t, n)
}

func authenticity(t *mon.T, n *guardNet, c int) {
	rng := t.Rand("g01", c)
	n.mu.Lock()
	n.trusted, n.extra = nil, make(map[[32]byte][]byte)
	n.mu.Unlock()
	n.setHook(nil)
	now := time.Now().Unix()
	a, b, bad := n.issuer(true), n.issuer(true), n.issuer(false)
	good := []*keyPair{a.key("UID", now+86400), b.key("Message", now+3600), a.key("UID", now+30*86400)}
	old := []*keyPair{a.key("UID", now-1), b.key("Message", now-86400*400)}
	foreign := bad.key("UID", now+86400)
	// a key which claims to be of a trusted issuer
	forged := bad.key("UID", now+86400)
	forged.Signer = append([]byte{}, a.pub[:]...)
	bad.sign(forged)
	me, other := newWallet(t), newWallet(t)
	dir := t.TempDir("g01")
	db := openDB(t, filepath.Join(dir, "wallet.db"))
	defer db.Close()
	ws, err := walletstore.New(db)
	t.Must(err, "wallet store")
	var backends []types.Backend
	switch c % 3 {
	case 0:
		backends = []types.Backend{{Type: "database", Value: db}}
	case 1:
		backends = []types.Backend{{Type: "keydir", Value: filepath.Join(dir, "keys")}}
	}
	cl, err := client.New(backends, ws, &me.priv, cacert)
	t.Must(err, "client")
	// offline, no key is known
	tok := good[0].by.issue(good[0], &me.pub)
	if _, err := cl.Verify(tok); err != client.ErrOffline {
		t.Violation("offline/unknown-key", fmt.Sprint(err))
	}
	t.Eval("offline")
	cl.GoOnline()
	t.Must(cl.GetVerifyKeys(), "verification keys")
	n.take()

	known := map[string]bool{} // hashes of received tokens
	// judge presents a token and compares the verdict.
	judge := func(kind string, tok []byte, k *keyPair, valid bool) {
		t.Case(map[string]interface{}{"kind": kind, "token": hex.EncodeToString(tok)})
		t.Eval("token/" + kind)
		if kind == "forged/algebraic" {
			if _, err := cl.Verify(tok); err == nil {
				t.Violation(kind, hex.EncodeToString(tok))
			}
			return
		}
		var e *client.TokenEntry
		var err error
		if !t.NoPanic("panic/"+strings.SplitN(kind, "/", 2)[0], hex.EncodeToString(tok), func() { e, err = cl.Verify(tok) }) {
			return
		}
		if !valid {
			t.Count("refused")
			if err == nil {
				t.Violation("accepted/"+kind, hex.EncodeToString(tok))
			} else if e != nil || !errs[err] {
				t.Violation("refusal/"+kind, fmt.Sprint(e, err))
			}
			before := count(t, db)
			t.NoPanic("panic-receive/"+strings.SplitN(kind, "/", 2)[0], hex.EncodeToString(tok), func() {
				if cl.ReceiveToken(k.Usage, tok) == nil {
					t.Violation("received/"+kind, hex.EncodeToString(tok))
				}
			})
			if count(t, db) != before {
				t.Violation("stored/"+kind, hex.EncodeToString(tok))
			}
			return
		}
		t.Count("accepted")
		if err != nil {
			t.Violation("refused/"+kind, fmt.Sprintf("%v (%v) %x", err, cl.LastError, tok))
			return
		}
		w, _ := parseToken(tok)
		want := &client.TokenEntry{Hash: w.hash(), Token: tok, OwnerPubKey: w.owner(), Usage: k.Usage, Expire: k.Expire}
		if !reflect.DeepEqual(e, want) {
			t.Violation("entry/"+kind, fmt.Sprintf("%+v\n%+v", e, want))
		}
		// receive it
		mine := w.owner() != nil && *w.owner() == me.pub
		before := count(t, db)
		var er error
		t.NoPanic("panic-receive/"+strings.SplitN(kind, "/", 2)[0], hex.EncodeToString(tok), func() { er = cl.ReceiveToken(k.Usage+"x", tok) })
		if er == nil {
			t.Violation("receive/usage", kind)
		}
		if !t.NoPanic("panic-receive/"+strings.SplitN(kind, "/", 2)[0], hex.EncodeToString(tok), func() { er = cl.ReceiveToken(k.Usage, tok) }) {
			return
		}
		h := string(w.hash())
		if want := mine && !known[h]; (er == nil) != want {
			t.Violation("receive/"+kind, fmt.Sprintf("mine %v known %v: %v", mine, known[h], er))
		}
		add := 0
		if er == nil {
			known[h] = true
			add = 1
			if cl.ReceiveToken(k.Usage, tok) == nil {
				t.Violation("receive/twice", kind)
			}
			s, err := ws.GetToken(w.hash(), -1)
			if err != nil || !bytes.Equal(s.Token, tok) || s.Usage != k.Usage || s.Expire != k.Expire || s.OwnerPubKey == nil || *s.OwnerPubKey != me.pub {
				t.Violation("receive/stored", fmt.Sprintf("%+v %v", s, err))
			}
		}
		if d := count(t, db) - before; d != add {
			t.Violation("receive/rows", fmt.Sprintf("%s: %d rows more", kind, d))
		}
	}

	owners := []struct {
		name string
		pub  *[32]byte
	}{{"mine", &me.pub}, {"other", &other.pub}, {"nobody", nil}}
	for _, o := range owners {
		for i, k := range good {
			judge(fmt.Sprintf("honest/%s", o.name), k.by.issue(k, o.pub), k, true)
			if i == 0 {
				// alterations
				alterations(t, rng, judge, good, o.pub)
			}
		}
		for _, k := range old {
			judge("expired/"+o.name, k.by.issue(k, o.pub), k, false)
		}
		judge("untrusted/"+o.name, bad.issue(foreign, o.pub), foreign, false)
		judge("false-signer/"+o.name, bad.issue(forged, o.pub), forged, false)
	}
	// replies of the lookup: the key which is asked for is not what comes
	lookups(t, n, rng, judge, cl, a, b, bad, &me.pub)
	cl.GoOffline()
	// offline, known keys are enough
	judge("offline-known", good[1].by.issue(good[1], &me.pub), good[1], true)
}

func count(t *mon.T, db *sql.DB) int {
	var c int
	t.Must(db.QueryRow("SELECT COUNT(*) FROM walletTokens").Scan(&c), "count")
	return c
}

// alterations presents altered tokens.
func alterations(t *mon.T, rng *rand.Rand, judge func(string, []byte, *keyPair, bool), keys []*keyPair, owner *[32]byte) {
	k, k2 := keys[0], keys[1]
	fresh := func() *tokenW {
		w, err := parseToken(k.by.issue(k, owner))
		t.Must(err, "parse")
		return w
	}
	// verdict of the independent verification
	present := func(kind string, w *tokenW) {
		judge(kind, w.enc(t), k, w.wellFormed() && bytes.Equal(w.KeyID, k.id[:]) && w.signedBy(k.x, k.y))
	}
	fields := func(w *tokenW) map[string]*[]byte {
		return map[string]*[]byte{"KeyID": &w.KeyID, "Nonce": &w.Nonce, "Owner": &w.Owner, "PointRX": &w.PointRX, "PointRY": &w.PointRY, "ScalarS": &w.ScalarS, "ScalarR": &w.ScalarR}
	}
	for _, f := range []string{"KeyID", "Nonce", "Owner", "PointRX", "PointRY", "ScalarS", "ScalarR"} {
		for i := 0; i < 3; i++ {
			w := fresh()
			p := fields(w)[f]
			b := append([]byte{}, *p...)
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
			*p = b
			present("flip/"+f, w)
		}
		for _, e := range []string{"empty", "cut", "extended", "front", "zero", "long"} {
			w := fresh()
			p := fields(w)[f]
			switch e {
			case "empty":
				*p = []byte{}
			case "cut":
				*p = (*p)[:len(*p)-1]
			case "extended":
				*p = append(append([]byte{}, *p...), byte(rng.Intn(256)))
			case "front":
				*p = append([]byte{0}, *p...)
			case "zero":
				*p = make([]byte, len(*p))
			case "long":
				*p = append(append([]byte{}, *p...), make([]byte, 5000)...)
			}
			present(e+"/"+f, w)
		}
	}
	// the flag for owned tokens
	w := fresh()
	w.Flag = !w.Flag
	present("flag", w)
	// the signature of another token, and of another key
	v := fresh()
	w = fresh()
	w.PointRX, w.PointRY, w.ScalarR, w.ScalarS = v.PointRX, v.PointRY, v.ScalarR, v.ScalarS
	present("signature/other", w)
	w = fresh()
	w.KeyID = append([]byte{}, k2.id[:]...)
	judge("key/other", w.enc(t), k2, false)
	w = fresh()
	k2.by.signToken(k2, w)
	present("signature/other-key", w)
	// bytes moved over the borders between fields: the hash stays
	for _, d := range []int{1, 16, -1, -15} {
		w = fresh()
		all := append(append([]byte{}, w.Nonce...), w.Owner...)
		w.Nonce, w.Owner = all[:16+d], all[16+d:]
		present("moved/nonce-owner", w)
		w = fresh()
		// the owner is chosen through the nonce, before the token is signed
		w.Nonce = append(append([]byte{}, w.Nonce...), w.Owner[:8]...)
		w.Owner = w.Owner[8:]
		k.by.signToken(k, w)
		present("moved/signed", w)
	}
	w = fresh()
	w.KeyID, w.Flag, w.Nonce = append(append([]byte{}, w.KeyID...), 1), true, append([]byte{}, w.Nonce[1:]...)
	present("moved/keyid", w)
	// the same scalars modulo the order
	w = fresh()
	w.ScalarS = new(big.Int).Add(new(big.Int).SetBytes(w.ScalarS), p256.Params().N).Bytes()
	present("order/ScalarS", w)
	// zero scalars
	w = fresh()
	w.ScalarS, w.ScalarR = nil, nil
	present("zero/scalars", w)
	// the basepoint, negated R
	w = fresh()
	w.PointRX, w.PointRY = p256.Params().Gx.Bytes(), p256.Params().Gy.Bytes()
	present("point/base", w)
	w = fresh()
	w.PointRY = new(big.Int).Sub(p256.Params().P, new(big.Int).SetBytes(w.PointRY)).Bytes()
	present("point/negated", w)
	// a signature computed from the public key alone
	w = fresh()
	crand.Read(w.Nonce)
	w.PointRX, w.PointRY, w.ScalarR, w.ScalarS = k.x.Bytes(), k.y.Bytes(), w.signed(), nil
	judge("forged/algebraic", w.enc(t), k, false)
	// no tokens at all
	tok := k.by.issue(k, owner)
	for i := 0; i < 12; i++ {
		judge("cut", tok[:rng.Intn(len(tok))], k, false)
	}
	junk := make([]byte, rng.Intn(300))
	rng.Read(junk)
	judge("junk", junk, k, false)
	judge("junk", nil, k, false)
	// bits of the whole encoding
	for i := 0; i < 25; i++ {
		b := append([]byte{}, tok...)
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		w, err := parseToken(b)
		if err != nil {
			judge("bit", b, k, false)
			continue
		}
		judge("bit", b, k, w.wellFormed() && bytes.Equal(w.KeyID, k.id[:]) && w.signedBy(k.x, k.y))
	}
}

// lookups has the lookup server give all kinds of keys.
func lookups(t *mon.T, n *guardNet, rng *rand.Rand, judge func(string, []byte, *keyPair, bool), cl *client.Client, a, b, bad *issuer, me *[32]byte) {
	now := time.Now().Unix()
	set := func(k *keyPair, enc []byte) {
		n.mu.Lock()
		n.extra[k.id] = enc
		n.mu.Unlock()
	}
	altered := func(k *keyPair, f func(p *pubW)) []byte {
		p := k.pubW
		f(&p)
		return p.enc(t)
	}
	kinds := []struct {
		name string
		enc  func(k *keyPair) []byte
	}{
		{"other-key", func(k *keyPair) []byte { return b.key("Message", now+86400).enc }},
		{"other-key-untrusted", func(k *keyPair) []byte { return bad.key("UID", now+86400).enc }},
		{"resigned", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) { p.Signature = ed25519.Sign(bad.priv, p.KeyID) })
		}},
		{"resigned-signer", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) {
				p.Signer = append([]byte{}, bad.pub[:]...)
				p.KeyID = p.calcID()
				p.Signature = ed25519.Sign(bad.priv, p.KeyID)
			})
		}},
		{"claimed-id", func(k *keyPair) []byte {
			// another good key which claims the asked key id
			o := b.key("Message", now+86400)
			return altered(o, func(p *pubW) { p.KeyID = k.KeyID })
		}},
		{"expire", func(k *keyPair) []byte { return altered(k, func(p *pubW) { p.Expire += 86400 }) }},
		{"usage", func(k *keyPair) []byte { return altered(k, func(p *pubW) { p.Usage = "Message" }) }},
		{"x", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) { p.PublicKeyX = append([]byte{}, b.key("Message", now+9).PublicKeyX...) })
		}},
		{"moved-coordinates", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) {
				all := append(append([]byte{}, p.PublicKeyX...), p.PublicKeyY...)
				p.PublicKeyX, p.PublicKeyY = all[:len(all)/2-1], all[len(all)/2-1:]
			})
		}},
		{"no-coordinates", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) { p.PublicKeyX, p.PublicKeyY = nil, nil })
		}},
		{"short-fields", func(k *keyPair) []byte {
			return altered(k, func(p *pubW) { p.Signature = p.Signature[:40] })
		}},
		{"no-fields", func(k *keyPair) []byte { return altered(k, func(p *pubW) { *p = pubW{} }) }},
		{"junk", func(k *keyPair) []byte { return []byte("junk") }},
		{"empty", func(k *keyPair) []byte { return nil }},
		{"cut", func(k *keyPair) []byte { return k.enc[:rng.Intn(len(k.enc))] }},
	}
	for _, kind := range kinds {
		k := a.key("UID", now+86400)
		set(k, kind.enc(k))
		judge("lookup-"+kind.name, a.issue(k, me), k, false)
		// a token signed with the key which was given
		if kind.name == "other-key" {
			o := b.key("Message", now+86400)
			k := a.key("UID", now+86400)
			set(k, o.enc)
			w, _ := parseToken(a.issue(k, me))
			b.signToken(o, w)
			judge("lookup-signed-by-other", w.enc(t), o, false)
		}
		n.mu.Lock()
		delete(n.extra, k.id)
		n.mu.Unlock()
		// the right key later
		judge("lookup-later", a.issue(k, me), k, true)
	}
	// replies which are no keys
	for i, f := range badReplies("Key") {
		k := a.key("UID", now+86400)
		n.setHook(func(c *call) fault {
			if c.method == "PublicService.LookupKey" {
				return f
			}
			return fault{}
		})
		tok := a.issue(k, me)
		judge(fmt.Sprintf("reply/%s-%d", f.kind, i), tok, k, false)
		_, err := cl.Verify(tok)
		if want := client.ErrRetry; f.kind == "error" && f.text == "keylookup: key not found" {
			if err != client.ErrFinal {
				t.Violation("reply/final", fmt.Sprint(err))
			}
		} else if err != want && !(f.kind == "result" && err == client.ErrFatal) {
			t.Violation("reply/retry", fmt.Sprintf("%+v: %v", f, err))
		}
		n.setHook(nil)
		judge("reply/later", tok, k, true)
	}
}

// badReplies are replies of a server whose result has a field, which are
// useless.
func badReplies(field string) []fault {
	r := func(v interface{}) fault { return fault{kind: "result", res: map[string]interface{}{field: v}} }
	return []fault{
		{kind: "before"}, {kind: "after"}, {kind: "status"}, {kind: "error", text: "keylookup: server error"},
		{kind: "error", text: "keylookup: key not found"}, {kind: "error", text: "unheard of"}, {kind: "error", text: ""},
		{kind: "raw", text: ""}, {kind: "raw", text: "null"}, {kind: "raw", text: "{}"}, {kind: "raw", text: "[]"}, {kind: "raw", text: `{"result":null,"id":1}`},
		{kind: "raw", text: `{"jsonrpc":"2.0","result":[1],"id":1}`}, {kind: "raw", text: "<html>"},
		{kind: "result", res: map[string]interface{}{}}, {kind: "result", res: map[string]interface{}{"Other": "x"}},
		r(nil), r(1), r(true), r(1.5), r([]string{"x"}), r(map[string]string{"a": "b"}), r("%%%"), r("abc"),
	}
}

// verifyLists has the server give all kinds of lists of verification keys.
func verifyLists(t *mon.T, n *guardNet) {
	n.setHook(nil)
	n.mu.Lock()
	n.trusted = nil
	n.mu.Unlock()
	rng := t.Rand("lists")
	good := n.issuer(true)
	evil := n.issuer(false)
	_, evilPriv, _ := ed25519.GenerateKey(crand.Reader)
	me := newWallet(t)
	now := time.Now().Unix()
	gk, ek := good.key("UID", now+86400), evil.key("UID", now+86400)
	hx := func(k [32]byte) string { return hex.EncodeToString(k[:]) }
	base := func() map[string]interface{} { return n.verifyKeys(hx(good.pub)) }
	with := func(k string, v interface{}) map[string]interface{} { m := base(); m[k] = v; return m }
	without := func(k string) map[string]interface{} { m := base(); delete(m, k); return m }
	evilList := hx(good.pub) + ", " + hx(evil.pub)
	cases := []struct {
		name string
		f    fault
		want string // good: the good key is trusted; both; none: an error
	}{
		{"honest", fault{kind: "result", res: base()}, "good"},
		{"both", fault{kind: "result", res: n.verifyKeys(evilList)}, "both"},
		{"evil-list", fault{kind: "result", res: with("KeyList", evilList)}, "none"},
		{"evil-signature", fault{kind: "result", res: map[string]interface{}{"PublicKey": hx(n.rootPub), "KeyList": evilList, "Signature": hex.EncodeToString(ed25519.Sign(evilPriv, []byte(evilList)))}}, "none"},
		{"evil-root", fault{kind: "result", res: map[string]interface{}{"PublicKey": hex.EncodeToString(evilPriv[32:]), "KeyList": evilList, "Signature": hex.EncodeToString(ed25519.Sign(evilPriv, []byte(evilList)))}}, "none"},
		{"empty-list", fault{kind: "result", res: n.verifyKeys("")}, "zero"},
		{"short-key", fault{kind: "result", res: n.verifyKeys(hx(good.pub) + ", " + hx(evil.pub)[:62])}, "zero"},
		{"long-key", fault{kind: "result", res: n.verifyKeys(hx(good.pub) + ", " + hx(evil.pub) + "00")}, "zero"},
	}
	for _, f := range []string{"PublicKey", "Signature", "KeyList"} {
		cases = append(cases, struct {
			name string
			f    fault
			want string
		}{"without-" + f, fault{kind: "result", res: without(f)}, "none"})
		for i, v := range []interface{}{nil, 1, true, []int{1}, map[string]int{}, "", "zz", "00"} {
			want := "none"
			cases = append(cases, struct {
				name string
				f    fault
				want string
			}{fmt.Sprintf("type-%s-%d", f, i), fault{kind: "result", res: with(f, v)}, want})
		}
	}
	for _, f := range badReplies("KeyList")[:14] {
		cases = append(cases, struct {
			name string
			f    fault
			want string
		}{"bad-" + f.kind, f, "none"})
	}
	for i := 0; i < 20; i++ {
		m := base()
		f := []string{"PublicKey", "Signature", "KeyList"}[i%3]
		s := []byte(m[f].(string))
		p := rng.Intn(len(s))
		s[p] = "0123456789abcdef"[(strings.IndexByte("0123456789abcdef", s[p])+1+rng.Intn(15))%16]
		m[f] = string(s)
		cases = append(cases, struct {
			name string
			f    fault
			want string
		}{"digit-" + f, fault{kind: "result", res: m}, "none"})
	}
	// a key which anybody can sign for, if the zero key is trusted
	zero := newIssuer(t)
	zero.pub = [32]byte{}
	var zk *keyPair
	for i := 0; zk == nil; i++ {
		k := zero.key("UID", now+86400+int64(i))
		sig := make([]byte, 64)
		sig[0] = 1 // R is the neutral element, s = 0
		if ed25519.Verify(zero.pub[:], k.KeyID, sig) {
			k.Signature = sig
			k.enc = k.pubW.enc(t)
			zk = k
		}
	}
	for _, c := range cases {
		t.Case(c.name)
		t.Eval("list/" + c.name)
		dir := t.TempDir("g01l")
		db := openDB(t, filepath.Join(dir, "wallet.db"))
		ws, err := walletstore.New(db)
		t.Must(err, "wallet store")
		cl, err := client.New(nil, ws, &me.priv, cacert)
		t.Must(err, "client")
		f := c.f
		n.setHook(func(q *call) fault {
			if q.method == "PublicService.VerifyKeys" {
				return f
			}
			return fault{}
		})
		n.mu.Lock()
		n.extra[zk.id] = zk.enc
		n.mu.Unlock()
		t.NoPanic("panic-list/"+c.name, f.res, func() {
			cl.GoOnline()
			err := cl.GetVerifyKeys()
			if (err != nil) != (c.want == "none") && c.want != "zero" {
				t.Violation("list-error/"+c.name, fmt.Sprint(err))
			}
			_, e1 := cl.Verify(good.issue(gk, &me.pub))
			_, e2 := cl.Verify(evil.issue(ek, &me.pub))
			_, e3 := cl.Verify(zero.issue(zk, &me.pub))
			if (e1 == nil) != (c.want == "good" || c.want == "both") && c.want != "zero" {
				t.Violation("list-good/"+c.name, fmt.Sprint(e1))
			}
			if (e2 == nil) != (c.want == "both") {
				t.Violation("list-evil/"+c.name, fmt.Sprint(e2))
			}
			if e3 == nil {
				t.Violation("list-zero/"+c.name, "a key which nobody signed is trusted")
			}
			t.Count("lists")
		})
		// the keys are still there when the client is used again, offline
		if c.want == "good" || c.want == "both" {
			db.Close()
			db = openDB(t, filepath.Join(dir, "wallet.db"))
			ws, err = walletstore.New(db)
			t.Must(err, "wallet store")
			got := ws.GetVerifyKeys()
			want := [][32]byte{good.pub}
			if c.want == "both" {
				want = append(want, evil.pub)
			}
			if !reflect.DeepEqual(got, want) {
				t.Violation("list-kept/"+c.name, fmt.Sprintf("%x instead of %x", got, want))
			}
		}
		db.Close()
	}
	n.setHook(nil)
	_ = sha256.New
}
