package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"reflect"
	"time"

	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/packetproto"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/jjm"
	"verif/harness/mon"
)

var g02 = &mon.Prop{
	Level: "exploration",
	Rule: "reissues of tokens with every kind of old and new owner against an issuer of the harness which checks requests without code of the repository; altered parameters, replies and stored states; altered packets; calls to issuers with all malformed replies; " +
		"one evaluation is one reissue, packet or call which was judged",
	MinEvents: 1500,
	Run:       runG02,
}

func runG02(t *mon.T) {
	n := newNet(t)
	defer n.close()
	for c := 0; c < t.N(40, 400); c++ {
		blind(t, n, c)
	}
	for c := 0; c < t.N(60, 600); c++ {
		packets(t, c)
	}
	guardCalls(t, n)
}

// newProto returns a client which trusts the issuers.
func newProto(t *mon.T, is ...*issuer) *packetproto.Client {
	c, err := packetproto.New(nil)
	t.Must(err, "packetproto")
	for _, i := range is {
		p := i.pub
		c.AddVerifyKey(&p)
	}
	return c
}

func blind(t *mon.T, n *guardNet, c int) {
	rng := t.Rand("g02", c)
	now := time.Now().Unix()
	i, j, bad := newIssuer(t), newIssuer(t), newIssuer(t)
	key := i.key("UID", now+86400)
	cl := newProto(t, i, j)
	_, err := cl.Keypool.LoadKey(key.pubKey())
	t.Must(err, "load key")
	old, nw := newWallet(t), newWallet(t)
	ownerOf := func(k int) (*[32]byte, *[64]byte) {
		if k == 0 {
			return nil, nil
		}
		return &old.pub, &old.priv
	}
	o, op := ownerOf(c % 2)
	newOwner := &nw.pub
	if c%4 >= 2 {
		newOwner = nil
	}
	pkey := key
	if c%3 != 0 { // the issuer's key has changed meanwhile
		pkey = i.key("UID", now+2*86400)
	}
	can := c%5 == 0
	tok := i.issue(key, o)
	params := i.newParams(pkey, can)
	t.Case(map[string]interface{}{"owner": o != nil, "new": newOwner != nil})
	t.Eval(fmt.Sprintf("reissue/%v/%v", o != nil, newOwner != nil))
	packet, local, err := cl.Reissue(tok, op, newOwner, params)
	if err != nil {
		t.Violation("reissue/refused", fmt.Sprint(err))
		return
	}
	// the packet
	r := new(reissueW)
	rest, err := asn1.Unmarshal(packet, r)
	if err != nil || len(rest) > 0 || r.CallType != types.CallTypeReissue || !bytes.Equal(r.Token, tok) || !bytes.Equal(r.Params, params) {
		t.Violation("packet/contents", fmt.Sprintf("%v %+v", err, r))
	}
	if o == nil && !bytes.Equal(r.Signature, []byte{0}) {
		t.Violation("packet/unsigned", hex.EncodeToString(r.Signature))
	}
	if o != nil && !ed25519.Verify(o[:], r.image(), r.Signature) {
		t.Violation("packet/signature", hex.EncodeToString(r.Signature))
	}
	h := sha256.Sum256(r.image())
	if local.CanReissue != can || !bytes.Equal(local.RequestHash, h[:]) || !bytes.Equal(local.Request, packet) || !bytes.Equal(local.PublicKey, pkey.enc) {
		t.Violation("local/contents", fmt.Sprintf("%+v", local))
	}
	// state is kept by storing it
	lb, err := local.Marshal()
	t.Must(err, "marshal state")
	back, err := new(types.ReissuePacketPrivate).Unmarshal(lb)
	if err != nil || !reflect.DeepEqual(back, local) {
		t.Violation("local/stored", fmt.Sprint(err))
	}
	// what the issuer sees tells nothing about the new token
	lt, err := parseToken(local.Token)
	t.Must(err, "local token")
	for _, f := range [][]byte{lt.Nonce, lt.Owner, lt.hash(), lt.signed()} {
		if bytes.Contains(packet, f) {
			t.Violation("blind/visible", fmt.Sprintf("%x", f))
		}
	}
	sig, pk, err := i.reissue(packet)
	if err != nil {
		t.Violation("reissue/issuer", fmt.Sprint(err))
		return
	}
	if !bytes.Equal(pk, pkey.enc) {
		t.Fatalf("issuer")
	}
	// a second request with the same parameters is another one
	if p2, l2, err := cl.Reissue(tok, op, newOwner, params); err != nil || bytes.Equal(p2, packet) || bytes.Equal(l2.Token, local.Token) || bytes.Equal(l2.Factors, local.Factors) {
		t.Violation("blind/repeated", fmt.Sprint(err))
	} else {
		t2, _ := parseToken(l2.Token)
		if bytes.Equal(t2.Nonce, lt.Nonce) {
			t.Violation("blind/nonce", "")
		}
		if _, _, err := i.reissue(p2); err == nil {
			t.Fatalf("issuer accepts a double spend")
		}
	}
	new_, err := cl.Unblind(back, sig)
	if err != nil {
		t.Violation("unblind/refused", fmt.Sprint(err))
		return
	}
	w, err := parseToken(new_)
	if err != nil || !w.wellFormed() || !bytes.Equal(w.KeyID, pkey.KeyID) || !w.signedBy(pkey.x, pkey.y) || !bytes.Equal(w.Nonce, lt.Nonce) {
		t.Violation("unblind/token", fmt.Sprintf("%v %+v", err, w))
	} else if !reflect.DeepEqual(w.owner(), newOwner) {
		t.Violation("unblind/owner", fmt.Sprintf("%x instead of %x", w.owner(), newOwner))
	}
	for _, f := range [][]byte{w.PointRX, w.PointRY, w.ScalarR, w.ScalarS} {
		if len(f) > 8 && (bytes.Contains(packet, f) || bytes.Contains(sig, f)) {
			t.Violation("blind/signature-visible", fmt.Sprintf("%x", f))
		}
	}
	t.Count("reissued")

	// altered replies: never an invalid token
	unblind := func(kind string, st *types.ReissuePacketPrivate, sig []byte) {
		t.Eval("unblind/" + kind)
		t.Case(map[string]interface{}{"kind": kind, "reply": hex.EncodeToString(sig)})
		t.NoPanic("unblind-panic/"+kind, hex.EncodeToString(sig), func() {
			b, err := cl.Unblind(st, sig)
			if err != nil {
				t.Count("refused")
				return
			}
			w, err := parseToken(b)
			if err != nil || !w.wellFormed() || !w.signedBy(pkey.x, pkey.y) {
				t.Violation("unblind-invalid/"+kind, fmt.Sprintf("%x", b))
			}
		})
	}
	for k := 0; k < 6; k++ {
		b := append([]byte{}, sig...)
		b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		unblind("bit", back, b)
		unblind("cut", back, sig[:rng.Intn(len(sig))])
	}
	unblind("empty", back, nil)
	unblind("junk", back, []byte("junk"))
	{ // the issuer signs something else
		p2 := i.newParams(pkey, can)
		tk := i.issue(key, o)
		b, _, err := cl.Reissue(tk, op, newOwner, p2)
		t.Must(err, "reissue")
		s2, _, err := i.reissue(b)
		t.Must(err, "issuer")
		unblind("other", back, s2)
	}
	var bs jjm.BlindSignature
	if _, err := asn1.Unmarshal(sig, &bs); err == nil {
		bs.ScalarS1, bs.ScalarS2 = bs.ScalarS2, bs.ScalarS1
		b, _ := bs.Marshal()
		unblind("swapped", back, b)
		bs.PubKey = *j.key("UID", now+9).point()
		b, _ = bs.Marshal()
		unblind("other-signer", back, b)
	}
	st := *back
	st.Factors = st.Factors[:rng.Intn(len(st.Factors))]
	unblind("state-factors", &st, sig)
	st = *back
	st.Token = tok
	unblind("state-token", &st, sig)
	st = *back
	st.PublicKey = nil
	unblind("state-key", &st, sig)

	// requests which must be refused
	refuse := func(kind string, tok []byte, op *[64]byte, params []byte) {
		t.Eval("refuse/" + kind)
		t.Case(map[string]interface{}{"kind": kind, "params": hex.EncodeToString(params)})
		t.NoPanic("reissue-panic/"+kind, hex.EncodeToString(params), func() {
			if p, _, err := cl.Reissue(tok, op, newOwner, params); err == nil {
				t.Violation("reissue-accepted/"+kind, fmt.Sprintf("%x", p))
			}
		})
		t.Count("refused")
	}
	if o != nil {
		refuse("no-signer", tok, nil, params)
	}
	// keys which a token of the issuer may not be exchanged for
	pars := func(k *keyPair) []byte { return k.by.newParams(k, true) }
	refuse("other-usage", tok, op, pars(i.key("Message", now+86400)))
	refuse("other-issuer", tok, op, pars(j.key("UID", now+86400)))
	refuse("untrusted", tok, op, pars(bad.key("UID", now+86400)))
	ff := bad.key("UID", now+86400)
	ff.Signer = append([]byte{}, i.pub[:]...)
	bad.sign(ff)
	refuse("false-signer", tok, op, pars(ff))
	refuse("expired", tok, op, pars(i.key("UID", now-5)))
	refuse("unknown-token-key", i.issue(i.key("UID", now+77), o), op, params)
	refuse("junk-token", []byte("x"), op, params)
	refuse("junk-params", tok, op, []byte("x"))
	refuse("no-params", tok, op, nil)
	// altered parameters: an error, or the token which comes out is valid or refused
	p := new(types.Params)
	_, err = asn1.Unmarshal(params, p)
	t.Must(err, "parameters")
	for k := 0; k < 12; k++ {
		q := *p
		kind := "bit"
		off := *j.key("UID", now+9).point() // a point
		switch k {
		case 0:
			off.X = off.Y
			q.PublicParams.PointRs1, kind = off, "off-curve-1"
		case 1:
			off.Y = off.X
			q.PublicParams.PointRs2, kind = off, "off-curve-2"
		case 2:
			q.PublicParams.PointRs1, kind = off, "other-point"
		case 3:
			q.PublicParams.ScalarLs1, kind = q.PublicParams.ScalarLs2, "same-scalars"
		case 4:
			q.PublicParams.PointRs1, kind = q.PublicParams.PointRs2, "same-points"
		}
		b, err := asn1.Marshal(q)
		t.Must(err, "parameters")
		if kind == "bit" {
			b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
		}
		t.Eval("params/" + kind)
		t.Case(map[string]interface{}{"kind": kind, "params": hex.EncodeToString(b)})
		fresh := i.issue(key, o)
		t.NoPanic("params-panic/"+kind, hex.EncodeToString(b), func() {
			packet, local, err := cl.Reissue(fresh, op, newOwner, b)
			if err != nil {
				t.Count("refused")
				return
			}
			lk, err := new(keyReader).read(local.PublicKey)
			if err != nil || lk.Usage != "UID" || !bytes.Equal(lk.Signer, i.pub[:]) {
				t.Violation("params-key/"+kind, fmt.Sprintf("%+v", lk))
			}
			// an issuer which does not care signs
			r := new(reissueW)
			asn1.Unmarshal(packet, r)
			bm, err := jjm.NewBlindMessage(pkey.point()).Unmarshal(r.BlindToken)
			if err != nil {
				return
			}
			_, srv, err := jjm.NewGenericBlindingServer(pkey.priv, pkey.point(), curve).GetParams()
			t.Must(err, "parameters")
			s, err := jjm.NewGenericBlindingServer(pkey.priv, pkey.point(), curve).Sign(srv, bm.(jjm.BlindMessage))
			if err != nil {
				return
			}
			sb, _ := s.Marshal()
			out, err := cl.Unblind(local, sb)
			if err != nil {
				t.Count("refused")
				return
			}
			w, err := parseToken(out)
			if err != nil || !w.signedBy(pkey.x, pkey.y) {
				t.Violation("params-invalid/"+kind, fmt.Sprintf("%x", out))
			}
		})
	}
}

type keyReader struct{}

func (*keyReader) read(b []byte) (*pubW, error) {
	p := new(pubW)
	_, err := asn1.Unmarshal(b, p)
	return p, err
}

// packets checks the packets themselves.
func packets(t *mon.T, c int) {
	rng := t.Rand("g02p", c)
	bs := func(n int) []byte {
		b := make([]byte, rng.Intn(n)+1)
		rng.Read(b)
		return b
	}
	a, b := newWallet(t), newWallet(t)
	// spend
	cl := newProto(t)
	tok := bs(200)
	enc, err := cl.Spend(tok, &a.priv)
	t.Must(err, "spend")
	var s struct {
		CallType         int32
		Token, Signature []byte
	}
	_, err = asn1.Unmarshal(enc, &s)
	img := func(ct uint32, tok []byte) []byte {
		x := make([]byte, 8)
		binary.BigEndian.PutUint32(x, ct)
		h := sha256.Sum256(append(x, tok...))
		return h[:]
	}
	if err != nil || s.CallType != types.CallTypeSpend || !bytes.Equal(s.Token, tok) || !ed25519.Verify(a.pub[:], img(types.CallTypeSpend, tok), s.Signature) {
		t.Violation("spend/packet", fmt.Sprintf("%v %x", err, enc))
	}
	t.Eval("spend")
	sp, err := new(types.SpendPacket).Unmarshal(enc)
	t.Must(err, "spend")
	verdict := func(kind string, want bool, f func() error) {
		t.Eval("verify/" + kind)
		var err error
		if t.NoPanic("verify-panic/"+kind, nil, func() { err = f() }) && (err == nil) != want {
			t.Violation("verify/"+kind, fmt.Sprint(err))
		}
	}
	alter := func(p *types.SpendPacket, f func(p *types.SpendPacket)) *types.SpendPacket {
		q := *p
		q.Token = append([]byte{}, p.Token...)
		q.Signature = append([]byte{}, p.Signature...)
		f(&q)
		return &q
	}
	flip := func(b []byte) { b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8)) }
	verdict("spend", true, func() error { return sp.Verify(&a.pub) })
	verdict("spend-other", false, func() error { return sp.Verify(&b.pub) })
	verdict("spend-no-key", false, func() error { return sp.Verify(nil) })
	verdict("spend-token", false, func() error { return alter(sp, func(p *types.SpendPacket) { flip(p.Token) }).Verify(&a.pub) })
	verdict("spend-signature", false, func() error { return alter(sp, func(p *types.SpendPacket) { flip(p.Signature) }).Verify(&a.pub) })
	verdict("spend-type", false, func() error {
		return alter(sp, func(p *types.SpendPacket) { p.CallType = types.CallTypeReissue }).Verify(&a.pub)
	})
	verdict("spend-unsigned", false, func() error {
		return alter(sp, func(p *types.SpendPacket) { p.Signature = []byte{0} }).Verify(&a.pub)
	})
	verdict("spend-empty", false, func() error { return alter(sp, func(p *types.SpendPacket) { p.Signature = nil }).Verify(&a.pub) })
	verdict("spend-empty-nobody", false, func() error { return alter(sp, func(p *types.SpendPacket) { p.Signature = nil }).Verify(nil) })
	un, err := cl.Spend(tok, nil)
	t.Must(err, "spend")
	up, err := new(types.SpendPacket).Unmarshal(un)
	t.Must(err, "spend")
	verdict("spend-nobody", true, func() error { return up.Verify(nil) })
	verdict("spend-nobody-key", false, func() error { return up.Verify(&a.pub) })

	// reissue packets
	p := &types.ReissuePacket{CallType: types.CallTypeReissue, Token: bs(300), BlindToken: bs(300), Params: bs(300)}
	p.Sign(&a.priv)
	enc, err = p.Marshal()
	t.Must(err, "marshal")
	var w reissueW
	if _, err := asn1.Unmarshal(enc, &w); err != nil || !ed25519.Verify(a.pub[:], w.image(), w.Signature) || !bytes.Equal(w.image(), p.Image()) {
		t.Violation("reissue/packet", fmt.Sprintf("%v %x", err, enc))
	}
	q, err := new(types.ReissuePacket).Unmarshal(enc)
	if err != nil || !reflect.DeepEqual(p, q) {
		t.Violation("reissue/read", fmt.Sprint(err))
		return
	}
	h := sha256.Sum256(w.image())
	if p.Hash() != h {
		t.Violation("reissue/hash", "")
	}
	alt := func(f func(p *types.ReissuePacket)) *types.ReissuePacket {
		q := *p
		q.Token = append([]byte{}, p.Token...)
		q.BlindToken = append([]byte{}, p.BlindToken...)
		q.Params = append([]byte{}, p.Params...)
		q.Signature = append([]byte{}, p.Signature...)
		f(&q)
		return &q
	}
	verdict("reissue", true, func() error { return p.Verify(&a.pub) })
	verdict("reissue-other", false, func() error { return p.Verify(&b.pub) })
	verdict("reissue-no-key", false, func() error { return p.Verify(nil) })
	verdict("reissue-token", false, func() error { return alt(func(p *types.ReissuePacket) { flip(p.Token) }).Verify(&a.pub) })
	verdict("reissue-blind", false, func() error { return alt(func(p *types.ReissuePacket) { flip(p.BlindToken) }).Verify(&a.pub) })
	verdict("reissue-params", false, func() error { return alt(func(p *types.ReissuePacket) { flip(p.Params) }).Verify(&a.pub) })
	verdict("reissue-signature", false, func() error { return alt(func(p *types.ReissuePacket) { flip(p.Signature) }).Verify(&a.pub) })
	verdict("reissue-type", false, func() error { return alt(func(p *types.ReissuePacket) { p.CallType = 7 }).Verify(&a.pub) })
	verdict("reissue-moved", false, func() error {
		return alt(func(p *types.ReissuePacket) {
			p.Params = append([]byte{p.BlindToken[len(p.BlindToken)-1]}, p.Params...)
			p.BlindToken = p.BlindToken[:len(p.BlindToken)-1]
		}).Verify(&a.pub)
	})
	verdict("reissue-swapped", false, func() error {
		return alt(func(p *types.ReissuePacket) { p.Params, p.BlindToken = p.BlindToken, p.Params }).Verify(&a.pub)
	})
	verdict("reissue-unsigned", false, func() error { return alt(func(p *types.ReissuePacket) { p.Signature = []byte{0} }).Verify(&a.pub) })
	verdict("reissue-empty-nobody", false, func() error { return alt(func(p *types.ReissuePacket) { p.Signature = nil }).Verify(nil) })
	un2 := alt(func(p *types.ReissuePacket) { p.Sign(nil) })
	verdict("reissue-nobody", true, func() error { return un2.Verify(nil) })
	// reading junk never crashes
	for i := 0; i < 20; i++ {
		j := append([]byte{}, enc...)
		for k := 0; k <= rng.Intn(4); k++ {
			flip(j)
		}
		if i%4 == 0 {
			j = j[:rng.Intn(len(j))]
		}
		t.NoPanic("read-panic", hex.EncodeToString(j), func() {
			new(types.ReissuePacket).Unmarshal(j)
			new(types.SpendPacket).Unmarshal(j)
			new(types.ReissuePacketPrivate).Unmarshal(j)
			types.UnmarshalParams(j)
		})
	}
}

// guardCalls checks the calls to issuers.
func guardCalls(t *mon.T, n *guardNet) {
	i := n.issuer(true)
	rng := rand.New(rand.NewSource(t.Seed))
	payload := make([]byte, 200)
	answer := make([]byte, 150)
	key := make([]byte, 90)
	own := newWallet(t).pub
	type result struct {
		a, b []byte
		ok   bool
		err  error
	}
	calls := []struct {
		method string
		fields []string
		ok     map[string]interface{}
		call   func(g *guardrpc.RPCclient) result
		check  func(p map[string]interface{}) bool
		want   func(r result) bool
	}{
		{"ServiceGuard.GetParams", []string{"Packet"}, nil,
			func(g *guardrpc.RPCclient) result { a, err := g.GetParams(&i.pub); return result{a: a, err: err} },
			func(p map[string]interface{}) bool { return len(p) == 0 },
			func(r result) bool { return bytes.Equal(r.a, answer) }},
		{"ServiceGuardInternal.GetParams", []string{"Packet"}, nil,
			func(g *guardrpc.RPCclient) result {
				a, err := g.GetParamsInternal(&i.pub)
				return result{a: a, err: err}
			},
			func(p map[string]interface{}) bool {
				return len(p) == 2 && p["AuthUser"] == "user" && p["AuthPass"] == "pass"
			},
			func(r result) bool { return bytes.Equal(r.a, answer) }},
		{"ServiceGuard.Reissue", []string{"Packet", "PubkeyUsed"}, nil,
			func(g *guardrpc.RPCclient) result {
				a, b, err := g.Reissue(&i.pub, payload)
				return result{a: a, b: b, err: err}
			},
			func(p map[string]interface{}) bool { return len(p) == 1 && p["Packet"] == b64(payload) },
			func(r result) bool { return bytes.Equal(r.a, answer) && bytes.Equal(r.b, key) }},
		{"ServiceGuardInternal.Issue", []string{"Packet", "PubkeyUsed"}, nil,
			func(g *guardrpc.RPCclient) result {
				a, b, err := g.Issue(&i.pub, &own)
				return result{a: a, b: b, err: err}
			},
			func(p map[string]interface{}) bool {
				return len(p) == 3 && p["Owner"] == hex.EncodeToString(own[:]) && p["AuthUser"] == "user" && p["AuthPass"] == "pass"
			},
			func(r result) bool { return bytes.Equal(r.a, answer) && bytes.Equal(r.b, key) }},
		{"ServiceGuard.Spend", []string{"Status"}, nil,
			func(g *guardrpc.RPCclient) result {
				ok, err := g.Spend(&i.pub, payload)
				return result{ok: ok, err: err}
			},
			func(p map[string]interface{}) bool { return len(p) == 1 && p["Packet"] == b64(payload) },
			func(r result) bool { return r.ok }},
	}
	for round := 0; round < t.N(3, 20); round++ {
		rng.Read(payload)
		rng.Read(answer)
		rng.Read(key)
		for _, c := range calls {
			full := func() map[string]interface{} {
				m := map[string]interface{}{}
				for _, f := range c.fields {
					switch f {
					case "Packet":
						m[f] = b64(answer)
					case "PubkeyUsed":
						m[f] = b64(key)
					case "Status":
						m[f] = true
					}
				}
				return m
			}
			g, err := guardrpc.New(cacert)
			t.Must(err, "guardrpc")
			g.AuthUser, g.AuthPass = "user", "pass"
			do := func(kind string, f fault) (r result, ok bool) {
				t.Eval("call/" + c.method + "/" + kind)
				t.Case(map[string]interface{}{"method": c.method, "reply": f.res, "kind": f.kind})
				n.take()
				n.setHook(func(q *call) fault { return f })
				ok = t.NoPanic("call-panic/"+c.method, map[string]interface{}{"reply": f.res}, func() { r = c.call(g) })
				n.setHook(nil)
				q := n.take()
				if len(q) != 1 || q[0].method != c.method || q[0].issuer != i || !c.check(q[0].params) {
					t.Violation("call/request", fmt.Sprintf("%+v", q))
				}
				return r, ok
			}
			if r, ok := do("ok", fault{kind: "result", res: full()}); ok && (r.err != nil || !c.want(r)) {
				t.Violation("call/result", fmt.Sprintf("%+v", r))
			}
			if c.method == "ServiceGuard.Spend" {
				if r, ok := do("false", fault{kind: "result", res: map[string]interface{}{"Status": false}}); ok && (r.err != nil || r.ok) {
					t.Violation("call/false", fmt.Sprintf("%+v", r))
				}
			}
			for _, field := range c.fields {
				for _, f := range badReplies(field) {
					if f.kind == "result" {
						m := full()
						delete(m, field)
						v, has := f.res[field]
						if has {
							m[field] = v
							if s, isS := v.(string); isS && field != "Status" {
								if _, err := base64.StdEncoding.DecodeString(s); err == nil {
									continue
								}
							}
							if v == true && field == "Status" {
								continue
							}
						}
						f.res = m
					}
					if r, ok := do(f.kind, f); ok && (r.err == nil || r.ok || r.a != nil || r.b != nil) {
						t.Violation("call/accepted", fmt.Sprintf("%s %+v: %+v", c.method, f, r))
					}
					t.Count("bad replies")
				}
			}
		}
	}
	_ = crand.Reader
}
