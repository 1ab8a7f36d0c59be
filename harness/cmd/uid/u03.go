package main

import (
	"bytes"
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/rand"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

var u03 = &mon.Prop{
	Level: "exploration",
	Rule: "key init messages with random validity times around now and the limits; genuine ones are checked independently (encryption, hashes, keys, signature); then changed ones (signature kept), ones signed by their owner but expired, inverted, for another repository, with inconsistent or malformed session anchors and keys, and ones of other users; " +
		"one evaluation is one key init message judged; non-trivial cases are all but unparsable ones",
	MinEvents: 2000,
	Run:       runU03,
}

func sum512(b []byte) []byte { h := sha512.Sum512(b); return h[:] }

func runU03(t *mon.T) {
	for c := 0; c < t.N(150, 5000) && t.Violations() < 15; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		m := create(t, rng, randID(rng))
		om := create(t, rng, m.Identity())
		_, dom := m.Localpart(), m.Domain()
		now := uint64(time.Now().Unix())
		const max = uint64(90 * 24 * 3600)
		// creation rules; a margin of a minute keeps the clock out of it
		for k := 0; k < 8; k++ {
			var after, before uint64
			want := true
			switch rng.Intn(7) {
			case 0:
				after, want = now-60-uint64(rng.Intn(1000000)), false
			case 1:
				after, want = now+max+60+uint64(rng.Intn(1000000)), false
			case 2:
				after, want = ^uint64(0)-uint64(rng.Intn(3)), false
			case 3:
				after = now + 60 + uint64(rng.Intn(int(max-60)))
				before, want = after+uint64(rng.Intn(2)), false
			case 4:
				after = now + max - 60
			default:
				after = now + 60 + uint64(rng.Intn(int(max-120)))
				before = uint64(rng.Int63n(int64(after)))
			}
			ki, ph, pk, err := m.KeyInit(0, after, before, rng.Intn(2) == 0, dom, "mix@mix.example", "nym", cipher.RandReader)
			t.Eval(fmt.Sprint(c, k))
			if want != (err == nil) {
				t.Violation("create/times", fmt.Sprintf("notafter=now%+d notbefore=now%+d: %v", int64(after-now), int64(before-now), err))
				continue
			}
			if err != nil {
				t.Count("refused-times")
				continue
			}
			genuine(t, m, ki, ph, pk, dom)
			hostileKI(t, rng, m, om, ki, dom, after, before)
		}
		if _, _, _, err := m.KeyInit(0, now+1000, 0, true, "other.example", "", "", cipher.RandReader); err == nil {
			t.Violation("create/repository", "key init message for a foreign repository created")
		}
	}
}

func genuine(t *mon.T, m *uid.Message, ki *uid.KeyInit, ph, pk, dom string) {
	t.Count("genuine-keyinit")
	jsn := ki.JSON()
	t.Checkf(bytes.Equal(jsn, canonical(jsn)), "json/canonical", "encoding is not sorted JSON")
	tr := tree(jsn)
	t.Checkf(edVerify(m.SigPubKey(), enc(tr["Contents"]), ki.SIGNATURE), "signature/independent", "signature does not verify independently")
	ki2, err := uid.NewJSONKeyInit(jsn)
	t.Must(err, "parse key init")
	t.Checkf(bytes.Equal(ki2.JSON(), jsn), "json/round-trip", "round trip changes the key init")
	if err := ki2.Check(); err != nil {
		t.Violation("genuine/check", err.Error())
	}
	if err := ki2.Verify([]string{"x", dom}, m.SigPubKey()); err != nil {
		t.Violation("genuine/verify", err.Error())
	}
	// session anchor, independently
	kh := sum512(b64d(m.SigPubKey()))
	raw := b64d(ki.Contents.SESSIONANCHOR)
	if len(raw) < 16 {
		t.Violation("anchor/short", len(raw))
		return
	}
	plain := ctr(kh[:32], raw[:16], raw[16:])[16:]
	t.Checkf(ki.Contents.SESSIONANCHORHASH == b64e(sum512(plain)), "anchor/hash", "anchor hash does not match")
	t.Checkf(ki.SigKeyHash() == b64e(sum512(kh)), "sigkeyhash", "signature key hash does not match")
	var sa uid.SessionAnchor
	t.Must(json.Unmarshal(plain, &sa), "anchor")
	sa2, err := ki2.SessionAnchor(m.SigPubKey())
	if err != nil {
		t.Violation("anchor/refused", err.Error())
		return
	}
	t.Checkf(sa.NYMADDRESS == "nym" && sa2.NymAddress() == "nym" && sa.MIXADDRESS == "mix@mix.example", "anchor/address", "addresses differ")
	ke, err := ki2.KeyEntryECDHE25519(m.SigPubKey())
	if err != nil {
		t.Violation("anchor/key", err.Error())
		return
	}
	t.Checkf(ke.HASH == ph, "anchor/keyhash", "key hash differs")
	canonKeys(t, ke, "pfkey", pk)
	t.Checkf(ke.Verify() == nil, "anchor/key-verify", "key entry refused")
}

func hostileKI(t *mon.T, rng *rand.Rand, m, om *uid.Message, ki *uid.KeyInit, dom string, after, before uint64) {
	uris := []string{dom}
	pub := m.SigPubKey()
	refused := func(what string, jsn []byte, uris []string, pub string) {
		k, err := uid.NewJSONKeyInit(jsn)
		if err != nil {
			t.Eval("")
			t.Count("unparsable")
			return
		}
		t.Eval(what + string(jsn) + pub)
		t.Count("hostile-keyinit")
		t.Sample(what, string(jsn))
		t.NoPanic(what+"/panic", string(jsn), func() {
			if k.Verify(uris, pub) == nil {
				t.Violation(what, string(jsn))
			}
			k.Check()
			k.SessionAnchor(pub)
			k.KeyEntryECDHE25519(pub)
			k.VerifySrvSig("AAAA", "AAAA")
		})
	}
	refused("other-user", ki.JSON(), uris, om.SigPubKey())
	refused("other-repository", ki.JSON(), []string{"other.example"}, pub)
	refused("no-repository", ki.JSON(), nil, pub)
	for i := 0; i < 6; i++ {
		tr := tree(ki.JSON())
		if rng.Intn(3) == 0 {
			s := b64d(ki.SIGNATURE)
			s[rng.Intn(len(s))] ^= 1 << uint(rng.Intn(8))
			tr["SIGNATURE"] = []interface{}{b64e(s), b64e(s[:rng.Intn(64)]), "", "!"}[rng.Intn(4)]
		} else {
			mutate(rng, tr["Contents"], func(v interface{}) { tr["Contents"] = v })
		}
		b := enc(tr)
		if k, err := uid.NewJSONKeyInit(b); err == nil && bytes.Equal(k.JSON(), ki.JSON()) {
			continue
		}
		refused("changed", b, uris, pub)
	}
	// signed by the owner, but not valid
	var sk cipher.Ed25519Key
	sk.SetPrivateKey(m.PrivateSigKey64()[:])
	kh := sum512(b64d(pub))
	resign := func(what string, edit func(c map[string]interface{})) {
		tr := tree(ki.JSON())
		c := tr["Contents"].(map[string]interface{})
		edit(c)
		tr["SIGNATURE"] = b64e(sk.Sign(enc(c)))
		refused("signed-"+what, enc(tr), uris, pub)
	}
	now := uint64(time.Now().Unix())
	num := func(n uint64) json.Number { return json.Number(fmt.Sprint(n)) }
	resign("expired", func(c map[string]interface{}) {
		c["NOTBEFORE"], c["NOTAFTER"] = num(0), num(now-60-uint64(rng.Intn(100000)))
	})
	resign("inverted", func(c map[string]interface{}) { c["NOTBEFORE"] = num(after + uint64(rng.Intn(1000))) })
	resign("repository", func(c map[string]interface{}) { c["REPOURI"] = "other.example" })
	resign("sigkeyhash", func(c map[string]interface{}) { h, _ := om.SigKeyHash(); c["SIGKEYHASH"] = h })
	iv := make([]byte, 16)
	rng.Read(iv)
	anchor := func(what string, sa []byte, hash []byte) {
		resign("anchor-"+what, func(c map[string]interface{}) {
			c["SESSIONANCHOR"] = b64e(ctr(kh[:32], iv, sa))
			c["SESSIONANCHORHASH"] = b64e(hash)
		})
	}
	sa, err := ki.SessionAnchor(pub)
	t.Must(err, "anchor")
	edit := func(what string, f func(sa *uid.SessionAnchor)) {
		s := *sa
		s.PFKEYS = append([]uid.KeyEntry{}, sa.PFKEYS...)
		f(&s)
		b := canonical(enc(map[string]interface{}{"MIXADDRESS": s.MIXADDRESS, "NYMADDRESS": s.NYMADDRESS, "PFKEYS": s.PFKEYS}))
		anchor(what, b, sum512(b))
	}
	good := canonical(enc(map[string]interface{}{"MIXADDRESS": sa.MIXADDRESS, "NYMADDRESS": sa.NYMADDRESS, "PFKEYS": sa.PFKEYS}))
	anchor("hash", good, sum512(append([]byte("x"), good...)))
	anchor("junk", []byte("{junk"), sum512([]byte("{junk")))
	anchor("null", []byte("null"), sum512([]byte("null")))
	resign("anchor-short", func(c map[string]interface{}) { c["SESSIONANCHOR"] = b64e(iv[:rng.Intn(16)]) })
	resign("anchor-empty", func(c map[string]interface{}) { c["SESSIONANCHOR"] = "" })
	edit("no-keys", func(s *uid.SessionAnchor) { s.PFKEYS = nil })
	edit("key-function", func(s *uid.SessionAnchor) { s.PFKEYS[0].FUNCTION = "ED25519" })
	edit("key-suite", func(s *uid.SessionAnchor) { s.PFKEYS[0].CIPHERSUITE = "NONE" })
	edit("key-short", func(s *uid.SessionAnchor) {
		b := b64d(s.PFKEYS[0].PUBKEY)[:rng.Intn(32)]
		s.PFKEYS[0].PUBKEY, s.PFKEYS[0].HASH = b64e(b), b64e(sum512(b))
	})
	edit("key-hash", func(s *uid.SessionAnchor) { s.PFKEYS[0].HASH = b64e(sum512(iv)) })
	edit("key-bad", func(s *uid.SessionAnchor) { s.PFKEYS[0].PUBKEY = "!" })
	// several keys, the one in question at any place
	others := []uid.KeyEntry{m.UIDContent.SIGKEY, om.UIDContent.SIGKEY}
	among := func(s *uid.SessionAnchor, ke uid.KeyEntry) {
		at := rng.Intn(3)
		s.PFKEYS = append(append(append([]uid.KeyEntry{}, others[:at]...), ke), others[at:]...)
	}
	edit("among-hash", func(s *uid.SessionAnchor) {
		ke := s.PFKEYS[0]
		ke.HASH = []string{others[0].HASH, others[1].HASH, b64e(sum512(iv))}[rng.Intn(3)]
		among(s, ke)
	})
	edit("among-suite", func(s *uid.SessionAnchor) { ke := s.PFKEYS[0]; ke.CIPHERSUITE = "NONE"; among(s, ke) })
	edit("among-short", func(s *uid.SessionAnchor) {
		ke, b := s.PFKEYS[0], b64d(s.PFKEYS[0].PUBKEY)[:rng.Intn(32)]
		ke.PUBKEY, ke.HASH = b64e(b), b64e(sum512(b))
		among(s, ke)
	})
	edit("among-none", func(s *uid.SessionAnchor) { s.PFKEYS = others })
	several := func() {
		s := *sa
		among(&s, sa.PFKEYS[0])
		b := canonical(enc(map[string]interface{}{"MIXADDRESS": s.MIXADDRESS, "NYMADDRESS": s.NYMADDRESS, "PFKEYS": s.PFKEYS}))
		tr := tree(ki.JSON())
		c := tr["Contents"].(map[string]interface{})
		c["SESSIONANCHOR"], c["SESSIONANCHORHASH"] = b64e(ctr(kh[:32], iv, b)), b64e(sum512(b))
		tr["SIGNATURE"] = b64e(sk.Sign(enc(c)))
		k, err := uid.NewJSONKeyInit(enc(tr))
		t.Must(err, "several keys")
		t.Eval("several" + k.SIGNATURE)
		t.Count("several-keys")
		if err := k.Verify(uris, pub); err != nil {
			t.Violation("several/refused", err.Error())
			return
		}
		if ke, err := k.KeyEntryECDHE25519(pub); err != nil || ke.PUBKEY != sa.PFKEYS[0].PUBKEY || ke.HASH != sa.PFKEYS[0].HASH {
			t.Violation("several/key", fmt.Sprint(err))
		}
	}
	several()
	// malformed keys of the owner
	for _, p := range []string{"", "!", "AAAA", b64e(make([]byte, 31)), b64e(make([]byte, 33))} {
		// the hash matches the malformed key
		kh := sum512(b64d(p))
		tr := tree(ki.JSON())
		c := tr["Contents"].(map[string]interface{})
		c["SIGKEYHASH"] = b64e(sum512(kh))
		c["SESSIONANCHOR"] = b64e(ctr(kh[:32], iv, good))
		c["SESSIONANCHORHASH"] = b64e(sum512(good))
		tr["SIGNATURE"] = b64e(sk.Sign(enc(c)))
		refused("malformed-owner-key", enc(tr), uris, p)
	}
	// server signature
	srv, err := cipher.Ed25519Generate(cipher.RandReader)
	t.Must(err, "key")
	sig := ki.Sign(srv)
	sp := b64e(srv.PublicKey()[:])
	t.Eval("srv" + sig)
	t.Checkf(ki.VerifySrvSig(sig, sp) == nil, "server/refused", "server signature refused")
	t.Checkf(edVerify(sp, ki.JSON(), sig), "server/independent", "server signature does not verify independently")
	s := b64d(sig)
	s[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
	for what, a := range map[string][2]string{"damaged": {b64e(s), sp}, "other": {sig, pub}, "short": {b64e(s[:rng.Intn(64)]), sp},
		"short-key": {sig, b64e(b64d(sp)[:rng.Intn(32)])}, "bad-key": {sig, "!"}, "bad": {"!", sp}} {
		t.Eval("")
		t.NoPanic("server/"+what+"/panic", a, func() {
			t.Checkf(ki.VerifySrvSig(a[0], a[1]) != nil, "server/"+what, "server signature accepted")
		})
	}
	k2, _ := uid.NewJSONKeyInit(ki.JSON())
	k2.Contents.NOTAFTER++
	t.Checkf(k2.VerifySrvSig(sig, sp) != nil, "server/content", "server signature accepted for another key init")
}
