package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

var u01 = &mon.Prop{
	Level: "exploration",
	Rule: "update chains of 1-5 identity records of random identities; every record is checked with an independent implementation of the encoding, hashes and signatures; then single changes at random places of the record (re-encoded), exchanged signatures, skipped or repeated updates, forged successors, rule-breaking but correctly signed records, nonces with other keys and values; " +
		"one evaluation is one record or one changed record judged; non-trivial cases are changed ones that still parse",
	MinEvents: 2000,
	Run:       runU01,
}

// content returns the canonical encoding of the signed part.
func content(m *uid.Message) []byte {
	t := tree(m.JSON())
	return enc(t["UIDContent"])
}

func runU01(t *mon.T) {
	for c := 0; c < t.N(120, 4000) && t.Violations() < 15; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		id := randID(rng)
		t.Case(map[string]interface{}{"case": c, "id": id})
		chain := []*uid.Message{create(t, rng, id)}
		for n := rng.Intn(4); n > 0; n-- {
			last := chain[len(chain)-1]
			before := last.JSON()
			up, err := last.Update(cipher.RandReader)
			t.Must(err, "update")
			t.Checkf(bytes.Equal(before, last.JSON()), "update/changes-old", "update changed the old record")
			chain = append(chain, up)
		}
		stranger := create(t, rng, id)
		for i, m := range chain {
			checkGenuine(t, chain, i)
			if i > 0 {
				t.Checkf(m.VerifyUserSig(chain[i-1]) == nil, "user-sig/refused", "update %d of %s refused", i, id)
			}
			// wrong predecessors
			for j, p := range chain {
				if j != i-1 && m.VerifyUserSig(p) == nil {
					t.Violation("user-sig/wrong-predecessor", fmt.Sprintf("record %d accepted as successor of %d", i, j))
				}
				t.Eval("")
			}
			t.Checkf(m.VerifyUserSig(stranger) != nil, "user-sig/stranger", "accepted as successor of another record")
		}
		changed(t, rng, chain)
		forged(t, rng, chain, stranger)
		rules(t, rng, id)
		nonces(t, rng, chain[len(chain)-1], stranger)
	}
}

func checkGenuine(t *mon.T, chain []*uid.Message, i int) {
	m := chain[i]
	t.Eval(string(m.JSON()))
	t.Count("genuine-record")
	if err := m.Check(); err != nil {
		t.Violation("check/refused", err.Error())
	}
	if err := m.VerifySelfSig(); err != nil {
		t.Violation("self-sig/refused", err.Error())
	}
	jsn := m.JSON()
	t.Checkf(bytes.Equal(jsn, canonical(jsn)), "json/canonical", "encoding is not the sorted JSON encoding: %s", jsn)
	t.Checkf(len(jsn) <= 2004, "json/length", "record of %d bytes does not fit into a message header", len(jsn))
	m2, err := uid.NewJSON(string(jsn))
	t.Must(err, "parse own encoding")
	t.Checkf(bytes.Equal(m2.JSON(), jsn), "json/round-trip", "round trip changes the record")
	t.Checkf(m2.VerifySelfSig() == nil && m2.Check() == nil, "json/valid", "record is not valid after round trip")
	t.Checkf(edVerify(m.UIDContent.SIGKEY.PUBKEY, content(m), m.SELFSIGNATURE), "self-sig/independent", "self signature does not verify independently")
	canonKeys(t, &m.UIDContent.SIGKEY, "sigkey", m.PrivateSigKey())
	canonKeys(t, m.PubKey(), "enckey", m.PrivateEncKey())
	t.Checkf(m.UIDContent.MSGCOUNT == uint64(i), "count", "record %d has message count %d", i, m.UIDContent.MSGCOUNT)
	if err := m2.SetPrivateSigKey(m.PrivateSigKey()); err != nil {
		t.Violation("private-sig", err.Error())
	}
	if err := m2.SetPrivateEncKey(m.PrivateEncKey()); err != nil {
		t.Violation("private-enc", err.Error())
	}
	t.Checkf(*m2.PrivateSigKey64() == *m.PrivateSigKey64() && *m2.PrivateEncKey32() == *m.PrivateEncKey32(), "private/round-trip", "private keys differ")
	t.Checkf(*m2.PublicEncKey32() == *m.PublicEncKey32() && *m2.PublicSigKey32() == *m.PublicSigKey32(), "public/round-trip", "public keys differ")
	if i > 0 {
		p := chain[i-1]
		t.Checkf(edVerify(p.UIDContent.SIGKEY.PUBKEY, content(m), m.USERSIGNATURE), "user-sig/independent", "user signature does not verify independently")
		t.Checkf(m.UIDContent.SIGKEY.PUBKEY != p.UIDContent.SIGKEY.PUBKEY, "update/sigkey", "update keeps the signature key")
		t.Checkf(m.Identity() == p.Identity(), "update/identity", "update changes the identity")
		t.Checkf(m.PubKey().PUBKEY == p.PubKey().PUBKEY, "update/enckey", "update changes the encryption key")
	}
}

// changed checks that no change of a record is accepted.
func changed(t *mon.T, rng *rand.Rand, chain []*uid.Message) {
	for k := 0; k < 40; k++ {
		i := rng.Intn(len(chain))
		m := chain[i]
		orig := m.JSON()
		tr := tree(orig)
		var where string
		if rng.Intn(4) == 0 { // only the signatures
			k := []string{"SELFSIGNATURE", "USERSIGNATURE"}[rng.Intn(2)]
			tr[k] = other(rng, tr[k])
			where = k
		} else {
			where = "content" + mutate(rng, tr["UIDContent"], func(v interface{}) { tr["UIDContent"] = v })
		}
		jsn := enc(tr)
		var m2 *uid.Message
		var err error
		var self, usr error
		if !t.NoPanic("changed/panic", string(jsn), func() {
			if m2, err = uid.NewJSON(string(jsn)); err != nil {
				return
			}
			self = m2.VerifySelfSig()
			if i > 0 {
				usr = m2.VerifyUserSig(chain[i-1])
			}
			if m2.Check() == nil { // the accessors are used on checked records
				m2.Localpart()
				m2.Domain()
				m2.PubHash()
				m2.PubKey().PublicKey32()
				m2.PublicSigKey32()
				m2.PublicKey()
				m2.SigKeyHash()
				m2.Encrypt()
			}
		}) {
			continue
		}
		if err != nil {
			t.Eval("")
			t.Count("unparsable")
			continue
		}
		t.Eval(string(jsn))
		sameContent := bytes.Equal(content(m2), content(m))
		sameSelf := bytes.Equal(b64d(m2.SELFSIGNATURE), b64d(m.SELFSIGNATURE))
		sameUser := bytes.Equal(b64d(m2.USERSIGNATURE), b64d(m.USERSIGNATURE))
		if !sameContent || !sameSelf {
			t.Count("changed-record")
			t.Sample("changed "+where, string(jsn))
			if self == nil {
				t.Violation("changed/self-sig", map[string]interface{}{"where": where, "record": string(jsn)})
			}
		}
		if i > 0 && (!sameContent || !sameUser) && usr == nil {
			t.Violation("changed/user-sig", map[string]interface{}{"where": where, "record": string(jsn)})
		}
	}
}

// forged: the attacker owns a key of his own and makes a successor.
func forged(t *mon.T, rng *rand.Rand, chain []*uid.Message, att *uid.Message) {
	last := chain[len(chain)-1]
	mk := func(edit func(*uid.Message)) *uid.Message {
		m, _ := uid.NewJSON(string(att.JSON()))
		m.UIDContent.MSGCOUNT = last.UIDContent.MSGCOUNT + 1
		edit(m)
		var k cipher.Ed25519Key
		k.SetPrivateKey(att.PrivateSigKey64()[:])
		sig := b64e(k.Sign(content(m)))
		m.SELFSIGNATURE = sig
		if m.USERSIGNATURE == "self" {
			m.USERSIGNATURE = sig
		}
		return m
	}
	for name, m := range map[string]*uid.Message{
		"none":   mk(func(m *uid.Message) {}),
		"own":    mk(func(m *uid.Message) { m.USERSIGNATURE = "self" }),
		"stolen": mk(func(m *uid.Message) { m.USERSIGNATURE = last.SELFSIGNATURE }),
		"old":    mk(func(m *uid.Message) { m.USERSIGNATURE = last.USERSIGNATURE }),
	} {
		t.Eval("forged/" + string(m.JSON()))
		t.Count("forged-successor")
		t.Checkf(m.VerifySelfSig() == nil, "forged/oracle", "forged record %s should be self-signed", name)
		t.Checkf(m.VerifyUserSig(last) != nil, "forged/"+name, "forged successor accepted: %s", m.JSON())
	}
	// the owner skips or repeats a count: correctly signed, wrong counter
	for _, d := range []uint64{0, 2, 3, 1 << 63, ^uint64(0)} {
		up, err := last.Update(cipher.RandReader)
		t.Must(err, "update")
		up.UIDContent.MSGCOUNT = last.UIDContent.MSGCOUNT + d
		var k cipher.Ed25519Key
		k.SetPrivateKey(last.PrivateSigKey64()[:])
		up.USERSIGNATURE = b64e(k.Sign(content(up)))
		t.Eval(fmt.Sprintf("count/%d/%s", d, up.SELFSIGNATURE))
		t.Count("wrong-count")
		t.Checkf(up.VerifyUserSig(last) != nil, "count/accepted", "message count %d accepted after %d", up.UIDContent.MSGCOUNT, last.UIDContent.MSGCOUNT)
	}
}

// rules checks that records which break the rules of the protocol version are refused.
func rules(t *mon.T, rng *rand.Rand, id string) {
	lp, dom := strings.Split(id, "@")[0], strings.Split(id, "@")[1]
	edits := map[string]func(*uid.Message){
		"version": func(m *uid.Message) { m.UIDContent.VERSION = []string{"", "1.1", "2.0", "1.0 "}[rng.Intn(4)] },
		"forwardsec": func(m *uid.Message) {
			m.UIDContent.PREFERENCES.FORWARDSEC = []string{"", "mandatory", "optional", "STRICT"}[rng.Intn(4)]
		},
		"mixaddress":   func(m *uid.Message) { m.UIDContent.MIXADDRESS = "mix@x.example" },
		"nymaddress":   func(m *uid.Message) { m.UIDContent.NYMADDRESS = "nym" },
		"id-upper":     func(m *uid.Message) { m.UIDContent.IDENTITY = "X" + id },
		"id-noat":      func(m *uid.Message) { m.UIDContent.IDENTITY = lp },
		"id-two-at":    func(m *uid.Message) { m.UIDContent.IDENTITY = lp + "@" + lp + "@" + dom },
		"id-empty":     func(m *uid.Message) { m.UIDContent.IDENTITY = "" },
		"id-unmapped":  func(m *uid.Message) { m.UIDContent.IDENTITY = "j0e1@" + dom },
		"id-dom-upper": func(m *uid.Message) { m.UIDContent.IDENTITY = lp + "@X" + dom; m.UIDContent.REPOURIS[0] = "X" + dom },
		"sig-suite":    func(m *uid.Message) { m.UIDContent.SIGKEY.CIPHERSUITE = "NONE" },
		"sig-function": func(m *uid.Message) { m.UIDContent.SIGKEY.FUNCTION = "ECDHE25519" },
		"sig-hash":     func(m *uid.Message) { m.UIDContent.SIGKEY.HASH = m.UIDContent.PUBKEYS[0].HASH },
		"enc-suite":    func(m *uid.Message) { m.UIDContent.PUBKEYS[0].CIPHERSUITE = "" },
		"enc-function": func(m *uid.Message) { m.UIDContent.PUBKEYS[0].FUNCTION = "ED25519" },
		"enc-short":    func(m *uid.Message) { m.UIDContent.PUBKEYS[0].PUBKEY = "AAAA" },
		"enc-bad":      func(m *uid.Message) { m.UIDContent.PUBKEYS[0].PUBKEY = "!" },
		"enc-hash":     func(m *uid.Message) { m.UIDContent.PUBKEYS[0].HASH = m.UIDContent.SIGKEY.HASH },
		"enc-none":     func(m *uid.Message) { m.UIDContent.PUBKEYS = nil },
		"enc-two":      func(m *uid.Message) { m.UIDContent.PUBKEYS = append(m.UIDContent.PUBKEYS, m.UIDContent.PUBKEYS[0]) },
		"escrow":       func(m *uid.Message) { k := m.UIDContent.SIGKEY; m.UIDContent.SIGESCROW = &k },
		"escrow-part": func(m *uid.Message) {
			k := new(uid.KeyEntry)
			for n := 1 + rng.Intn(15); n > 0; n >>= 1 {
				v := m.UIDContent.SIGKEY
				switch n & 15 {
				case 1, 3, 5, 7, 9, 11, 13, 15:
					k.PUBKEY = v.PUBKEY
				case 2, 6, 10, 14:
					k.HASH = v.HASH
				case 4, 12:
					k.FUNCTION = v.FUNCTION
				case 8:
					k.CIPHERSUITE = v.CIPHERSUITE
				}
				if rng.Intn(3) > 0 {
					break
				}
			}
			m.UIDContent.SIGESCROW = k
		},
		"chainlink": func(m *uid.Message) {
			json.Unmarshal([]byte([]string{`{"URI":["x.example"]}`, `{"LAST":["x"]}`, `{"AUTHORITATIVE":true}`, `{"DOMAINS":["x"]}`}[rng.Intn(4)]), &m.UIDContent.CHAINLINK)
		},
		"repo-other":   func(m *uid.Message) { m.UIDContent.REPOURIS = []string{"other.example"} },
		"repo-none":    func(m *uid.Message) { m.UIDContent.REPOURIS = nil },
		"repo-two":     func(m *uid.Message) { m.UIDContent.REPOURIS = []string{dom, dom} },
		"last-empty":   func(m *uid.Message) { m.UIDContent.LASTENTRY = "" },
		"last-short":   func(m *uid.Message) { m.UIDContent.LASTENTRY = b64e(b64d(m.UIDContent.LASTENTRY)[:152]) },
		"last-type": func(m *uid.Message) {
			b := b64d(m.UIDContent.LASTENTRY)
			b[32] = byte(2 + rng.Intn(254))
			m.UIDContent.LASTENTRY = b64e(b)
		},
		"both-sigs": func(m *uid.Message) { m.USERSIGNATURE, m.ESCROWSIGNATURE = "AA==", "AA==" },
	}
	var names []string
	for n := range edits {
		names = append(names, n)
	}
	for k := 0; k < 10; k++ {
		sortStrings(names)
		n := names[rng.Intn(len(names))]
		m := create(t, rng, id)
		priv := m.PrivateSigKey()
		edits[n](m)
		if m.UIDContent.SIGKEY.FUNCTION == "ED25519" {
			var key cipher.Ed25519Key
			key.SetPrivateKey(b64d(priv))
			m.SELFSIGNATURE = b64e(key.Sign(content(m)))
		}
		m2, err := uid.NewJSON(string(m.JSON()))
		t.Must(err, "parse")
		t.Eval("rule/" + n + "/" + string(m.JSON()))
		t.Count("rule-broken")
		t.NoPanic("rule/"+n+"/panic", string(m.JSON()), func() {
			if m2.Check() == nil {
				t.Violation("rule/"+n, string(m.JSON()))
			}
		})
	}
}

func sortStrings(s []string) {
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}

func nonces(t *mon.T, rng *rand.Rand, m, stranger *uid.Message) {
	n, sig := m.SignNonce()
	pub := m.SigPubKey()
	t.Eval(fmt.Sprint("nonce", sig))
	t.Count("nonce")
	t.Checkf(uid.VerifyNonce(pub, n, sig) == nil, "nonce/refused", "own nonce refused")
	bad := func(what, pub string, n uint64, sig string) {
		t.Eval("")
		t.NoPanic("nonce/"+what+"/panic", map[string]interface{}{"pub": pub, "sig": sig}, func() {
			t.Checkf(uid.VerifyNonce(pub, n, sig) != nil, "nonce/"+what, "nonce accepted")
		})
	}
	bad("other-nonce", pub, n+1+uint64(rng.Intn(1000)), sig)
	bad("far-nonce", pub, n^(1<<uint(rng.Intn(64))), sig)
	bad("other-key", stranger.SigPubKey(), n, sig)
	s := b64d(sig)
	s[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
	bad("damaged", pub, n, b64e(s))
	bad("short-sig", pub, n, b64e(s[:rng.Intn(64)]))
	bad("short-key", b64e(b64d(pub)[:rng.Intn(32)]), n, sig)
	bad("bad-key", "!", n, sig)
	bad("bad-sig", pub, n, "!")
	_ = json.Number("")
}
