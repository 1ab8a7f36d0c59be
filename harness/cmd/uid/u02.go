package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/sha256"
	"fmt"
	"math/rand"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

var u02 = &mon.Prop{
	Level: "exploration",
	Rule: "server replies for random records, entries and positions are made by the code and by an independent server, decrypted and verified; then replies with changed fields (signature kept, or signed again by the genuine server), replies of other records, other servers' keys, contents exchanged under the right index and key, truncated and random encryptions; " +
		"one evaluation is one reply judged; non-trivial cases are hostile ones",
	MinEvents: 2000,
	Run:       runU02,
}

func ctr(key, iv, plain []byte) []byte {
	b, _ := aes.NewCipher(key)
	out := append([]byte{}, iv...)
	c := make([]byte, len(plain))
	stdcipher.NewCTR(b, iv).XORKeyStream(c, plain)
	return append(out, c...)
}

func sum(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func runU02(t *mon.T) {
	for c := 0; c < t.N(400, 12000) && t.Violations() < 15; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		m := create(t, rng, randID(rng))
		if rng.Intn(2) == 0 {
			var err error
			m, err = m.Update(cipher.RandReader)
			t.Must(err, "update")
		}
		om := create(t, rng, m.Identity())
		sk, err := cipher.Ed25519Generate(cipher.RandReader)
		t.Must(err, "key")
		ok2, err := cipher.Ed25519Generate(cipher.RandReader)
		t.Must(err, "key")
		srv, osrv := b64e(sk.PublicKey()[:]), b64e(ok2.PublicKey()[:])
		hash, idx, encr := m.Encrypt()
		// encryption: independent view
		raw := b64d(encr)
		t.Eval(encr)
		t.Count("record-encrypted")
		t.Checkf(bytes.Equal(hash, sum(m.JSON())) && bytes.Equal(idx, sum(hash)), "encrypt/hash", "hash or index wrong")
		t.Checkf(len(raw) == 32+16+len(m.JSON()) && bytes.Equal(raw[:32], idx) &&
			bytes.Equal(ctr(hash, raw[32:48], m.JSON()), raw[32:]), "encrypt/form", "encrypted record has the wrong form")
		entry := randEntry(rng)
		pos := rng.Uint64() >> uint(rng.Intn(64))
		rep := uid.CreateReply(encr, entry, pos, sk)
		jsn := rep.JSON()
		t.Checkf(bytes.Equal(jsn, canonical(jsn)), "json/canonical", "encoding of the reply is not sorted JSON")
		t.Checkf(edVerify(srv, enc(tree(jsn)["ENTRY"]), rep.SERVERSIGNATURE), "signature/independent", "server signature does not verify independently")
		rep2, err := uid.NewJSONReply(string(jsn))
		t.Must(err, "parse reply")
		t.Checkf(*rep2 == *rep, "json/round-trip", "round trip changes the reply")
		if err := rep2.VerifySrvSig(m, srv); err != nil {
			t.Violation("genuine/refused", err.Error())
		}
		i2, m2, err := rep2.Decrypt(hash)
		if err != nil {
			t.Violation("genuine/decrypt", err.Error())
		} else {
			t.Checkf(bytes.Equal(i2, idx) && bytes.Equal(m2.JSON(), m.JSON()), "genuine/content", "decrypted record differs")
		}
		t.Count("genuine-reply")

		hostile(t, rng, m, om, sk, ok2, srv, osrv, hash, idx, encr, entry, pos)
	}
}

func hostile(t *mon.T, rng *rand.Rand, m, om *uid.Message, sk, osk *cipher.Ed25519Key, srv, osrv string, hash, idx []byte, encr, entry string, pos uint64) {
	refused := func(what string, r *uid.MessageReply, m *uid.Message, pub string) {
		t.Eval(what + "/" + string(r.JSON()))
		t.Count("hostile-reply")
		t.Sample(what, string(r.JSON()))
		t.NoPanic(what+"/panic", string(r.JSON()), func() {
			if r.VerifySrvSig(m, pub) == nil {
				t.Violation(what, map[string]interface{}{"reply": string(r.JSON()), "record": string(m.JSON())})
			}
			r.Decrypt(hash)
		})
	}
	rep := uid.CreateReply(encr, entry, pos, sk)
	refused("other-record", rep, om, srv)
	refused("other-server", rep, m, osrv)
	refused("signed-by-other", uid.CreateReply(encr, entry, pos, osk), m, srv)
	// changed fields, signature kept
	ch := func(what string, edit func(r *uid.MessageReply)) {
		r := *rep
		edit(&r)
		refused("changed-"+what, &r, m, srv)
	}
	ch("position", func(r *uid.MessageReply) { r.ENTRY.HASHCHAINPOS ^= 1 << uint(rng.Intn(64)) })
	ch("entry", func(r *uid.MessageReply) { r.ENTRY.HASHCHAINENTRY = randEntry(rng) })
	ch("iv", func(r *uid.MessageReply) { // the same record, encrypted again
		_, _, r.ENTRY.UIDMESSAGEENCRYPTED = m.Encrypt()
	})
	ch("signature", func(r *uid.MessageReply) {
		s := b64d(r.SERVERSIGNATURE)
		s[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
		r.SERVERSIGNATURE = b64e(s)
	})
	ch("short-signature", func(r *uid.MessageReply) { r.SERVERSIGNATURE = b64e(b64d(r.SERVERSIGNATURE)[:rng.Intn(64)]) })
	ch("no-signature", func(r *uid.MessageReply) { r.SERVERSIGNATURE = "" })
	// the server signs a reply that does not hold the record
	signed := func(what string, raw []byte) {
		refused("signed-"+what, uid.CreateReply(b64e(raw), entry, pos, sk), m, srv)
	}
	iv := make([]byte, 16)
	rng.Read(iv)
	raw := b64d(encr)
	// another valid record under the index and key of m
	signed("other-content", append(append([]byte{}, idx...), ctr(hash, iv, om.JSON())...))
	tr := tree(m.JSON())
	where := mutate(rng, tr["UIDContent"], func(v interface{}) { tr["UIDContent"] = v })
	if b := enc(tr); !bytes.Equal(canonical(b), canonical(m.JSON())) {
		if p, err := uid.NewJSON(string(b)); err == nil && !bytes.Equal(p.JSON(), m.JSON()) {
			signed("changed-content", append(append([]byte{}, idx...), ctr(hash, iv, b)...))
			_ = where
		}
	}
	_, _, oenc := om.Encrypt()
	signed("other-encrypted", b64d(oenc))
	oidx := append([]byte{}, idx...)
	oidx[rng.Intn(32)] ^= 1
	signed("wrong-index", append(oidx, raw[32:]...))
	signed("truncated", raw[:rng.Intn(len(raw))])
	signed("short", raw[:rng.Intn(49)])
	signed("empty", nil)
	junk := make([]byte, rng.Intn(200))
	rng.Read(junk)
	signed("junk", junk)
	flip := append([]byte{}, raw...)
	flip[rng.Intn(48)] ^= 1 << uint(rng.Intn(8))
	signed("flipped", flip)
	// malformed server keys
	for _, k := range []string{"", "!", "AAAA", b64e(make([]byte, 31)), b64e(make([]byte, 33))} {
		refused(fmt.Sprintf("server-key-%d", len(k)), rep, m, k)
	}
}
