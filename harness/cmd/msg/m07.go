package main

import (
	"crypto/ed25519"
	"encoding/json"
	"fmt"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m07 = &mon.Prop{
	Level: "exploration",
	Rule: "messages of a sender with full control over the wire format: signatures by another key, over another content, of wrong length, random; a sender identity, encryption key or UID message which belongs to somebody else or " +
		"which do not belong together; UID messages changed after they were signed; malformed signature keys; one evaluation is one such message given to Decrypt, distinct by kind and content; an accepted message must name an identity, " +
		"encryption key and validly self-signed UID message which belong together and a reported signature must verify under the signing key of that UID message",
	MinEvents: 200,
	Run:       runM07,
}

func editUID(m *uid.Message, f func(c map[string]interface{})) string {
	var x map[string]interface{}
	json.Unmarshal(m.JSON(), &x)
	f(x["UIDContent"].(map[string]interface{}))
	b, _ := json.Marshal(x)
	return string(b)
}

func runM07(t *mon.T) {
	rng0 := t.Rand("parties")
	kit.Seed(rng0.Int63())
	alice, err := kit.NewParty("alice@mute.berlin")
	t.Must(err, "party")
	mallory, err := kit.NewParty("mallory@mute.berlin")
	t.Must(err, "party")
	_, otherKey, err := ed25519.GenerateKey(cipher.RandReader)
	t.Must(err, "key")
	sk := mallory.UID.PrivateSigKey64()
	ownKey := ed25519.PrivateKey(sk[:])
	type kindT struct {
		name   string
		honest bool
		f      func(f *kit.Forge)
	}
	hdr := func(g func(h map[string]interface{})) func(f *kit.Forge) {
		return func(f *kit.Forge) { f.Header = g }
	}
	kinds := []kindT{
		{"honest", true, func(f *kit.Forge) {}},
		{"honest-unsigned", true, func(f *kit.Forge) { f.SigKey = nil }},
		{"sig-other-key", false, func(f *kit.Forge) { f.SigKey = otherKey }},
		{"sig-other-content", false, func(f *kit.Forge) {
			f.Sig = ed25519.Sign(ownKey, cipher.SHA512(append([]byte("x"), f.Content...)))
		}},
		{"sig-random", false, func(f *kit.Forge) { f.Sig = make([]byte, 64); cipher.RandReader.Read(f.Sig) }},
		{"sig-zero", false, func(f *kit.Forge) { f.Sig = make([]byte, 64) }},
		{"sig-short", false, func(f *kit.Forge) { f.Sig = ed25519.Sign(ownKey, cipher.SHA512(f.Content))[:63] }},
		{"sig-long", false, func(f *kit.Forge) { f.Sig = append(ed25519.Sign(ownKey, cipher.SHA512(f.Content)), 0) }},
		{"sig-empty", false, func(f *kit.Forge) { f.Sig = []byte{} }},
		{"sig-flip", false, func(f *kit.Forge) {
			f.Sig = ed25519.Sign(ownKey, cipher.SHA512(f.Content))
			f.Sig[rng0.Intn(64)] ^= 1 << uint(rng0.Intn(8))
		}},
		{"badmac", false, func(f *kit.Forge) { f.BadMAC = true }},
		{"identity-of-alice", false, func(f *kit.Forge) { f.Identity = alice.ID }},
		{"uid-of-alice", false, hdr(func(h map[string]interface{}) { h["SenderUID"] = string(alice.UID.JSON()) })},
		{"identity-and-uid-of-alice", false, func(f *kit.Forge) {
			f.Identity = alice.ID
			f.Header = func(h map[string]interface{}) { h["SenderUID"] = string(alice.UID.JSON()) }
		}},
		{"identity-and-uid-of-alice-unsigned", false, func(f *kit.Forge) {
			f.SigKey = nil
			f.Identity = alice.ID
			f.Header = func(h map[string]interface{}) { h["SenderUID"] = string(alice.UID.JSON()) }
		}},
		{"uid-edited-identity", false, func(f *kit.Forge) {
			f.Identity = alice.ID
			f.Header = func(h map[string]interface{}) {
				h["SenderUID"] = editUID(mallory.UID, func(c map[string]interface{}) { c["IDENTITY"] = alice.ID })
			}
		}},
		{"uid-of-alice-with-own-encryption-key", false, func(f *kit.Forge) {
			f.SigKey = nil
			f.Identity = alice.ID
			f.Header = func(h map[string]interface{}) {
				h["SenderUID"] = editUID(alice.UID, func(c map[string]interface{}) {
					var pk []interface{}
					b, _ := json.Marshal(mallory.UID.UIDContent.PUBKEYS)
					json.Unmarshal(b, &pk)
					c["PUBKEYS"] = pk
				})
			}
		}},
		{"uid-of-alice-with-own-signing-key", false, func(f *kit.Forge) {
			f.Identity = alice.ID
			f.Header = func(h map[string]interface{}) {
				h["SenderUID"] = editUID(alice.UID, func(c map[string]interface{}) {
					b, _ := json.Marshal(mallory.UID.UIDContent.SIGKEY)
					var x interface{}
					json.Unmarshal(b, &x)
					c["SIGKEY"] = x
				})
			}
		}},
		{"sigkey-short", false, hdr(func(h map[string]interface{}) {
			h["SenderUID"] = editUID(mallory.UID, func(c map[string]interface{}) { c["SIGKEY"].(map[string]interface{})["PUBKEY"] = "AAAA" })
		})},
		{"sigkey-bad-base64", false, hdr(func(h map[string]interface{}) {
			h["SenderUID"] = editUID(mallory.UID, func(c map[string]interface{}) { c["SIGKEY"].(map[string]interface{})["PUBKEY"] = "*" })
		})},
		{"sigkey-missing", false, hdr(func(h map[string]interface{}) {
			h["SenderUID"] = editUID(mallory.UID, func(c map[string]interface{}) { delete(c, "SIGKEY") })
		})},
		{"pubkeys-missing", false, hdr(func(h map[string]interface{}) {
			h["SenderUID"] = editUID(mallory.UID, func(c map[string]interface{}) { delete(c, "PUBKEYS") })
		})},
		{"uid-empty", false, hdr(func(h map[string]interface{}) { h["SenderUID"] = "" })},
		{"uid-empty-object", false, hdr(func(h map[string]interface{}) { h["SenderUID"] = "{}" })},
		{"uid-null", false, hdr(func(h map[string]interface{}) { h["SenderUID"] = "null" })},
		{"inner-type-flip", false, func(f *kit.Forge) {
			x := []uint8{1, 2, 4, 8, 3, 6, 0, 255}[rng0.Intn(8)]
			f.InnerType = &x
		}},
	}
	for c := 0; c < t.N(20, 400); c++ {
		for _, k := range kinds {
			rng := t.Rand("c", c, k.name)
			kit.Seed(rng.Int63())
			bob, err := kit.NewParty("bob@mute.berlin")
			t.Must(err, "bob")
			f, err := kit.NewForge(mallory, bob)
			t.Must(err, "forge")
			f.Content = make([]byte, rng.Intn(2000))
			rng.Read(f.Content)
			f.SigKey = ownKey
			f.Count = uint64(rng.Intn(60))
			k.f(f)
			var claimed string
			hf := f.Header
			var pub, ident string
			f.Header = func(h map[string]interface{}) {
				if hf != nil {
					hf(h)
				}
				claimed = h["SenderUID"].(string)
				pub = h["SenderIdentityPub"].(uid.KeyEntry).PUBKEY
				ident = h["SenderIdentity"].(string)
			}
			wire, err := f.Build()
			t.Must(err, "build")
			id := fmt.Sprintf("%s/%d", k.name, c)
			t.Case(id)
			var got []byte
			var sender, sig string
			if !t.NoPanic("panic/"+k.name, id, func() { got, sender, sig, err = bob.Decrypt(wire, 50) }) {
				continue
			}
			t.Eval(id)
			if err != nil {
				t.Count("refused")
				if k.honest {
					t.Violation("honest-refused", map[string]string{"case": id, "err": err.Error()})
				}
				t.Checkf(len(got) == 0 && sender == "" && sig == "", "leak", "%s: refused but content, sender or signature is reported", id)
				continue
			}
			t.Count("accepted:" + k.name)
			t.Checkf(string(got) == string(f.Content), "content", "%s: wrong content", id)
			um, err := uid.NewJSON(claimed)
			if err != nil {
				t.Violation("uid-unreadable/"+k.name, id)
				continue
			}
			t.Checkf(sender == ident && um.Identity() == sender, "identity/"+k.name, "%s: reported sender %s, but the UID message is of %s", id, sender, um.Identity())
			ok := len(um.UIDContent.PUBKEYS) > 0 && um.UIDContent.PUBKEYS[0].PUBKEY == pub
			t.Checkf(ok, "enckey/"+k.name, "%s: the encryption key is not the one of the UID message", id)
			t.Checkf(um.VerifySelfSig() == nil, "selfsig/"+k.name, "%s: the UID message is not validly self-signed", id)
			if sig != "" {
				t.Checkf(kit.CheckSig(um, got, sig), "signature/"+k.name, "%s: reported signature does not verify", id)
			} else {
				t.Checkf(f.SigKey == nil && f.Sig == nil || f.InnerType != nil, "signature-dropped/"+k.name, "%s: signed message reported as unsigned", id)
			}
			t.Sample("accepted", id)
		}
	}
	_ = base64.Encode
}
