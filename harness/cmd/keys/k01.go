package main

import (
	"crypto/sha512"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"
)

var k01 = &mon.Prop{
	Level: "exploration",
	Rule: "engines register and update identities and add, fetch and flush key init messages with a key server which is honest or answers wrongly (other signer, reply to something else, changed after signing, other user's, expired, inverted times, other repository, inconsistent anchors, missing and malformed fields, HTTP and RPC errors); what the engine reports and stores and which key it then uses for a peer is compared with what the replies justify; " +
		"one evaluation is one command with its reply judged",
	MinEvents: 800,
	Run:       runK01,
}

func runK01(t *mon.T) {
	for c := 0; c < t.N(60, 1200) && t.Violations() < 12; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		w := newWorld(t, rng, "aaa.example", "bbb.example")
		w.k01(c)
		w.close()
	}
}

var kTurn int

func sorted(v interface{}) []byte { b, _ := json.Marshal(v); return b }

// signReply is a reply with the given contents.
func signReply(e map[string]interface{}, sk *cipher.Ed25519Key) map[string]interface{} {
	return map[string]interface{}{"UIDMessageReply": map[string]interface{}{"ENTRY": e, "SERVERSIGNATURE": keyserv.B64(sk.Sign(sorted(e)))}}
}

func (w *world) k01(c int) {
	t, rng := w.t, w.rng
	s, o := w.srv[0], w.srv[1]
	evil, err := cipher.Ed25519Generate(cipher.RandReader)
	t.Must(err, "key")
	owner := w.user(fmt.Sprintf("o%d", c))
	defer owner.close()
	owner.must("hashchain sync --domain %s", s.Domain)
	var id string
	// registration and updates
	for k := 0; k < 4; k++ {
		cmd, method := "register", "KeyRepository.CreateUID"
		update := k > 0 && id != "" && rng.Intn(2) == 0
		if update {
			cmd, method = "update", "KeyRepository.UpdateUID"
			owner.must("uid genupdate --id %s", id)
		} else {
			id = w.name() + "@" + s.Domain
			owner.must("uid generate --id %s", id)
		}
		kind := ""
		if kTurn++; k != 2 {
			turn := kTurn
			s.Hook = func(m string, p, res map[string]interface{}) interface{} {
				if m != method || res == nil {
					return nil
				}
				e := res["UIDMessageReply"].(map[string]interface{})["ENTRY"].(map[string]interface{})
				sig := res["UIDMessageReply"].(map[string]interface{})["SERVERSIGNATURE"]
				switch turn % 9 {
				case 0:
					kind = "other-signer"
					return signReply(e, evil)
				case 1:
					kind = "other-server"
					return signReply(e, o.SK)
				case 2:
					kind = "other-record"
					enc := s.ID
					_, _, x := enc.Encrypt()
					return signReply(map[string]interface{}{"UIDMESSAGEENCRYPTED": x, "HASHCHAINENTRY": e["HASHCHAINENTRY"], "HASHCHAINPOS": e["HASHCHAINPOS"]}, s.SK)
				case 3:
					kind = "changed-position"
					pos, _ := num(e["HASHCHAINPOS"])
					return map[string]interface{}{"UIDMessageReply": map[string]interface{}{"SERVERSIGNATURE": sig,
						"ENTRY": map[string]interface{}{"UIDMESSAGEENCRYPTED": e["UIDMESSAGEENCRYPTED"], "HASHCHAINENTRY": e["HASHCHAINENTRY"], "HASHCHAINPOS": pos + 1}}}
				case 4:
					kind = "changed-entry"
					b := keyserv.Dec(e["HASHCHAINENTRY"].(string))
					b[rng.Intn(len(b))] ^= 1
					return map[string]interface{}{"UIDMessageReply": map[string]interface{}{"SERVERSIGNATURE": sig,
						"ENTRY": map[string]interface{}{"UIDMESSAGEENCRYPTED": e["UIDMESSAGEENCRYPTED"], "HASHCHAINENTRY": keyserv.B64(b), "HASHCHAINPOS": e["HASHCHAINPOS"]}}}
				case 5:
					kind = "changed-record"
					b := keyserv.Dec(e["UIDMESSAGEENCRYPTED"].(string))
					// a single bit of the text may change nothing in the message
					// (the case of a JSON key), one of the first block (the
					// nonce) changes all of it
					b[rng.Intn(16)] ^= 1 << uint(rng.Intn(8))
					return signReply(map[string]interface{}{"UIDMESSAGEENCRYPTED": keyserv.B64(b), "HASHCHAINENTRY": e["HASHCHAINENTRY"], "HASHCHAINPOS": e["HASHCHAINPOS"]}, s.SK)
				case 6:
					kind = "old-reply"
					for _, r := range s.Replies {
						if r.ENTRY.HASHCHAINPOS == 0 {
							var m map[string]interface{}
							json.Unmarshal(r.JSON(), &m)
							return map[string]interface{}{"UIDMessageReply": m}
						}
					}
				}
				out, k := hostile(rng, m, res)
				kind = k
				return out
			}
		}
		token := ""
		s.Seen = func(m string, p map[string]interface{}) {
			if m == method {
				token, _ = p["Token"].(string)
			}
		}
		mine := fmt.Sprintf("t%d+/=", rng.Int63())
		r := owner.do("uid %s --id %s --token %s", cmd, id, mine)
		s.Seen = nil
		t.Checkf(token == mine, cmd+"/token", "token %q reaches the key server instead of %q", token, mine)
		s.Hook = nil
		w.log("(%s %s)", cmd, kind)
		t.Eval(fmt.Sprint(c, k, cmd, kind))
		t.Count(cmd + "/" + kind)
		if kind == "" && r != "" {
			w.bad(cmd+"/refused", "%s", r)
			return
		}
		if kind != "" && r == "" {
			w.bad(cmd+"/accepted/"+kind, "reply accepted")
		}
		if kind != "" {
			id = ""
		} else {
			owner.must("hashchain sync --domain %s", s.Domain)
		}
		if t.Violations() > 10 {
			return
		}
	}
	if id == "" {
		id = w.name() + "@" + s.Domain
		owner.must("uid generate --id %s", id)
		owner.must("uid register --id %s --token t", id)
	}
	w.keylessServer(c, owner, s, id)
	w.addInits(c, owner, s, id, evil)
	w.fetchInits(c, s, o, evil)
}

// keylessServer: the capabilities do not hold a usable signature key.
func (w *world) keylessServer(c int, owner *member, s *keyserv.Server, id string) {
	t, rng := w.t, w.rng
	for k := 0; k < 2; k++ {
		owner.restart()
		keys := []interface{}{nil, []string{}, []string{""}, []string{"!"}, []string{"AAAA"}, []interface{}{nil}, []interface{}{[]interface{}{}}, "x", 5}[rng.Intn(9)]
		s.Hook = func(m string, p, res map[string]interface{}) interface{} {
			if m != "KeyRepository.Capabilities" {
				return nil
			}
			return map[string]interface{}{"CAPABILITIES": map[string]interface{}{"METHODS": keyserv.Methods, "DOMAINS": []string{s.Domain}, "SIGPUBKEYS": keys}}
		}
		x := w.name() + "@" + s.Domain
		owner.must("uid generate --id %s", x)
		w.log("(SIGPUBKEYS %v)", keys)
		t.Eval(fmt.Sprint(c, k, "no-key", keys))
		t.Count("server-without-key")
		if k == 0 {
			owner.fails("no-server-key/register", "uid register --id %s --token t", x)
		} else {
			n := owner.rows("SELECT COUNT(*) FROM PrivateKeyInits")[0]
			owner.fails("no-server-key/keyinit", "keyinit add --id %s --mixaddress m@x.example --nymaddress n --token t", id)
			if owner.rows("SELECT COUNT(*) FROM PrivateKeyInits")[0] != n {
				w.bad("no-server-key/stored", "key init stored without a valid server signature")
			}
		}
		s.Hook = nil
	}
	owner.restart()
}

// addInits adds key init messages of an engine user.
func (w *world) addInits(c int, owner *member, s *keyserv.Server, id string, evil *cipher.Ed25519Key) {
	t, rng := w.t, w.rng
	for k := 0; k < 5; k++ {
		before := owner.rows("SELECT KeyInit FROM PrivateKeyInits ORDER BY ID")
		kind := ""
		var sent []interface{}
		turn := kTurn
		kTurn++
		s.Hook = func(m string, p, res map[string]interface{}) interface{} {
			if m != "KeyInitRepository.AddKeyInit" {
				return nil
			}
			sent, _ = p["KeyInits"].([]interface{})
			if res == nil || k%2 == 0 {
				return nil
			}
			sigs := res["Signatures"].([]string)
			bad := append([]string{}, sigs...)
			switch turn % 8 {
			case 0:
				kind = "other-signer"
				var ki *uid.KeyInit
				b, _ := json.Marshal(sent[0])
				ki, _ = uid.NewJSONKeyInit(b)
				bad[0] = ki.Sign(evil)
				return map[string]interface{}{"Signatures": bad}
			case 1:
				kind = "damaged"
				b := keyserv.Dec(bad[0])
				b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
				bad[0] = keyserv.B64(b)
				return map[string]interface{}{"Signatures": bad}
			case 2:
				kind = "none"
				return map[string]interface{}{"Signatures": []string{}}
			case 3:
				kind = "too-many"
				return map[string]interface{}{"Signatures": append(bad, bad[0])}
			case 4:
				kind = "other-content"
				bad[0] = keyserv.B64(s.SK.Sign([]byte("{}")))
				return map[string]interface{}{"Signatures": bad}
			case 5:
				kind = "short"
				bad[0] = keyserv.B64(keyserv.Dec(bad[0])[:rng.Intn(64)])
				return map[string]interface{}{"Signatures": bad}
			}
			out, x := hostile(rng, m, res)
			kind = x
			if mm, ok := out.(map[string]interface{}); ok {
				if l := list(mm["Signatures"]); len(l) == 1 && l[0] == interface{}(sigs[0]) {
					kind = ""
					return nil
				}
			}
			return out
		}
		var tokens interface{}
		s.Seen = func(m string, p map[string]interface{}) {
			if m == "KeyInitRepository.AddKeyInit" {
				tokens = p["Tokens"]
			}
		}
		mine := fmt.Sprintf("t%d+/=", rng.Int63())
		r := owner.do("keyinit add --id %s --mixaddress m%d@x.example --nymaddress n%d --token %s", id, k, k, mine)
		s.Seen = nil
		t.Checkf(fmt.Sprint(tokens) == "["+mine+"]", "add/token", "tokens %q reach the key server instead of %q", tokens, mine)
		s.Hook = nil
		w.log("(%s)", kind)
		t.Eval(fmt.Sprint(c, k, "add", kind))
		t.Count("add/" + kind)
		after := owner.rows("SELECT KeyInit FROM PrivateKeyInits ORDER BY ID")
		if kind == "" {
			if r != "" {
				w.bad("add/refused", "%s", r)
			} else if len(after) != len(before)+1 || len(sent) != 1 || after[len(before)] != string(sorted(sent[0])) {
				w.bad("add/stored", "the key init sent to the server is not the one stored")
			} else if ki, err := uid.NewJSONKeyInit([]byte(after[len(before)])); err == nil {
				// the private key belongs to it
				pub := owner.rows("SELECT SigPubKey FROM PrivateKeyInits ORDER BY ID")[len(before)]
				ke, err := ki.KeyEntryECDHE25519(pub)
				t.Must(err, "key entry")
				p, err := owner.l.CE.GetPrivateKeyEntry(ke.HASH)
				if err != nil || p.PUBKEY != ke.PUBKEY || p.PrivateKey32() == nil {
					w.bad("add/private-key", "no private key for the added key init: %v", err)
				}
			}
			continue
		}
		if r == "" {
			w.bad("add/accepted/"+kind, "reply accepted")
		}
		if !same(before, after) {
			w.bad("add/stored/"+kind, "key init stored without a valid server signature")
		}
	}
	// flushing proves the ownership
	proved := false
	s.Hook = func(m string, p, res map[string]interface{}) interface{} {
		if m == "KeyInitRepository.FlushKeyInit" {
			n, _ := p["Nonce"].(json.Number)
			v, _ := n.Int64()
			pk, _ := p["SigPubKey"].(string)
			sig, _ := p["Signature"].(string)
			proved = uid.VerifyNonce(pk, uint64(v), sig) == nil && time.Since(time.Unix(v, 0)) < time.Hour
		}
		return nil
	}
	owner.must("keyinit flush --id %s", id)
	s.Hook = nil
	t.Checkf(proved, "flush", "the flush request does not hold a valid signature over a current nonce")
	// and is reported only if the key server did it
	for _, x := range []interface{}{keyserv.RPCError("no"), keyserv.Status(500), keyserv.Status(404), keyserv.Cut{}, keyserv.Raw("{")} {
		s.Before = func(m string, p map[string]interface{}) interface{} {
			if m == "KeyInitRepository.FlushKeyInit" {
				return x
			}
			return nil
		}
		if r := owner.do("keyinit flush --id %s", id); r == "" {
			w.bad("flush/accepted", "the key init messages are said to be flushed, the key server answered %T %v", x, x)
		}
		s.Before = nil
		t.Eval(fmt.Sprint(c, "flush", x))
		t.Count("flush/failed")
	}
}

// reKI changes the contents of a key init and signs it again.
func reKI(ki *uid.KeyInit, sk *cipher.Ed25519Key, edit func(c map[string]interface{})) string {
	var tr map[string]interface{}
	d := json.NewDecoder(strings.NewReader(string(ki.JSON())))
	d.UseNumber()
	d.Decode(&tr)
	c := tr["Contents"].(map[string]interface{})
	edit(c)
	if sk != nil {
		tr["SIGNATURE"] = keyserv.B64(sk.Sign(sorted(c)))
	}
	return string(sorted(tr))
}

// fetchInits fetches key init messages of a peer.
func (w *world) fetchInits(c int, s, o *keyserv.Server, evil *cipher.Ed25519Key) {
	t, rng := w.t, w.rng
	u := w.user(fmt.Sprintf("f%d", c))
	defer u.close()
	peer := w.create(w.name()+"@"+s.Domain, s.Chain[0])
	other := w.create(w.name()+"@"+s.Domain, s.Chain[0])
	s.Add(peer)
	s.Add(other)
	u.must("hashchain sync --domain %s", s.Domain)
	u.must("hashchain search --id keyserver@%s", s.Domain)
	u.must("hashchain search --id %s", peer.Identity())
	now := time.Now().Unix()
	fresh := func(m *uid.Message) (*uid.KeyInit, string) {
		ki, hash, _, err := m.KeyInit(0, uint64(now+3600*24*int64(1+rng.Intn(80))), uint64(rng.Int63n(now)), true, s.Domain, "mix@x.example", "nym"+w.name(), cipher.RandReader)
		t.Must(err, "key init")
		return ki, hash
	}
	n := func(v int64) json.Number { return json.Number(fmt.Sprint(v)) }
	var want []string
	newest := ""
	for k := 0; k < 9; k++ {
		ki, hash := fresh(peer)
		kind, send := "", string(ki.JSON())
		var hookRes interface{}
		if k%3 != 0 {
			turn := kTurn
			kTurn++
			switch turn % 14 {
			case 0:
				kind = "expired"
				send = reKI(ki, key(peer), func(c map[string]interface{}) { c["NOTBEFORE"], c["NOTAFTER"] = n(0), n(now-60) })
			case 1:
				kind = "inverted-times"
				send = reKI(ki, key(peer), func(c map[string]interface{}) { c["NOTBEFORE"] = n(now + 3600*24*100) })
			case 2:
				kind = "other-repository"
				send = reKI(ki, key(peer), func(c map[string]interface{}) { c["REPOURI"] = o.Domain })
			case 3:
				kind = "other-user"
				x, _ := fresh(other)
				send = string(x.JSON())
			case 4:
				// signed by the other user, under the peer's name
				kind = "other-user-renamed"
				x, _ := fresh(other)
				send = reKI(x, key(other), func(c map[string]interface{}) { c["SIGKEYHASH"] = ki.Contents.SIGKEYHASH })
			case 5:
				kind = "other-signer"
				send = reKI(ki, evil, func(c map[string]interface{}) {})
			case 6:
				kind = "changed"
				send = reKI(ki, nil, func(c map[string]interface{}) { c["NOTAFTER"] = n(now + int64(rng.Intn(1000000))) })
			case 7:
				// someone else's keys in the name of the peer
				kind = "other-anchor"
				kh := sha512.Sum512(keyserv.Dec(peer.SigPubKey()))
				x, _ := fresh(other)
				sa, err := x.SessionAnchor(other.SigPubKey())
				t.Must(err, "anchor")
				plain := sorted(map[string]interface{}{"MIXADDRESS": sa.MIXADDRESS, "NYMADDRESS": sa.NYMADDRESS, "PFKEYS": sa.PFKEYS})
				h := sha512.Sum512(plain)
				send = reKI(ki, evil, func(c map[string]interface{}) {
					c["SESSIONANCHOR"] = keyserv.B64(ctr(kh[:32], plain, rng))
					c["SESSIONANCHORHASH"] = keyserv.B64(h[:])
				})
			case 8:
				kind = "anchor-hash"
				send = reKI(ki, key(peer), func(c map[string]interface{}) { c["SESSIONANCHORHASH"] = keyserv.B64(make([]byte, 64)) })
			case 9:
				kind = "text"
				send = []string{"", "null", "{}", "[]", "x", `{"Contents":{}}`, `{"Contents":null,"SIGNATURE":""}`}[rng.Intn(7)]
			case 10:
				kind = "no-signature"
				send = strings.Replace(send, ki.SIGNATURE, "", 1)
			case 11:
				kind = "anchor-short"
				send = reKI(ki, key(peer), func(c map[string]interface{}) { c["SESSIONANCHOR"] = keyserv.B64(make([]byte, rng.Intn(16))) })
			default:
				kind = "reply"
				hookRes, _ = hostile(rng, "", map[string]interface{}{"KeyInit": keyserv.Junk(rng, nil)})
			}
		}
		s.Hook = func(m string, p, res map[string]interface{}) interface{} {
			if m != "KeyInitRepository.FetchKeyInit" {
				return nil
			}
			if h, _ := peer.SigKeyHash(); p["SigKeyHash"] != h {
				w.bad("fetch/request", "key init requested for the wrong key")
			}
			if hookRes != nil {
				return hookRes
			}
			return map[string]interface{}{"KeyInit": send}
		}
		r := u.do("keyinit fetch --id %s", peer.Identity())
		s.Hook = nil
		w.log("(%s)", kind)
		t.Eval(fmt.Sprint(c, k, "fetch", kind))
		t.Count("fetch/" + kind)
		if kind == "" {
			want = append(want, send)
			newest = hash
			if r != "" {
				w.bad("fetch/refused", "%s", r)
			}
		} else if r == "" {
			w.bad("fetch/accepted/"+kind, "key init accepted")
		}
		if got := u.rows("SELECT KeyInit FROM PublicKeyInits ORDER BY ID"); !same(got, want) {
			w.bad("fetch/stored/"+kind, "%d key inits stored, %d fetched were valid", len(got), len(want))
			return
		}
		ke, _, err := u.l.CE.GetPublicKeyEntry(peer)
		if err != nil || ke.HASH != newest {
			w.bad("fetch/used", "the key used for the peer is not the one fetched last (error %v)", err)
		}
		if _, _, err := u.l.CE.GetPublicKeyEntry(other); err == nil {
			w.bad("fetch/other-user", "there is a key for another user")
		}
	}
}

func ctr(key, msg []byte, rng *rand.Rand) []byte {
	iv := make([]byte, 16)
	rng.Read(iv)
	return keyserv.CTR(key, iv, msg)
}
