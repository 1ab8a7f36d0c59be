package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m04 = &mon.Prop{
	Level: "exploration",
	Rule: "random conversations (as in M01) into which hostile input is mixed: replays of delivered messages, damaged copies delivered before the genuine message, " +
		"messages forged with the public keys of another sender but without its private keys, forged headers with extreme counters and malformed fields; one evaluation is one hostile input, " +
		"distinct by history, position and kind; hostile input must be refused, leave the conversation state unchanged and every genuine message must still be read and answered at the announced address",
	MinEvents: 400,
	Run:       runM04,
}

// impersonate forges a message to q which claims to be from p, by somebody
// who only knows what is public about p.
func impersonate(t *mon.T, mallory, p, q *kit.Party, mutate func(f *kit.Forge)) []byte {
	f, err := kit.NewForge(mallory, q)
	t.Must(err, "forge")
	f.Identity = p.ID
	f.Content = []byte("forged")
	f.Nym = "mallory-nym"
	f.Header = func(h map[string]interface{}) {
		h["SenderIdentityPub"] = *p.UID.PubKey()
		h["SenderIdentityPubHash"] = p.UID.PubHash()
		h["SenderUID"] = string(p.UID.JSON())
	}
	if mutate != nil {
		mutate(f)
	}
	w, err := f.Build()
	t.Must(err, "build")
	return w
}

func runM04(t *mon.T) {
	insiders(t)
	kit.Seed(t.Rand("mallory").Int63())
	mallory, err := kit.NewParty("mallory@mute.berlin")
	t.Must(err, "mallory")
	for c := 0; c < t.N(120, 3000) && t.Violations() < 20; c++ {
		rng := t.Rand("c", c)
		n := 2 + rng.Intn(2)
		h := newHistory(t, rng, fmt.Sprint(c), n)
		t.Case(map[string]interface{}{"history": c})
		var done []*kit.Msg
		hostile := func(kind string, q *kit.Party, wire []byte) bool {
			before := q.Ref.Clone()
			var err error
			var got []byte
			id := fmt.Sprintf("%d/%d %s", c, len(h.log), kind)
			h.log = append(h.log, kind)
			start := time.Now()
			if !t.NoPanic("panic/"+kind, id, func() { got, _, _, err = q.Decrypt(wire, h.nkeys[q.ID]) }) {
				return false
			}
			if d := time.Since(start); d > 30*time.Second {
				t.Violation("expensive", fmt.Sprintf("%s takes %s", id, d))
			}
			t.Eval(id)
			t.Count("hostile:" + kind)
			if err == nil {
				t.Violation("accepted/"+kind, map[string]interface{}{"case": id, "content": got, "log": h.log})
				return false
			}
			if d := kit.DiffStates(before, q.Ref); d != "" {
				t.Violation("state-changed/"+kind, map[string]interface{}{"case": id, "diff": d, "log": h.log, "refused": err.Error()})
				return false
			}
			for k, s := range q.Ref.Sessions {
				old := 0
				if o := before.Sessions[k]; o != nil {
					old = len(o.Send)
				}
				if len(s.Send)-old > 500 {
					t.Violation("key-flood/"+kind, fmt.Sprintf("%s: %d message keys generated", id, len(s.Send)-old))
				}
			}
			return true
		}
		ok := true
		for s := 0; s < 40 && ok; s++ {
			switch x := rng.Intn(10); {
			case x < 3 || len(h.flight) == 0 && x < 6:
				i := rng.Intn(n)
				j := (i + 1 + rng.Intn(n-1)) % n
				ok = h.send(h.parties[i], h.parties[j], msg.StatusOK)
			case x < 6:
				m := h.flight[0]
				ok = h.deliver(0)
				done = append(done, m)
			case x < 7 && len(done) > 0:
				m := done[rng.Intn(len(done))]
				ok = hostile("replay", m.To, m.Wire)
			case x < 8 && len(h.flight) > 0:
				m := h.flight[rng.Intn(len(h.flight))]
				raw, _ := base64.Decode(string(m.Wire))
				ps, _ := kit.Split(raw)
				switch rng.Intn(4) {
				case 0: // damaged MAC
					raw[len(raw)-1-rng.Intn(64)] ^= 4
				case 1: // damaged body
					raw[len(raw)-72-rng.Intn(10000)] ^= 1
				case 2: // body lost
					raw = kit.Join(ps[:2+rng.Intn(len(ps)-2)])
				case 3: // damaged IV
					raw[7+len(ps[0].Inner)+7+len(ps[1].Inner)+7+rng.Intn(16)] ^= 2
				}
				ok = hostile("damaged", m.To, []byte(base64.Encode(raw)))
			default:
				i := rng.Intn(n)
				j := (i + 1 + rng.Intn(n-1)) % n
				p, q := h.parties[i], h.parties[j]
				kinds := []string{"forged", "forged-count", "forged-next", "forged-fields", "forged-json"}
				kind := kinds[rng.Intn(len(kinds))]
				wire := impersonate(t, mallory, p, q, func(f *kit.Forge) {
					base := f.Header
					switch kind {
					case "forged-count":
						f.Header = func(m map[string]interface{}) {
							base(m)
							m["SenderMessageCount"] = []uint64{1, 49, 50, 51, 250, 299, 300, 301, 1000, math.MaxUint32, math.MaxInt64, math.MaxUint64, math.MaxUint64 - 48}[rng.Intn(13)]
						}
					case "forged-next":
						var n1, n2 uid.KeyEntry
						t.Must(n1.InitDHKey(kit.Seed(rng.Int63())), "key")
						t.Must(n2.InitDHKey(kit.Seed(rng.Int63())), "key")
						f.Header = func(m map[string]interface{}) {
							base(m)
							m["NextSenderSessionPub"] = n1
							if rng.Intn(2) == 0 {
								m["NextRecipientSessionPubSeen"] = n2
							}
						}
					case "forged-fields":
						f.Header = func(m map[string]interface{}) {
							base(m)
							names := []string{"RecipientTempHash", "SenderSessionPub", "SenderIdentityPub", "SenderUID", "NymAddress", "SenderIdentity", "NextSenderSessionPub", "NextRecipientSessionPubSeen"}
							for k := 0; k < 1+rng.Intn(2); k++ {
								m[names[rng.Intn(len(names))]] = malformed(rng.Intn(14), p)
							}
						}
					case "forged-json":
						raws := []string{"", "{}", "null", "[]", "{\"SenderSessionPub\":null}", strings.Repeat("[", 5000), "{\"SenderUID\":5}", "{\"SenderIdentityPub\":{}}"}
						f.HeaderRaw = []byte(raws[rng.Intn(len(raws))])
					}
				})
				ok = hostile(kind, q, wire)
			}
		}
		for len(h.flight) > 0 && ok {
			ok = h.deliver(rng.Intn(len(h.flight)))
		}
		t.Sample("history", map[string]interface{}{"id": c, "log": h.log})
	}
}

// malformed returns a malformed header field.
func malformed(k int, p *kit.Party) interface{} {
	ke := *p.UID.PubKey()
	switch k {
	case 0:
		return nil
	case 1:
		return ""
	case 2:
		return map[string]string{}
	case 3:
		ke.PUBKEY = "AAAA"
		return ke
	case 4:
		ke.PUBKEY = "!!!"
		return ke
	case 5:
		ke.HASH = ke.HASH[1:] + "A"
		return ke
	case 6:
		ke.FUNCTION = "ED25519"
		return ke
	case 7:
		ke.CIPHERSUITE = "none"
		return ke
	case 8:
		return p.KE.HASH
	case 9:
		return strings.Repeat("x", 3000)
	case 10:
		return 5
	case 11:
		// a UID whose signature key is malformed
		var m map[string]interface{}
		json.Unmarshal(p.UID.JSON(), &m)
		m["UIDContent"].(map[string]interface{})["SIGKEY"].(map[string]interface{})["PUBKEY"] = "AAAA"
		b, _ := json.Marshal(m)
		return string(b)
	case 12:
		var m map[string]interface{}
		json.Unmarshal(p.UID.JSON(), &m)
		m["UIDContent"].(map[string]interface{})["PUBKEYS"] = []interface{}{}
		b, _ := json.Marshal(m)
		return string(b)
	}
	return "{\"UIDContent\":{}}"
}
