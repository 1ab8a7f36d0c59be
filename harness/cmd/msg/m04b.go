package main

import (
	"crypto/sha512"
	"fmt"
	"math/rand"
	"strings"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"verif/harness/kit"
	"verif/harness/mon"
)

// evilStore changes the states its owner encrypts with.
type evilStore struct {
	session.Store
	edit func(*session.State)
}

func (e *evilStore) GetSessionState(k string) (*session.State, error) {
	s, err := e.Store.GetSessionState(k)
	if s != nil && e.edit != nil {
		c := *s
		e.edit(&c)
		s = &c
	}
	return s, err
}

// badEntry returns a key entry which is malformed (or at least hostile) but as
// long as a good one.
func badEntry(rng *rand.Rand, ke uid.KeyEntry) (string, *uid.KeyEntry) {
	hash := func(b []byte) string { h := sha512.Sum512(b); return base64.Encode(h[:]) }
	k := uid.KeyEntry{CIPHERSUITE: ke.CIPHERSUITE, FUNCTION: ke.FUNCTION, HASH: ke.HASH, PUBKEY: ke.PUBKEY}
	b := make([]byte, 33)
	rng.Read(b)
	switch rng.Intn(7) {
	case 0:
		k.PUBKEY = strings.Repeat("!", 44)
		return "bad/base64", &k
	case 1:
		k.PUBKEY = base64.Encode(b)
		k.HASH = hash(b)
		return "bad/33 bytes", &k
	case 2:
		k.PUBKEY = base64.Encode(b[:31])
		k.HASH = hash(b[:31])
		return "bad/31 bytes", &k
	case 3:
		k.PUBKEY = base64.Encode(b[:32])
		return "bad/other hash", &k
	case 4:
		k.HASH = hash(b)
		return "bad/hash", &k
	case 5:
		k.FUNCTION = "ED25519XXX"
		return "bad/function", &k
	}
	z := make([]byte, 32)
	k.PUBKEY, k.HASH = base64.Encode(z), hash(z)
	return "low order", &k
}

// insiders: a correspondent with a valid identity sends otherwise valid
// messages with hostile keys.
func insiders(t *mon.T) {
	for c := 0; c < t.N(250, 5000) && t.Violations() < 20; c++ {
		rng := t.Rand("insider", c)
		w := newWorld(t, rng)
		a, b := w.a, w.b
		if rng.Intn(2) == 0 {
			a, b = b, a
		}
		t.Case(map[string]interface{}{"insider": c})
		avg := uint([]uint{1, 2, 1 << 30}[rng.Intn(3)])
		var log []string
		ok := true
		exchange := func(p, q *kit.Party) {
			m, err := p.Encrypt(q, []byte("x"), kit.Opts{NumOfKeys: 3, AvgSize: avg, Nym: "n"})
			if err == nil {
				_, _, _, err = q.Decrypt(m.Wire, 3)
			}
			if err != nil {
				t.Violation("insider/genuine", map[string]interface{}{"case": c, "log": log, "err": err.Error()})
				ok = false
			}
			log = append(log, p.ID+" sends")
		}
		for n := rng.Intn(6); n > 0 && ok; n-- {
			if rng.Intn(2) == 0 {
				exchange(a, b)
			} else {
				exchange(b, a)
			}
		}
		for r := 0; r < 2 && ok; r++ {
			var wire []byte
			kind, ke := badEntry(rng, *a.UID.PubKey())
			field := []string{"NextSenderSessionPub", "NextRecipientSessionPubSeen", "SenderSessionPub", "SenderIdentityPub"}[rng.Intn(4)]
			if ss := len(a.Ref.States) > 0; ss && rng.Intn(3) > 0 {
				field = []string{"NextSenderSessionPub", "NextRecipientSessionPubSeen"}[rng.Intn(2)]
				a.Sessions = &evilStore{a.Ref, func(s *session.State) {
					if field == "NextSenderSessionPub" {
						s.NextSenderSessionPub = ke
						if rng.Intn(2) == 0 {
							s.NextRecipientSessionPubSeen = nil
						}
					} else {
						s.NextRecipientSessionPubSeen = ke
					}
				}}
				state := a.Ref.Clone()
				m, err := a.Encrypt(b, []byte("x"), kit.Opts{NumOfKeys: 3, AvgSize: 1 << 30, Nym: "n"})
				a.Ref, a.Sessions = state, state
				if err != nil {
					t.Count("insider-cannot-encrypt")
					continue
				}
				wire = m.Wire
				field = "state " + field
			} else {
				f, err := kit.NewForge(a, b)
				t.Must(err, "forge")
				f.Content, f.Nym = []byte("x"), "n"
				f.Header = func(h map[string]interface{}) { h[field] = ke }
				wire, err = f.Build()
				t.Must(err, "build")
			}
			id := fmt.Sprintf("insider %d/%d %s %s", c, r, field, kind)
			log = append(log, id)
			before := b.Ref.Clone()
			var err error
			if !t.NoPanic("insider/panic", map[string]interface{}{"id": id, "log": log}, func() { _, _, _, err = b.Decrypt(wire, 3) }) {
				return
			}
			t.Eval(id)
			if err == nil {
				t.Count("insider-accepted")
				if strings.HasPrefix(kind, "bad") {
					t.Violation("insider/malformed key accepted", map[string]interface{}{"id": id, "log": log})
				}
				break // a has not stored this message: its conversation is over
			}
			t.Count("insider-refused")
			if d := kit.DiffStates(before, b.Ref); d != "" {
				t.Violation("insider/state-changed", map[string]interface{}{"id": id, "diff": d, "log": log, "refused": err.Error()})
				return
			}
			exchange(a, b)
			if ok {
				exchange(b, a)
			}
		}
		if !ok {
			return
		}
		// whatever happened, b goes on without a crash and with everybody else
		t.NoPanic("insider/panic later", map[string]interface{}{"case": c, "log": log}, func() {
			for i := 0; i < 3; i++ {
				b.Encrypt(a, []byte("x"), kit.Opts{NumOfKeys: 3, AvgSize: 1, Nym: "n"})
			}
			exchange(w.c, b)
			exchange(b, w.c)
		})
	}
}
