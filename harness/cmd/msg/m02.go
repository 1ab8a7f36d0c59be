package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid/length"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m02 = &mon.Prop{
	Level: "exploration",
	Rule: "messages of all content lengths around 0, the maximum and random ones in between, signed and unsigned, all status codes, " +
		"identities of 3 to 254 characters, nym addresses up to the maximum, session states with every combination of pending refresh keys; " +
		"one evaluation is one call of Encrypt, distinct by its parameters; oversize inputs must be refused without output and without disturbing the conversation; " +
		"ephemeral keys, IVs and ciphertexts of all messages of a run must be pairwise different",
	MinEvents: 300,
	Run:       runM02,
}

type freshness struct {
	seen map[string]string
}

// look records the parts of a message which must never repeat.
func (f *freshness) look(t *mon.T, id string, wire []byte) {
	raw, err := base64.Decode(string(wire))
	if !t.Checkf(err == nil, "not-base64", "%v", err) {
		return
	}
	ps, rest := kit.Split(raw)
	if len(ps) < 6 || len(rest) != 0 {
		t.Violation("packets", fmt.Sprintf("%d packets, %d bytes left", len(ps), len(rest)))
		return
	}
	var parts []string
	for i, p := range ps {
		if len(p.Inner) < 16 {
			continue
		}
		b := p.Inner
		if i == 0 {
			b = b[len(b)-32:]
		} else if i == 1 {
			b = b[:24] // nonce
		}
		parts = append(parts, fmt.Sprintf("%d|%x", i, b))
	}
	for _, k := range parts {
		if o, ok := f.seen[k]; ok {
			t.Violation("repeated-randomness", map[string]interface{}{"part": k[:2], "first": o, "second": id})
		}
		f.seen[k] = id
	}
}

func runM02(t *mon.T) {
	fr := &freshness{map[string]string{}}
	mk := func(rng *rand.Rand, l int) *kit.Party {
		// a short localpart and a domain which makes it l characters long
		rnd := func(n int) string {
			b := make([]byte, n)
			for i := range b {
				b[i] = "abcdefghikmnopqrstuvwxyz"[rng.Intn(24)]
			}
			return string(b)
		}
		lp := 3 + rng.Intn(6)
		p, err := kit.NewParty(rnd(lp) + "@" + rnd(l-lp-4) + ".ch")
		t.Must(err, "party")
		return p
	}
	for c := 0; c < t.N(40, 800); c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		la := 13 + rng.Intn(100)
		if c%4 == 0 {
			la = 254 // the longest identity
		}
		a, b := mk(rng, la), mk(rng, 14+rng.Intn(40))
		if a.ID == b.ID {
			continue
		}
		a.Knows(b)
		b.Knows(a)
		o := kit.Opts{NumOfKeys: 1 + uint64(rng.Intn(4)), AvgSize: uint(1 + rng.Intn(3))}
		for i := 0; i < 24; i++ {
			p, q := a, b
			if rng.Intn(2) == 0 {
				p, q = b, a
			}
			var l int
			switch i % 8 {
			case 0:
				l = i / 8
			case 1:
				l = msg.MaxContentLength - i/8
			case 2:
				l = msg.MaxContentLength + 1 + i/8
			case 3:
				l = msg.MaxContentLength + rng.Intn(70000)
			case 4:
				l = 1 << uint(rng.Intn(16))
			default:
				l = rng.Intn(msg.MaxContentLength + 1)
			}
			o.Sign = rng.Intn(2) == 0
			o.Status = msg.StatusCode(0)
			if rng.Intn(10) == 0 {
				o.Status = msg.StatusCode(rng.Intn(3))
			}
			nl := rng.Intn(length.MaxNymAddress + 1)
			if rng.Intn(8) == 0 {
				nl = length.MaxNymAddress
			}
			tooLongNym := rng.Intn(12) == 0
			if tooLongNym {
				nl = length.MaxNymAddress + 1 + rng.Intn(2000)
			}
			o.Nym = strings.Repeat("N", nl)
			content := make([]byte, l)
			rng.Read(content)
			id := fmt.Sprintf("%d/%d len=%d sign=%v status=%d nym=%d ident=%d", c, i, l, o.Sign, o.Status, nl, len(p.ID))
			t.Case(id)
			before := p.Ref.Clone()
			m, err := p.Encrypt(q, content, o)
			t.Eval(id)
			oversize := o.Status == msg.StatusOK && l > msg.MaxContentLength || tooLongNym
			if oversize {
				t.Count("oversize")
				t.Checkf(err != nil, "oversize-accepted", "%s", id)
				t.Checkf(len(m.Wire) == 0, "oversize-output", "%s: %d bytes written", id, len(m.Wire))
				_ = before
				continue
			}
			if err != nil {
				t.Violation("refused", map[string]string{"case": id, "err": err.Error()})
				continue
			}
			t.Count("encrypted")
			t.Checkf(len(m.Wire) == msg.EncodedMsgSize, "size", "%s: %d bytes", id, len(m.Wire))
			fr.look(t, id, m.Wire)
			t.Sample("encrypt", id)
			if rng.Intn(3) == 0 {
				continue // not received
			}
			got, _, _, err := q.Decrypt(m.Wire, o.NumOfKeys)
			if err != nil {
				t.Violation("decrypt", map[string]string{"case": id, "err": err.Error()})
				continue
			}
			t.Checkf(bytes.Equal(got, m.Content), "content", "%s", id)
			t.Count("decrypted")
		}
	}
	// failing randomness must never produce a message
	for c := 0; c < t.N(60, 600); c++ {
		rng := t.Rand("rand", c)
		kit.Seed(rng.Int63())
		a, b := mk(rng, 20), mk(rng, 21)
		a.Knows(b)
		b.Knows(a)
		limit := rng.Intn(200)
		if rng.Intn(2) == 0 {
			m, err := a.Encrypt(b, []byte("first"), kit.Opts{})
			t.Must(err, "encrypt")
			_, _, _, err = b.Decrypt(m.Wire, 0)
			t.Must(err, "decrypt")
		}
		old := cipher.RandReader
		lim := &limitedRand{left: limit}
		var out bytes.Buffer
		_, err := msg.Encrypt(&msg.EncryptArgs{Writer: &out, From: a.UID, To: b.UID,
			SenderLastKeychainHash: hashchain.TestEntry, Reader: strings.NewReader("x"),
			Rand: lim, KeyStore: a.Sessions})
		cipher.RandReader = old
		t.Eval(fmt.Sprintf("rand %d %d", c, limit))
		if lim.failed {
			t.Count("randomness-failed")
			t.Checkf(err != nil, "randomness", "Encrypt succeeded although its random source failed after %d bytes", limit)
			t.Checkf(out.Len() == 0, "randomness-output", "output although the random source failed")
		}
	}
	_ = binary.BigEndian
}

type limitedRand struct {
	left   int
	failed bool
}

func (l *limitedRand) Read(p []byte) (int, error) {
	if len(p) > l.left {
		l.failed = true
		return 0, fmt.Errorf("no randomness")
	}
	l.left -= len(p)
	return rand.New(rand.NewSource(int64(l.left))).Read(p)
}
