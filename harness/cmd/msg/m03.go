package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/mutecomm/mute/encode/base64"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m03 = &mon.Prop{
	Level: "exploration",
	Rule: "genuine messages (signed and unsigned, first message of a session and later ones) are damaged: single bit flips at every structural byte and sampled payload bytes, " +
		"truncation, extension, packet removal, duplication, reordering, splicing of packets of two messages, wrong recipients; one evaluation is one damaged message given to Decrypt " +
		"(distinct by damage); it must be refused without any plaintext output, or (for bits without meaning) give exactly the original content, sender and signature",
	MinEvents: 1000,
	Run:       runM03,
}

type world struct {
	a, b, c *kit.Party
}

func newWorld(t *mon.T, rng *rand.Rand) *world {
	kit.Seed(rng.Int63())
	w := &world{}
	var err error
	w.a, err = kit.NewParty("alice@mute.berlin")
	t.Must(err, "party")
	w.b, err = kit.NewParty("bob@mute.berlin")
	t.Must(err, "party")
	w.c, err = kit.NewParty("carol@mute.berlin")
	t.Must(err, "party")
	for _, p := range []*kit.Party{w.a, w.b, w.c} {
		for _, q := range []*kit.Party{w.a, w.b, w.c} {
			if p != q {
				p.Knows(q)
			}
		}
	}
	return w
}

// talk exchanges n messages in both directions.
func (w *world) talk(t *mon.T, n int, o kit.Opts) {
	for i := 0; i < n; i++ {
		p, q := w.a, w.b
		if i%2 == 1 {
			p, q = q, p
		}
		m, err := p.Encrypt(q, []byte("talk"), o)
		t.Must(err, "encrypt")
		_, _, _, err = q.Decrypt(m.Wire, o.NumOfKeys)
		t.Must(err, "decrypt")
	}
}

type damage struct {
	name string
	raw  []byte
	wire []byte // instead of raw
}

func damages(rng *rand.Rand, raw, other []byte, flips int) []damage {
	var ds []damage
	flip := func(i int, bit uint) {
		d := append([]byte(nil), raw...)
		d[i] ^= 1 << bit
		ds = append(ds, damage{name: fmt.Sprintf("flip %d.%d", i, bit), raw: d})
	}
	// structural bytes: packet heads, preheader, IV, inner heads, MAC
	ps, _ := kit.Split(raw)
	off := 0
	for i, p := range ps {
		n := 7
		switch i {
		case 0, 2, len(ps) - 1:
			n += len(p.Inner)
		case 1:
			n += 26
		default:
			n += 5
			if i == 4 {
				n += 80
			}
		}
		for j := 0; j < n && j < 7+len(p.Inner); j++ {
			flip(off+j, uint(rng.Intn(8)))
		}
		off += 7 + len(p.Inner)
	}
	for i := 0; i < flips; i++ {
		flip(rng.Intn(len(raw)), uint(rng.Intn(8)))
	}
	for i := 0; i < 25; i++ {
		k := rng.Intn(len(raw))
		ds = append(ds, damage{name: fmt.Sprintf("truncate %d", k), raw: raw[:k]})
	}
	off = 0
	for i, p := range ps {
		for _, k := range []int{off, off + 1, off + 6, off + 7} {
			ds = append(ds, damage{name: fmt.Sprintf("truncate at packet %d (%d)", i, k-off), raw: raw[:k]})
		}
		off += 7 + len(p.Inner)
	}
	ds = append(ds, damage{name: "empty", raw: nil},
		damage{name: "extend", raw: append(append([]byte(nil), raw...), 1, 2, 3)},
		damage{name: "twice", raw: append(append([]byte(nil), raw...), raw...)})
	ops, _ := kit.Split(other)
	for i := range ps {
		q := append(append([]*kit.Packet(nil), ps[:i]...), ps[i+1:]...)
		ds = append(ds, damage{name: fmt.Sprintf("drop %d", i), raw: kit.Join(q)})
		q = append(append(append([]*kit.Packet(nil), ps[:i+1]...), ps[i]), ps[i+1:]...)
		ds = append(ds, damage{name: fmt.Sprintf("dup %d", i), raw: kit.Join(q)})
		if i > 0 {
			q = append([]*kit.Packet(nil), ps...)
			q[i], q[i-1] = q[i-1], q[i]
			ds = append(ds, damage{name: fmt.Sprintf("swap %d", i), raw: kit.Join(q)})
			// renumbered
			var r []*kit.Packet
			for k, p := range q {
				x := *p
				x.Count = uint32(k)
				r = append(r, &x)
			}
			ds = append(ds, damage{name: fmt.Sprintf("swap and renumber %d", i), raw: kit.Join(r)})
		}
		if i < len(ops) {
			q = append([]*kit.Packet(nil), ps...)
			q[i] = ops[i]
			ds = append(ds, damage{name: fmt.Sprintf("splice %d", i), raw: kit.Join(q)})
			q = append(append([]*kit.Packet(nil), ps[:i]...), ops[i:]...)
			if i > 0 {
				ds = append(ds, damage{name: fmt.Sprintf("splice tail %d", i), raw: kit.Join(q)})
			}
		}
	}
	for i := 0; i < 10; i++ {
		b := make([]byte, rng.Intn(60000))
		rng.Read(b)
		if i%2 == 0 && len(b) > 0 {
			copy(b, raw[:rng.Intn(min(len(b), 80)+1)])
		}
		ds = append(ds, damage{name: fmt.Sprintf("garbage %d", i), raw: b})
	}
	w := []byte(base64.Encode(raw))
	for i := 0; i < 12; i++ {
		k := rng.Intn(len(w))
		d := append([]byte(nil), w...)
		d[k] = []byte{0, '\n', ' ', '=', '-', '*', 0xff}[rng.Intn(7)]
		ds = append(ds, damage{name: fmt.Sprintf("char %d %q", k, d[k]), wire: d})
		ds = append(ds, damage{name: fmt.Sprintf("cut text %d", k), wire: append([]byte(nil), w[:k]...)})
	}
	return ds
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func runM03(t *mon.T) {
	for c := 0; c < t.N(12, 150) && t.Violations() < 30; c++ {
		rng := t.Rand("c", c)
		w := newWorld(t, rng)
		o := kit.Opts{NumOfKeys: 4, AvgSize: uint(1 + rng.Intn(3)), Nym: "n"}
		w.talk(t, c%6, o) // c%6 == 0: the damaged message starts the session
		o.Sign = c%2 == 0
		content := make([]byte, []int{0, 1, 100, 5000, 41691}[rng.Intn(5)])
		rng.Read(content)
		m, err := w.a.Encrypt(w.b, content, o)
		t.Must(err, "encrypt")
		m2, err := w.a.Encrypt(w.b, []byte("the other message"), o)
		t.Must(err, "encrypt")
		raw, err := base64.Decode(string(m.Wire))
		t.Must(err, "base64")
		raw2, err := base64.Decode(string(m2.Wire))
		t.Must(err, "base64")
		base := w.b.Ref.Clone()
		for _, d := range damages(rng, raw, raw2, t.N(60, 400)) {
			wire := d.wire
			if wire == nil {
				wire = []byte(base64.Encode(d.raw))
			}
			if bytes.Equal(wire, m.Wire) || bytes.Equal(wire, m2.Wire) {
				continue
			}
			id := fmt.Sprintf("msg %d: %s", c, d.name)
			t.Case(id)
			w.b.Ref = base.Clone()
			w.b.Sessions = w.b.Ref
			var got []byte
			var sender, sig string
			var err error
			if !t.NoPanic("panic", id, func() { got, sender, sig, err = w.b.Decrypt(wire, 4) }) {
				continue
			}
			t.Eval(id)
			t.Sample("damage", id)
			if err != nil {
				t.Count("refused")
				t.Checkf(len(got) == 0, "plaintext-unauthenticated",
					"%s: refused (%v), but %d bytes of plaintext were handed out", id, err, len(got))
				t.Checkf(sender == "" && sig == "", "sender-unauthenticated", "%s: refused, but sender %q sig %q reported", id, sender, sig)
				continue
			}
			ok := bytes.Equal(got, content) && sender == w.a.ID && (sig != "") == m.Signed &&
				(!m.Signed || kit.CheckSig(w.a.UID, content, sig))
			if !ok {
				// a splice may turn it into the second message, unchanged
				ok = bytes.Equal(got, m2.Content) && sender == w.a.ID && (sig != "") == m2.Signed
			}
			t.Count("meaningless-damage")
			t.Checkf(ok, "accepted", "%s: accepted as %d bytes from %s", id, len(got), sender)
		}
		// somebody else must not be able to read it
		w.b.Ref = base.Clone()
		w.b.Sessions = w.b.Ref
		for _, p := range []*kit.Party{w.c, w.a} {
			got, sender, sig, err := p.Decrypt(m.Wire, 4)
			t.Eval(fmt.Sprintf("wrong recipient %d %s", c, p.ID))
			t.Checkf(err != nil && len(got) == 0 && sender == "" && sig == "", "wrong-recipient", "%s can decrypt a message to bob", p.ID)
			t.Count("wrong-recipient")
		}
		got, sender, _, err := w.b.Decrypt(m.Wire, 4, w.c.UID, w.b.UID)
		t.Checkf(err == nil && bytes.Equal(got, content) && sender == w.a.ID, "genuine", "genuine message with two local identities: %v", err)
	}
}
