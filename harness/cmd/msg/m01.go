package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"github.com/mutecomm/mute/msg"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m01 = &mon.Prop{
	Level: "exploration",
	Rule: "random histories of 2-4 parties which encrypt (signed or not, empty to maximal content, status ok/reset/error, " +
		"1-50 precomputed keys, session refresh after 1, 2, 3, 10 messages or never) and receive in order, out of order, with losses and " +
		"with several local identities; one evaluation is one delivered message, distinct by history and position; the oracle is the list of what was sent",
	Assumptions: []string{"the session store is the reference store with value semantics", "fewer than 250 messages of one session are missing at a time"},
	MinEvents:   500,
	Run:         runM01,
}

// history is one random conversation.
type history struct {
	t       *mon.T
	key     string
	rng     *rand.Rand
	parties []*kit.Party
	nkeys   map[string]uint64
	avg     uint
	flight  []*kit.Msg
	n       int
	log     []string
	nyms    map[string]map[string]bool // addresses announced by a party
}

func newHistory(t *mon.T, rng *rand.Rand, key string, n int) *history {
	kit.Seed(rng.Int63())
	h := &history{t: t, rng: rng, key: key, nkeys: map[string]uint64{}, nyms: map[string]map[string]bool{}}
	names := []string{"alice", "bob", "carol", "dave"}
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	ks := []uint64{1, 2, 3, 5, 50}
	for i := 0; i < n; i++ {
		p, err := kit.NewParty(names[i] + "@mute.berlin")
		t.Must(err, "new party")
		h.parties = append(h.parties, p)
		h.nkeys[p.ID] = ks[rng.Intn(len(ks))]
		h.nyms[p.ID] = map[string]bool{"ki-nym-" + p.ID: true}
	}
	for _, p := range h.parties {
		for _, q := range h.parties {
			if p != q {
				p.Knows(q)
			}
		}
	}
	h.avg = []uint{1, 1, 2, 3, 10, 1 << 30}[rng.Intn(6)]
	return h
}

func randContent(rng *rand.Rand) []byte {
	var l int
	switch rng.Intn(10) {
	case 0:
		l = 0
	case 1:
		l = msg.MaxContentLength
	case 2:
		l = msg.MaxContentLength - rng.Intn(100)
	case 3:
		l = rng.Intn(msg.MaxContentLength)
	default:
		l = rng.Intn(300)
	}
	b := make([]byte, l)
	rng.Read(b)
	return b
}

func (h *history) send(p, q *kit.Party, status msg.StatusCode) bool {
	o := kit.Opts{Sign: h.rng.Intn(2) == 0, NumOfKeys: h.nkeys[p.ID], AvgSize: h.avg,
		Nym: fmt.Sprintf("nym-%s-%d", p.ID, h.n), Status: status}
	m, err := p.Encrypt(q, randContent(h.rng), o)
	h.n++
	h.log = append(h.log, fmt.Sprintf("%d:%.1s>%.1s st%d", h.n, p.ID, q.ID, status))
	if err != nil {
		h.t.Violation("encrypt-failed", map[string]interface{}{"history": h.key, "log": h.log, "err": err.Error()})
		return false
	}
	m.N = h.n
	h.nyms[p.ID][o.Nym] = true
	h.t.Checkf(len(m.Wire) == msg.EncodedMsgSize, "size", "encoded size %d", len(m.Wire))
	h.t.Checkf(h.nyms[q.ID][m.Nym], "nymaddress", "message for %s is to be delivered to %q, which it never announced", q.ID, m.Nym)
	h.flight = append(h.flight, m)
	h.t.Count("sent")
	return true
}

// deliver delivers message i in flight and checks it.
func (h *history) deliver(i int) bool {
	m := h.flight[i]
	h.flight = append(h.flight[:i:i], h.flight[i+1:]...)
	h.log = append(h.log, fmt.Sprintf("recv %d", m.N))
	return h.check(m)
}

func (h *history) check(m *kit.Msg) bool {
	content, sender, sig, err := m.To.Decrypt(m.Wire, h.nkeys[m.To.ID])
	h.t.Eval(fmt.Sprintf("%s|%d|%d", h.key, m.N, len(h.log)))
	h.t.Count("delivered")
	info := func(e string) map[string]interface{} {
		return map[string]interface{}{"history": h.key, "log": h.log, "message": m.N, "what": e,
			"nkeys": h.nkeys, "avg": h.avg}
	}
	if err != nil {
		h.t.Violation("decrypt-failed", info(err.Error()))
		return false
	}
	if !bytes.Equal(content, m.Content) {
		h.t.Violation("content-differs", info("content"))
		return false
	}
	if sender != m.From.ID {
		h.t.Violation("sender-differs", info(sender))
	}
	if m.Signed {
		h.t.Count("signed")
		if !kit.CheckSig(m.From.UID, m.Content, sig) {
			h.t.Violation("signature-wrong", info(sig))
		}
	} else if sig != "" {
		h.t.Violation("signature-made-up", info(sig))
	}
	return true
}

func runM01(t *mon.T) {
	hists := t.N(250, 6000)
	for c := 0; c < hists && t.Violations() < 20; c++ {
		rng := t.Rand("hist", c)
		n := 2
		if rng.Intn(4) == 0 {
			n = 3 + rng.Intn(2)
		}
		h := newHistory(t, rng, fmt.Sprint(c), n)
		t.Case(map[string]interface{}{"history": c})
		steps := 10 + rng.Intn(60)
		mode := rng.Intn(4) // 0 in order, 1 newest first, 2 random, 3 random with loss
		special := rng.Intn(3) == 0
		ok := true
		for s := 0; s < steps && ok; s++ {
			if len(h.flight) == 0 || (len(h.flight) < 25 && rng.Intn(2) == 0) {
				i := rng.Intn(n)
				j := (i + 1 + rng.Intn(n-1)) % n
				st := msg.StatusCode(msg.StatusOK)
				if special && rng.Intn(8) == 0 {
					st = msg.StatusCode(1 + rng.Intn(2))
					t.Count("status-messages")
				}
				ok = h.send(h.parties[i], h.parties[j], st)
			} else {
				switch mode {
				case 0:
					ok = h.deliver(0)
				case 1:
					ok = h.deliver(len(h.flight) - 1)
				case 3:
					if rng.Intn(6) == 0 {
						h.flight = h.flight[1:]
						h.log = append(h.log, "lose")
						t.Count("lost")
						continue
					}
					fallthrough
				default:
					ok = h.deliver(rng.Intn(len(h.flight)))
				}
			}
		}
		for len(h.flight) > 0 && ok {
			ok = h.deliver(rng.Intn(len(h.flight)))
		}
		t.Count("histories")
		t.Sample("history", map[string]interface{}{"id": c, "log": h.log, "nkeys": h.nkeys, "avg": h.avg, "mode": mode})
	}
	// long conversations without an answer: a session must not wear out
	for c := 0; c < t.N(3, 30) && t.Violations() < 20; c++ {
		rng := t.Rand("long", c)
		h := newHistory(t, rng, fmt.Sprint("long", c), 2)
		h.avg = []uint{1 << 30, 3}[c%2]
		t.Case(map[string]interface{}{"long": c})
		p, q := h.parties[0], h.parties[1]
		ok := h.send(p, q, 0) && h.deliver(0)
		if c%3 == 1 {
			ok = ok && h.send(q, p, 0) && h.deliver(0)
		}
		for i := 0; i < 480+rng.Intn(100) && ok; i++ {
			o := kit.Opts{NumOfKeys: h.nkeys[p.ID], AvgSize: h.avg, Nym: "n"}
			m, err := p.Encrypt(q, []byte(fmt.Sprint(i)), o)
			if err != nil {
				t.Violation("encrypt-failed", map[string]interface{}{"history": h.key, "message": i, "err": err.Error()})
				break
			}
			m.N = i
			h.log = append(h.log, "+")
			if i%7 != 3 { // some get lost
				ok = h.check(m)
			}
		}
		t.Count("long-histories")
	}
}
