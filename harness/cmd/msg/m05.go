package main

import (
	"fmt"

	"github.com/mutecomm/mute/msg"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m05 = &mon.Prop{
	Level: "exploration",
	Rule: "random histories as in M01 with a monitor on the session store: every message key which encrypts a message is recorded; one evaluation is one sent or received message " +
		"(distinct by history and position); no key value may encrypt two messages, a key must be gone from the store of the sender after sending and of the recipient after reading, " +
		"and every message read is replayed later (at once, and at random later points) and must be refused",
	MinEvents: 800,
	Run:       runM05,
}

func runM05(t *mon.T) {
	fr := &freshness{map[string]string{}}
	for c := 0; c < t.N(110, 3000) && t.Violations() < 20; c++ {
		rng := t.Rand("c", c)
		n := 2 + rng.Intn(2)
		h := newHistory(t, rng, fmt.Sprint(c), n)
		t.Case(map[string]interface{}{"history": c})
		type use struct {
			sess   string
			sender bool
			idx    uint64
			value  string
		}
		var cur []use
		var got string // last key handed out for encryption
		sentWith := map[string]int{}
		readWith := map[string]int{}
		for _, p := range h.parties {
			st := p.Ref
			st.OnGetMessageKey = func(k string, sender bool, idx uint64, err error) {
				if err == nil && sender {
					got = st.Sessions[k].Send[idx]
				}
			}
			// the key a message was protected with is the one deleted afterwards
			st.OnDelMessageKey = func(k string, sender bool, idx uint64, value string) {
				cur = append(cur, use{k, sender, idx, value})
			}
		}
		gone := func(p *kit.Party, u use) bool {
			s := p.Ref.Sessions[u.sess]
			l := s.Recv
			if u.sender {
				l = s.Send
			}
			return l[u.idx] == ""
		}
		replay := func(m *kit.Msg) bool {
			got, sender, sig, err := m.To.Decrypt(m.Wire, h.nkeys[m.To.ID])
			t.Count("replayed")
			if err == nil || len(got) > 0 || sender != "" || sig != "" {
				t.Violation("replay", map[string]interface{}{"history": c, "log": h.log, "message": m.N, "err": fmt.Sprint(err), "bytes": len(got)})
				return false
			}
			return true
		}
		var done []*kit.Msg
		ok := true
		for s := 0; s < 50 && ok; s++ {
			if len(h.flight) == 0 || (len(h.flight) < 15 && rng.Intn(2) == 0) {
				i := rng.Intn(n)
				j := (i + 1 + rng.Intn(n-1)) % n
				cur = nil
				st := msg.StatusCode(msg.StatusOK)
				if rng.Intn(15) == 0 {
					st = msg.StatusCode(1 + rng.Intn(2))
				}
				if ok = h.send(h.parties[i], h.parties[j], st); !ok {
					break
				}
				m := h.flight[len(h.flight)-1]
				fr.look(t, fmt.Sprintf("%d/%d", c, m.N), m.Wire)
				t.Eval(fmt.Sprintf("%d send %d", c, m.N))
				if len(cur) == 0 {
					t.Violation("no-key", "a message was encrypted without a key of the session store")
					break
				}
				u := cur[len(cur)-1]
				t.Checkf(u.sender, "direction", "message %d of history %d encrypted with a recipient key", m.N, c)
				if o := sentWith[u.value]; o != 0 {
					t.Violation("key-reused", map[string]interface{}{"history": c, "log": h.log, "messages": []int{o, m.N}})
				}
				sentWith[u.value] = m.N
				t.Checkf(got == u.value, "other-key-deleted", "message %d of history %d was encrypted with another key than the one deleted", m.N, c)
				t.Checkf(u.value != "", "no-key", "message %d of history %d: deleted an empty key", m.N, c)
				t.Checkf(gone(h.parties[i], u), "sender-key-kept", "history %d message %d: the sender keeps the message key", c, m.N)
			} else {
				i := rng.Intn(len(h.flight))
				m := h.flight[i]
				cur = nil
				if ok = h.deliver(i); !ok {
					break
				}
				if len(cur) == 0 {
					t.Violation("no-key", "a message was decrypted without a key of the session store")
					break
				}
				u := cur[len(cur)-1]
				t.Checkf(!u.sender, "direction", "message %d of history %d decrypted with a sender key", m.N, c)
				t.Checkf(gone(m.To, u), "recipient-key-kept", "history %d message %d: the recipient keeps the message key", c, m.N)
				if readWith[u.value] != 0 {
					t.Violation("key-read-twice", map[string]interface{}{"history": c, "log": h.log})
				}
				readWith[u.value] = m.N
				t.Checkf(sentWith[u.value] == m.N, "key-mismatch", "history %d: message %d was read with the key of %d", c, m.N, sentWith[u.value])
				done = append(done, m)
				if rng.Intn(2) == 0 {
					ok = replay(m)
				}
			}
			if len(done) > 0 && rng.Intn(4) == 0 && ok {
				ok = replay(done[rng.Intn(len(done))])
			}
		}
		for _, m := range done {
			if ok {
				ok = replay(m)
			}
		}
		t.Sample("history", map[string]interface{}{"id": c, "log": h.log})
	}
}
