package main

import (
	"bytes"
	"fmt"

	"verif/harness/kit"
	"verif/harness/mon"
)

var m08 = &mon.Prop{
	Level: "exploration",
	Rule: "pairs of parties which exchange messages with random interleavings for a while (refresh enabled for both, one or randomly) and then alternate in order for 8 rounds with refresh enabled; one evaluation is one window of 8 rounds; " +
		"in each window both stores must have started to use at least one new session, with the same keys on both sides, and the private keys of session keys which were used to read messages must be erased",
	MinEvents: 100,
	Run:       runM08,
}

func runM08(t *mon.T) {
	for c := 0; c < t.N(120, 3000) && t.Violations() < 10; c++ {
		rng := t.Rand("c", c)
		w := newWorld(t, rng)
		a, b := w.a, w.b
		if rng.Intn(2) == 0 {
			a, b = b, a
		}
		t.Case(c)
		var log []string
		one := func(p, q *kit.Party, avg uint) *kit.Msg {
			m, err := p.Encrypt(q, []byte("x"), kit.Opts{NumOfKeys: 3, AvgSize: avg, Nym: "n"})
			if err != nil {
				t.Violation("encrypt", map[string]interface{}{"case": c, "log": log, "err": err.Error()})
				return nil
			}
			return m
		}
		recv := func(m *kit.Msg) bool {
			got, _, _, err := m.To.Decrypt(m.Wire, 3)
			if err != nil || !bytes.Equal(got, []byte("x")) {
				t.Violation("decrypt", map[string]interface{}{"case": c, "log": log, "err": fmt.Sprint(err)})
				return false
			}
			return true
		}
		avgOf := func(p *kit.Party) uint {
			switch c % 4 {
			case 0:
				return 1
			case 1:
				return 2
			case 2:
				return 1 + uint(rng.Intn(5))
			}
			if p == a {
				return 1
			}
			return 1 << 30
		}
		// random prefix
		var flight []*kit.Msg
		ok := true
		for s := 0; s < rng.Intn(30) && ok; s++ {
			if len(flight) == 0 || rng.Intn(2) == 0 {
				p, q := a, b
				if rng.Intn(2) == 0 {
					p, q = b, a
				}
				m := one(p, q, avgOf(p))
				if ok = m != nil; ok {
					flight = append(flight, m)
				}
				log = append(log, "send "+p.ID)
			} else {
				i := 0
				if c%2 == 0 {
					i = rng.Intn(len(flight))
				}
				ok = recv(flight[i])
				log = append(log, "recv "+flight[i].From.ID)
				flight = append(flight[:i:i], flight[i+1:]...)
			}
		}
		for len(flight) > 0 && ok {
			ok = recv(flight[0])
			log = append(log, "recv "+flight[0].From.ID)
			flight = flight[1:]
		}
		keptBefore := map[*kit.Party]int{}
		for win := 0; win < 3 && ok; win++ {
			na, nb := len(a.Ref.Sessions), len(b.Ref.Sessions)
			// a phase in which messages get lost: keys must not pile up
			for r := 0; r < 25 && ok && c%2 == 1; r++ {
				for _, pq := range [][2]*kit.Party{{a, b}, {b, a}} {
					m := one(pq[0], pq[1], map[bool]uint{true: 1, false: 1 << 30}[c%4 != 3 || pq[0] == a])
					lost := rng.Intn(2) == 0
					log = append(log, fmt.Sprintf("lossy %s lost=%v", pq[0].ID, lost))
					ok = ok && m != nil && (lost || recv(m))
					t.Count(map[bool]string{true: "lost", false: "lossy-read"}[lost])
				}
			}
			na, nb = len(a.Ref.Sessions), len(b.Ref.Sessions)
			for r := 0; r < 8 && ok; r++ {
				for _, pq := range [][2]*kit.Party{{a, b}, {b, a}} {
					m := one(pq[0], pq[1], map[bool]uint{true: 1, false: 1 << 30}[c%4 != 3 || pq[0] == a])
					ok = ok && m != nil && recv(m)
				}
			}
			if !ok {
				break
			}
			t.Eval(fmt.Sprintf("%d/%d", c, win))
			da, db := len(a.Ref.Sessions)-na, len(b.Ref.Sessions)-nb
			t.CountN("new-sessions", int64(da))
			if da == 0 || db == 0 {
				t.Violation("no-refresh", map[string]interface{}{"case": c, "window": win, "log": log,
					"new sessions": []int{da, db}})
				break
			}
			// sessions shared: same root key hash on both sides
			shared := map[string]bool{}
			for _, s := range a.Ref.Sessions {
				shared[s.RootKeyHash] = true
			}
			common := 0
			for _, s := range b.Ref.Sessions {
				if shared[s.RootKeyHash] {
					common++
				}
			}
			t.Checkf(common > 0, "no-common-session", "case %d: the parties share no session", c)
			for _, p := range []*kit.Party{a, b} {
				kept := 0
				for _, k := range p.Ref.Keys {
					if k.Priv != "" {
						kept++
					}
				}
				// the current, the next and the previous session key may still
				// be needed for messages on their way
				// (plus one or two abandoned ones if both started a session);
				// the number must not grow with the conversation
				t.Checkf(kept <= 5 && (win == 0 || c%2 == 1 || kept <= keptBefore[p]), "old-private-keys", "case %d: %s keeps %d private session keys of %d", c, p.ID, kept, len(p.Ref.Keys))
				keptBefore[p] = kept
				t.Count(fmt.Sprintf("kept-private-keys=%d", kept))
			}
		}
		t.Sample("prefix", map[string]interface{}{"case": c, "log": log})
	}
}
