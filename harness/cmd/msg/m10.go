package main

import (
	"bytes"
	"fmt"

	"github.com/mutecomm/mute/msg"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m10 = &mon.Prop{
	Level: "exploration",
	Rule: "random histories of 2-3 parties (session refresh after 1 to 10 messages, 1-50 precomputed keys, messages lost, reordered, reset and error messages); an independent implementation of the key derivation, which is given all private keys the parties ever had, decrypts each message sent and received; " +
		"one evaluation is one message, distinct by history and position",
	MinEvents: 1000,
	Run:       runM10,
}

func runM10(t *mon.T) {
	for c := 0; c < t.N(120, 2500) && t.Violations() < 10; c++ {
		rng := t.Rand("c", c)
		h := newHistory(t, rng, fmt.Sprint(c), 2+c%2)
		h.avg = []uint{1, 1, 2, 3, 10}[rng.Intn(5)]
		k, err := kit.NewKnowing(h.parties)
		t.Must(err, "observer")
		loss := rng.Intn(3) == 0
		order := rng.Intn(2) == 0
		look := func() {
			for _, p := range h.parties {
				t.Must(k.Look(p), "look")
			}
		}
		for s := 0; s < t.N(40, 60); s++ {
			if len(h.flight) == 0 || rng.Intn(5) < 2 {
				i := rng.Intn(len(h.parties))
				j := (i + 1 + rng.Intn(len(h.parties)-1)) % len(h.parties)
				st := msg.StatusCode(msg.StatusOK)
				switch rng.Intn(25) {
				case 0:
					st = msg.StatusReset
				case 1:
					st = msg.StatusError
				}
				if !h.send(h.parties[i], h.parties[j], st) {
					break
				}
				look()
				m := h.flight[len(h.flight)-1]
				content, chained, err := k.Read(m.Wire, m.To)
				t.Eval(fmt.Sprint(c, "/", m.N))
				t.Count("messages")
				if chained {
					t.Count("sessions which follow another one")
				}
				if err != nil {
					t.Violation("derivation", map[string]interface{}{"case": c, "log": h.log, "message": m.N, "what": err.Error()})
					break
				}
				t.Checkf(bytes.Equal(content, m.Content), "content", "case %d: message %d has %d bytes, want %d", c, m.N, len(content), len(m.Content))
			} else {
				i := 0
				if !order {
					i = rng.Intn(len(h.flight))
				}
				if loss && rng.Intn(5) == 0 {
					h.flight = append(h.flight[:i:i], h.flight[i+1:]...)
					t.Count("lost")
					continue
				}
				if !h.deliver(i) {
					break
				}
				look()
			}
		}
		t.CountN("first sessions", int64(k.First))
	}
}
