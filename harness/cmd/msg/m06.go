package main

import (
	"bytes"
	"fmt"

	"github.com/mutecomm/mute/msg"
	"verif/harness/kit"
	"verif/harness/mon"
)

var m06 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "scripted and random conversations; for every operation (Encrypt or Decrypt) and every access to the session store it makes, one run where this access fails without effect and " +
		"one where the process ends directly after a write took effect; then the operation is retried and the conversation goes on for a number of messages in both directions; one evaluation is one (script, operation, access, kind); " +
		"everything must work after the fault and no message key may protect two messages that left the sender",
	Assumptions: []string{"one fault per run", "the store itself is atomic per access"},
	MinEvents:   300,
	Run:         runM06,
}

type crash struct{}

// step is one operation of a script.
type step struct {
	from, to int // send
	recv     bool
	idx      int // which message in flight to receive
}

func runM06(t *mon.T) {
	scripts := map[string][]step{
		"first":    {{from: 0, to: 1}, {recv: true}, {from: 1, to: 0}, {recv: true}},
		"both":     {{from: 0, to: 1}, {from: 1, to: 0}, {recv: true}, {recv: true}, {from: 0, to: 1}, {recv: true}, {from: 1, to: 0}, {recv: true}},
		"refresh":  {{from: 0, to: 1}, {recv: true}, {from: 1, to: 0}, {recv: true}, {from: 0, to: 1}, {recv: true}, {from: 1, to: 0}, {recv: true}, {from: 0, to: 1}, {recv: true}},
		"oneway":   {{from: 1, to: 0}, {from: 1, to: 0}, {from: 1, to: 0}, {from: 1, to: 0}, {recv: true, idx: 3}, {recv: true, idx: 1}, {recv: true}, {recv: true}},
		"pipeline": {{from: 0, to: 1}, {from: 0, to: 1}, {recv: true}, {from: 1, to: 0}, {recv: true}, {recv: true}, {from: 1, to: 0}, {from: 0, to: 1}, {recv: true}, {recv: true}, {from: 0, to: 1}, {recv: true}},
	}
	for r := 0; r < t.N(2, 40); r++ {
		rng := t.Rand("script", r)
		var s []step
		inflight := 0
		for i := 0; i < 10; i++ {
			if inflight == 0 || rng.Intn(2) == 0 {
				f := rng.Intn(2)
				s = append(s, step{from: f, to: 1 - f})
				inflight++
			} else {
				s = append(s, step{recv: true, idx: rng.Intn(inflight)})
				inflight--
			}
		}
		scripts[fmt.Sprintf("random%d", r)] = s
	}
	names := []string{"first", "both", "refresh", "oneway", "pipeline"}
	for r := 0; r < t.N(2, 40); r++ {
		names = append(names, fmt.Sprintf("random%d", r))
	}
	for _, name := range names {
		for _, avg := range []uint{1, 1 << 30} {
			script := scripts[name]
			for op := range script {
				for access := 0; ; access++ {
					more := false
					for _, kind := range []string{"fail", "crash"} {
						hit := m06case(t, name, avg, script, op, access, kind)
						more = more || hit
						if t.Violations() > 30 {
							return
						}
					}
					if !more {
						break
					}
				}
			}
		}
	}
}

// m06case runs a script with one fault. It tells whether the operation has
// that many accesses.
func m06case(t *mon.T, name string, avg uint, script []step, faultOp, access int, kind string) bool {
	id := fmt.Sprintf("%s avg=%d op=%d access=%d %s", name, avg, faultOp, access, kind)
	rng := t.Rand("case", name, avg)
	w := newWorld(t, rng)
	ps := []*kit.Party{w.a, w.b}
	const nk = 2
	released := map[string]string{} // key value -> message
	var curKey string
	for _, p := range ps {
		st := p.Ref
		st.OnGetMessageKey = func(k string, sender bool, idx uint64, err error) {
			if sender && err == nil {
				curKey = st.Sessions[k].Send[idx]
			}
		}
	}
	var flight []*kit.Msg
	n := 0
	bad := func(what string, err error) bool {
		t.Violation(what, map[string]interface{}{"case": id, "err": fmt.Sprint(err)})
		return false
	}
	send := func(p, q *kit.Party) (*kit.Msg, error) {
		n++
		curKey = ""
		content := []byte(fmt.Sprintf("message %d", n))
		m, err := p.Encrypt(q, content, kit.Opts{NumOfKeys: nk, AvgSize: avg, Nym: "n"})
		if m != nil && len(m.Wire) > 0 {
			if o, ok := released[curKey]; ok && curKey != "" {
				bad("key-reused", fmt.Errorf("%s and %s", o, content))
			}
			released[curKey] = string(content)
		}
		return m, err
	}
	recv := func(m *kit.Msg) error {
		got, sender, _, err := m.To.Decrypt(m.Wire, nk)
		if err != nil {
			return err
		}
		if !bytes.Equal(got, m.Content) || sender != m.From.ID {
			return fmt.Errorf("wrong content or sender")
		}
		return nil
	}
	hit := false
	where := ""
	for i, s := range script {
		var victim *kit.Party
		if s.recv {
			victim = flight[s.idx].To
		} else {
			victim = ps[s.from]
		}
		faulty := i == faultOp
		if faulty {
			k := 0
			fault := func(write bool, op string) error {
				if k++; k-1 == access {
					hit = true
					where = op
					if kind == "crash" {
						panic(crash{})
					}
					return kit.ErrInjected
				}
				return nil
			}
			if kind == "fail" {
				victim.Ref.Before = func(op string, write bool) error { return fault(write, op) }
			} else {
				victim.Ref.After = func(op string, write bool) error { return fault(write, op) }
			}
		}
		var err error
		var m *kit.Msg
		run := func() (p interface{}) {
			defer func() { p = recover() }()
			if s.recv {
				err = recv(flight[s.idx])
			} else {
				m, err = send(ps[s.from], ps[s.to])
			}
			return nil
		}
		p := run()
		if p != nil {
			if _, ok := p.(crash); !ok {
				return bad("panic", fmt.Errorf("%v", p))
			}
			if m == nil {
				err = fmt.Errorf("crashed")
			}
		}
		victim.Ref.Before, victim.Ref.After = nil, nil
		if err != nil || p != nil {
			if !faulty {
				return bad("no-fault", err)
			}
			// retry
			if p := run(); p != nil {
				return bad("retry-panic", fmt.Errorf("%s: %v", where, p))
			}
			if err != nil {
				if s.recv && p != nil && where == "DelMessageKey" {
					// the process ended after the message was read
					t.Count("read-then-crashed")
					err = nil
				} else {
					return bad("retry-failed", fmt.Errorf("after a fault in %s: %v", where, err))
				}
			}
		}
		if s.recv {
			flight = append(flight[:s.idx:s.idx], flight[s.idx+1:]...)
		} else {
			flight = append(flight, m)
		}
	}
	if !hit {
		return false
	}
	t.Case(id)
	t.Eval(id)
	t.Count("fault:" + kind + ":" + where)
	t.Sample("fault", id+" at "+where)
	// the conversation goes on
	for i := 0; i < 24; i++ {
		p, q := w.a, w.b
		if i%2 == 1 || i > 16 {
			p, q = q, p
		}
		m, err := send(p, q)
		if err != nil {
			return bad("later-encrypt", fmt.Errorf("after a fault in %s: %v", where, err))
		}
		if i%5 == 4 {
			flight = append(flight, m)
			continue
		}
		var rerr error
		if pn := mon.Panics(func() { rerr = recv(m) }); pn != nil {
			return bad("later-panic", fmt.Errorf("after a fault in %s: %v", where, pn))
		}
		if rerr != nil {
			return bad("later-decrypt", fmt.Errorf("after a fault in %s, message %d: %v", where, i, rerr))
		}
	}
	for _, m := range flight {
		if err := recv(m); err != nil {
			return bad("late-decrypt", fmt.Errorf("after a fault in %s: %v", where, err))
		}
	}
	_ = msg.Version
	return true
}
