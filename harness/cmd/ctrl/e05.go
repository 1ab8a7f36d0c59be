package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"fmt"
	mrand "math/rand"
	"sort"
	"strings"
	"time"

	"verif/harness/mon"

	"github.com/mutecomm/mute/msgdb"
)

var e05 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "members with identities and several accounts renew them with the real client while time passes (the times at server and client are moved) and servers fail; " +
		"one evaluation is one command which was judged, with all accounts, the tokens and the times of execution",
	MinEvents: 300,
	Run:       runE05,
}

const year = 365 * 86400

// acct is an account as server and client see it.
type acct struct {
	id, contact string
	key         [32]byte
	a           *account
}

type estate struct {
	*life
	m    *member
	ids  []string
	accs []*acct
	runs map[string]int64 // time of the last execution, by command and identity

	flight  int              // tokens which may be paid for and not received
	repeats map[*account]int // payments repeated with the same token
}

func newEstate(t *mon.T, rng *mrand.Rand) *estate {
	e := &estate{life: lifeIn(t, newWorld(t), rng), runs: map[string]int64{}, repeats: map[*account]int{}}
	e.m = e.w.newMember()
	d := e.w.d
	d.paid = func(a *account, pay []byte) {
		for _, b := range a.payments {
			if bytes.Equal(b, pay) {
				e.repeats[a]++ // the answer to the first one was lost
				return
			}
		}
		a.payments = append(a.payments, append([]byte{}, pay...))
		if now := time.Now().Unix(); a.load < now {
			a.load = now
		}
		a.load += year
	}
	for i := 0; i < 1+rng.Intn(3); i++ {
		id := []string{"ann", "bea", "cleo"}[i] + "@mute.one"
		p := &person{m: e.m, id: id}
		e.people = append(e.people, p)
		e.must(p, "", "uid", "new", "--id", id)
		e.ids = append(e.ids, id)
		e.m.db(func(db *msgdb.MsgDB) {
			for k := rng.Intn(3); k > 0; k-- {
				// an account which is only for one contact
				contact := mapped(fmt.Sprintf("friend%d@mute.one", k))
				t.Must(db.AddContact(id, contact, contact, "", msgdb.WhiteList), "contact")
				_, priv, err := ed25519.GenerateKey(rand.Reader)
				t.Must(err, "key")
				var pk, secret [64]byte
				copy(pk[:], priv)
				t.Must(db.AddAccount(id, contact, &pk, "127.0.0.1", &secret, 1, 2), "account")
			}
			l, err := db.GetAccounts(id)
			t.Must(err, "accounts")
			for _, contact := range l {
				pk, server, _, _, _, _, err := db.GetAccount(id, contact)
				t.Must(err, "account")
				a := &acct{id: id, contact: contact}
				copy(a.key[:], pk[32:])
				d.mu.Lock()
				a.a = d.get(server, a.key)
				if contact != "" {
					a.a.load = time.Now().Unix() + int64(rng.Intn(400)-20)*86400 + 43200
				}
				d.mu.Unlock()
				e.accs = append(e.accs, a)
			}
		})
	}
	e.accounts(e.people[0])
	return e
}

// pass lets time pass: everything moves into the past.
func (e *estate) pass(days int64) {
	e.m.db(func(db *msgdb.MsgDB) {
		e.w.d.mu.Lock()
		defer e.w.d.mu.Unlock()
		for _, a := range e.accs {
			a.a.load -= days * 86400
			at, err := db.GetAccountTime(a.id, a.contact)
			e.t.Must(err, "time")
			if at != 0 {
				e.t.Must(db.SetAccountTime(a.id, a.contact, at-days*86400), "time")
			}
		}
		for _, id := range e.ids {
			for cmd, set := range map[string]func(string, int64) error{"accounts": db.SetUpkeepAccounts, "all": db.SetUpkeepAll} {
				if t := e.runs[cmd+id]; t != 0 {
					e.runs[cmd+id] = t - days*86400
					e.t.Must(set(id, t-days*86400), "time")
				}
			}
		}
	})
	e.note("%d days pass", days)
}

type snapshot struct {
	known map[*acct]int64 // what the client has stored
	load  map[*acct]int64
	paid  map[*acct]int
	again map[*acct]int
	runs  map[string]int64
	token int
	total int
	reqs  int
}

func (e *estate) look() *snapshot {
	s := &snapshot{known: map[*acct]int64{}, load: map[*acct]int64{}, paid: map[*acct]int{}, again: map[*acct]int{}, runs: map[string]int64{}}
	e.m.db(func(db *msgdb.MsgDB) {
		for _, a := range e.accs {
			var err error
			s.known[a], err = db.GetAccountTime(a.id, a.contact)
			e.t.Must(err, "time")
		}
		for _, id := range e.ids {
			var err error
			s.runs["accounts"+id], err = db.GetUpkeepAccounts(id)
			e.t.Must(err, "time")
			s.runs["all"+id], err = db.GetUpkeepAll(id)
			e.t.Must(err, "time")
		}
	})
	d := e.w.d
	d.mu.Lock()
	for _, a := range e.accs {
		s.load[a] = a.a.load
		s.paid[a] = len(a.a.payments)
		s.again[a] = e.repeats[a.a]
		s.total += len(a.a.payments)
	}
	s.reqs = len(d.reqs)
	d.mu.Unlock()
	s.token = e.m.tokens() - e.m.charged()
	return s
}

var upkeepDist []string

func init() {
	for nth := 1; nth <= 3; nth++ {
		for _, kind := range []string{"refuse", "500", "cut", "error"} {
			upkeepDist = append(upkeepDist, fmt.Sprintf("account/LoadAccount/%s/%d", kind, nth), fmt.Sprintf("account/AccountStat/%s/%d", kind, nth))
		}
		upkeepDist = append(upkeepDist, fmt.Sprintf("account/AccountStat/kill/%d", nth))
	}
	for _, kind := range []string{"before", "after", "kill"} {
		for _, nth := range []int{1, 2, 3, 4, 5} {
			upkeepDist = append(upkeepDist, fmt.Sprintf("guard/%s/%d", kind, nth))
		}
	}
}

// renew runs a command of upkeep and judges it.
func (e *estate) renew(cmd, id, period string, remain string, dist string) {
	mid := mapped(id)
	args := []string{"upkeep", cmd, "--id", id, "--period", period}
	if remain != "" {
		args = append(args, "--remaining", remain)
	}
	p := e.people[0]
	before := e.look()
	f := strings.Split(dist, "/")
	if len(f) == 4 && f[2] == "refuse" {
		i := 0
		e.w.d.mu.Lock()
		e.w.d.refuse = func(method string) string {
			if method != f[1] {
				return ""
			}
			if i++; fmt.Sprint(i) == f[3] {
				return "account server: out of order"
			}
			return ""
		}
		e.w.d.mu.Unlock()
	} else if dist != "" {
		e.disturb(p, dist)
	}
	locked := e.m.locked()
	start := time.Now().Unix()
	r := e.m.ctl("", args...)
	e.clear()
	e.w.d.mu.Lock()
	e.w.d.refuse = nil
	e.w.d.mu.Unlock()
	p.m.ended = nil
	e.note("%q (%s) -> %v", args, dist, r)
	e.t.Eval(fmt.Sprint(args, dist, e.rng.Int()))
	after := e.look()
	e.accounts(p)

	own := false
	for _, x := range e.ids {
		own = own || x == mid
	}
	pd, errP := time.ParseDuration(period)
	rd, errR := 2160*time.Hour, error(nil)
	if remain != "" {
		rd, errR = time.ParseDuration(remain)
	}
	due := func(cmd string) bool {
		last := before.runs[cmd+mid]
		return pd == 0 || last == 0 || last+int64(pd/time.Second) <= start
	}
	run := due("accounts") && (cmd == "accounts" || due("all"))
	bad := !own || errP != nil || run && errR != nil
	if bad {
		run = false
	}
	switch {
	case bad && r.err == nil:
		e.violation("accepted", "%q succeeds", args)
	case !bad && r.err != nil && dist == "":
		e.violation("fails", "%q: %v", args, r)
		return
	}
	failed := r.err != nil
	if failed && !bad {
		e.t.Count("disturbed/" + f[0])
	}
	// which accounts have been paid
	n := 0
	for _, a := range e.accs {
		k := after.paid[a] - before.paid[a]
		again := after.again[a] - before.again[a]
		n += k + again
		known := before.known[a]
		if known == 0 {
			known = before.load[a]
		}
		want := 0
		if run && a.id == mid && start+int64(rd/time.Second) >= known {
			want = 1
		}
		what := fmt.Sprintf("account of %s for %q, which has %d days left", a.id, a.contact, (before.load[a]-start)/86400)
		switch {
		case k > 0 && start+int64(rd/time.Second) < before.load[a]:
			e.violation("paid/needless", "%s, is paid %d times by %q", what, k, args)
		case k+again > want:
			e.violation("paid/"+word(want), "%s, is paid %d times by %q", what, k, args)
		case k+again < want && !failed:
			e.violation("unpaid", "%s, is not paid by %q", what, args)
		case k == 1:
			e.t.Count("renewed")
		case run && a.id == mid && !failed:
			e.t.Count("left alone")
		}
		// what the client knows
		if at := after.known[a]; at != after.load[a] && run && !failed && a.id == mid {
			e.violation("known", "%s: the client has stored %d, at the server it is %d", what, at, after.load[a])
		} else if at != 0 && at > after.load[a] {
			e.violation("known/more", "%s: the client has stored %d, at the server it is %d", what, at, after.load[a])
		}
	}
	if !run && after.reqs != before.reqs {
		e.violation("idle", "%q sends requests to the account server", args)
	}
	// tokens
	spent := before.token - after.token
	switch {
	case (r.killed || f[0] == "guard" && failed) && spent > n:
		e.flight += spent - n
	case spent < n && n-spent <= e.flight:
		e.flight -= n - spent
	case spent != n:
		e.violation("tokens", "%d tokens are gone and %d payments were made", spent, n)
	}
	if k := e.m.locked(); !r.killed && k > locked {
		e.violation("locked", "%d tokens are locked after %v", k-locked, r)
		e.m.unlock()
	} else if r.killed {
		e.m.unlock()
	}
	// times of execution
	for _, c := range []string{"accounts", "all"} {
		for _, x := range e.ids {
			b, a := before.runs[c+x], after.runs[c+x]
			// upkeep of everything runs even if the accounts are not due
			executed := x == mid && !bad && due(c) && (c == "all" && cmd == "all" || c == "accounts" && run)
			switch {
			case executed && !failed && (a < start || a > time.Now().Unix()):
				e.violation("executed", "%q does not record that it ran: %d", args, a)
			case (!executed || failed && !r.killed && c == cmd) && a != b:
				e.violation("executed/not", "%q (%v) changes the time of upkeep %s of %s from %d to %d", args, r, c, x, b, a)
			}
			e.runs[c+x] = a
		}
	}
}

func word(n int) string { return []string{"unasked", "twice"}[n] }

func runE05(t *mon.T) {
	n := t.N(21, 160)
	parallel(t, n, func(i int) {
		rng := t.Rand("estate", i)
		e := newEstate(t, rng)
		defer e.w.close()
		d := i
		ids := append([]string{}, e.ids...)
		sort.Strings(ids)
		for step := 0; step < 16; step++ {
			if rng.Intn(3) > 0 {
				e.pass([]int64{1, 7, 40, 100, 200, 300, 500}[rng.Intn(7)])
			}
			id := ids[rng.Intn(len(ids))]
			cmd := []string{"accounts", "accounts", "all"}[rng.Intn(3)]
			period := []string{"0", "0s", "12h", "36h", "1000h", "24h", "5000h"}[rng.Intn(7)]
			remain := ""
			if cmd == "accounts" {
				remain = []string{"", "", "0", "24h", "1000h", "8000h", "2160h"}[rng.Intn(7)]
			}
			switch rng.Intn(12) {
			case 0:
				id = []string{"zoe@mute.one", "friend1@mute.one", "nodomain", "-", "@"}[rng.Intn(5)]
			case 1:
				period = []string{"", "5", "h", "never", "1d", "12h "}[rng.Intn(6)]
			case 2:
				if cmd == "accounts" {
					remain = []string{"5", "x", "90d", "1y"}[rng.Intn(4)]
				}
			}
			if rng.Intn(3) == 0 {
				id = strings.ToUpper(id[:1]) + id[1:]
			}
			dist := ""
			if i >= 3 && rng.Intn(2) == 0 {
				// only where there is something to do
				period = "0"
				dist = upkeepDist[d%len(upkeepDist)]
				d += 7
			}
			e.renew(cmd, id, period, remain, dist)
		}
	})
}
