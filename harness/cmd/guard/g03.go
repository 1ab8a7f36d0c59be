package main

import (
	"bytes"
	crand "crypto/rand"
	"database/sql"
	"fmt"
	"math/rand"
	"path/filepath"
	"time"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"verif/harness/mon"
)

var g03 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "histories of wallet store operations on a database on disk, with reopening, failing statements of each kind on each table, and processes which stop; every answer compared with a model; " +
		"one evaluation is one operation whose answer was compared",
	MinEvents: 5000,
	Run:       runG03,
}

// wModel is what a wallet should contain.
type wModel struct {
	tokens map[string]*wTok
	auth   []byte
	tries  int
	keys   [][32]byte
}

type wTok struct {
	e      client.TokenEntry
	locked int64 // lock ID, 0 if none
}

func (k *wTok) state() bool {
	return k.e.ServerPacket != nil || k.e.BlindingFactors != nil || k.e.NewOwnerPrivKey != nil
}

func (k *wTok) self() bool { return k.e.OwnerPrivKey != nil }

func same32(a, b *[32]byte) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }
func same64(a, b *[64]byte) bool { return (a == nil) == (b == nil) && (a == nil || *a == *b) }

// sameEntry compares entries.
func sameEntry(a, b *client.TokenEntry) bool {
	return bytes.Equal(a.Hash, b.Hash) && bytes.Equal(a.Token, b.Token) && bytes.Equal(a.Params, b.Params) &&
		same32(a.OwnerPubKey, b.OwnerPubKey) && same64(a.OwnerPrivKey, b.OwnerPrivKey) &&
		a.Renewable == b.Renewable && a.CanReissue == b.CanReissue && a.Usage == b.Usage && a.Expire == b.Expire &&
		bytes.Equal(a.ServerPacket, b.ServerPacket) && bytes.Equal(a.BlindingFactors, b.BlindingFactors) &&
		same32(a.NewOwnerPubKey, b.NewOwnerPubKey) && same64(a.NewOwnerPrivKey, b.NewOwnerPrivKey) &&
		(a.Params == nil) == (b.Params == nil) && (a.ServerPacket == nil) == (b.ServerPacket == nil)
}

// best returns the tokens which fit and expire first.
func (m *wModel) best(fit func(k *wTok) bool) map[string]bool {
	res := map[string]bool{}
	var min int64
	for h, k := range m.tokens {
		if !fit(k) {
			continue
		}
		if len(res) == 0 || k.e.Expire < min {
			res = map[string]bool{}
			min = k.e.Expire
		}
		if k.e.Expire == min {
			res[h] = true
		}
	}
	return res
}

func (m *wModel) count(fit func(k *wTok) bool) int64 {
	var n int64
	for _, k := range m.tokens {
		if fit(k) {
			n++
		}
	}
	return n
}

// faults makes statements of the kind on all tables fail until the returned
// function is called.
func faults(t *mon.T, db *sql.DB, kind string) func() {
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	t.Must(err, "tables")
	var tables []string
	for rows.Next() {
		var s string
		t.Must(rows.Scan(&s), "tables")
		tables = append(tables, s)
	}
	rows.Close()
	return faultsOn(t, db, kind, tables)
}

func faultsOn(t *mon.T, db *sql.DB, kind string, tables []string) func() {
	for _, s := range tables {
		_, err := db.Exec(fmt.Sprintf("CREATE TRIGGER vf_%s_%s BEFORE %s ON %s BEGIN SELECT RAISE(ABORT, 'injected'); END", kind, s, kind, s))
		t.Must(err, "trigger")
	}
	return func() {
		for _, s := range tables {
			_, err := db.Exec(fmt.Sprintf("DROP TRIGGER vf_%s_%s", kind, s))
			t.Must(err, "drop trigger")
		}
	}
}

func runG03(t *mon.T) {
	for c := 0; c < t.N(12, 120); c++ {
		walletHistory(t, c)
	}
	for c := 0; c < t.N(8, 60); c++ {
		walletFaults(t, c)
	}
}

// gen makes tokens.
type tokGen struct {
	rng    *rand.Rand
	usages []string
	owners []*wallet
	me     *wallet
}

func newTokGen(t *mon.T, rng *rand.Rand) *tokGen {
	return &tokGen{rng: rng, usages: []string{"UID", "Message", "Ac'count\"", ""}, owners: []*wallet{newWallet(t), newWallet(t)}, me: newWallet(t)}
}

func (g *tokGen) bytes(n int) []byte {
	b := make([]byte, 1+g.rng.Intn(n))
	g.rng.Read(b)
	return b
}

func (g *tokGen) entry(hash []byte) client.TokenEntry {
	if hash == nil {
		hash = make([]byte, 32)
		crand.Read(hash)
	}
	now := time.Now().Unix()
	e := client.TokenEntry{
		Hash:       hash,
		Token:      g.bytes(300),
		Renewable:  g.rng.Intn(2) == 0,
		CanReissue: g.rng.Intn(2) == 0,
		Usage:      g.usages[g.rng.Intn(len(g.usages))],
		Expire:     now + int64(g.rng.Intn(40)-10)*86400,
	}
	if g.rng.Intn(2) == 0 {
		e.OwnerPubKey, e.OwnerPrivKey = &g.me.pub, &g.me.priv
	} else {
		e.OwnerPubKey = &g.owners[g.rng.Intn(len(g.owners))].pub
	}
	g.progress(&e, g.rng.Intn(4))
	return e
}

// progress gives the entry the state it has at a stage of a reissue.
func (g *tokGen) progress(e *client.TokenEntry, stage int) {
	e.Params, e.ServerPacket, e.BlindingFactors, e.NewOwnerPubKey, e.NewOwnerPrivKey = nil, nil, nil, nil, nil
	if stage > 0 && (stage > 1 || g.rng.Intn(2) == 0) {
		e.Params = g.bytes(400)
	}
	if stage > 1 {
		e.ServerPacket, e.BlindingFactors = g.bytes(500), g.bytes(500)
		w := g.owners[g.rng.Intn(len(g.owners))]
		e.NewOwnerPubKey = &w.pub
		if stage > 2 {
			e.NewOwnerPrivKey = &w.priv
		}
	}
}

func openWallet(t *mon.T, file string) (*sql.DB, *walletstore.Storage) {
	db := openDB(t, file)
	ws, err := walletstore.New(db)
	if err != nil {
		t.Violation("open", fmt.Sprint(err))
		panic(mon.Failed{})
	}
	return db, ws
}

func walletHistory(t *mon.T, c int) {
	rng := t.Rand("g03", c)
	g := newTokGen(t, rng)
	file := filepath.Join(t.TempDir("wallet"), "wallet.db")
	db, ws := openWallet(t, file)
	defer func() { db.Close() }()
	m := &wModel{tokens: map[string]*wTok{}}
	var order []string
	pick := func() []byte {
		if len(order) == 0 || rng.Intn(20) == 0 {
			return g.bytes(31)
		}
		return []byte(order[rng.Intn(len(order))])
	}
	check := func(what string, ok bool, detail interface{}) {
		t.Eval("op/" + what)
		if !ok {
			t.Violation("op/"+what, fmt.Sprintf("%v", detail))
		}
	}
	usage := func() string { return g.usages[rng.Intn(len(g.usages))] }
	compare := func(what string, e *client.TokenEntry, err error, h string) {
		k := m.tokens[h]
		if k == nil {
			check(what, err != nil && e == nil, fmt.Sprintf("token %x which is not there: %v %v", h, e, err))
			return
		}
		check(what, err == nil && e != nil && sameEntry(e, &k.e), fmt.Sprintf("token %x: got %+v, %v, want %+v", h, e, err, k.e))
	}
	all := func() {
		for _, h := range order {
			e, err := ws.GetToken([]byte(h), -1)
			compare("all", e, err, h)
		}
		a, n := ws.GetAuthToken()
		check("all-auth", bytes.Equal(a, m.auth) && (a == nil) == (m.auth == nil) && n == m.tries, fmt.Sprintf("%x %d, want %x %d", a, n, m.auth, m.tries))
		check("all-keys", fmt.Sprint(ws.GetVerifyKeys()) == fmt.Sprint(m.keys), ws.GetVerifyKeys())
	}
	for step := 0; step < 220; step++ {
		op := rng.Intn(20)
		t.Case(map[string]interface{}{"history": c, "step": step, "op": op})
		now := time.Now().Unix()
		switch op {
		case 0, 1, 2: // new
			e := g.entry(nil)
			err := ws.SetToken(e)
			check("set", err == nil, err)
			m.tokens[string(e.Hash)] = &wTok{e: e}
			order = append(order, string(e.Hash))
		case 3, 4: // update, at times with all fields new
			h := pick()
			k := m.tokens[string(h)]
			if k == nil {
				break
			}
			e := k.e
			if rng.Intn(4) == 0 {
				e = g.entry(h)
			} else {
				g.progress(&e, rng.Intn(4))
			}
			err := ws.SetToken(e)
			check("update", err == nil, err)
			k.e = e
		case 5: // get
			h := pick()
			e, err := ws.GetToken(h, -1)
			compare("get", e, err, string(h))
		case 6: // get with lock
			h := pick()
			k := m.tokens[string(h)]
			lock := int64(1 + rng.Intn(1<<30))
			if k != nil && k.locked != 0 && rng.Intn(2) == 0 {
				lock = k.locked
			}
			e, err := ws.GetToken(h, lock)
			if k != nil && k.locked != 0 && k.locked != lock {
				check("get-locked", e == nil && err == client.ErrLocked, err)
			} else {
				compare("get-lock", e, err, string(h))
			}
		case 7, 8: // lock
			h := pick()
			id := ws.LockToken(h)
			k := m.tokens[string(h)]
			if k == nil || k.locked != 0 {
				check("lock-refused", id < 0, id)
			} else {
				check("lock", id > 0, id)
				k.locked = id
			}
		case 9: // unlock
			h := pick()
			ws.UnlockToken(h)
			if k := m.tokens[string(h)]; k != nil {
				k.locked = 0
			}
			t.Count("unlocks")
		case 10: // delete
			if rng.Intn(2) == 0 {
				h := pick()
				ws.DelToken(h)
				delete(m.tokens, string(h))
				e, err := ws.GetToken(h, -1)
				compare("deleted", e, err, string(h))
			}
		case 11, 12: // take a token of somebody else
			u := usage()
			var o *[32]byte
			if rng.Intn(2) == 0 {
				o = &g.owners[rng.Intn(len(g.owners))].pub
			}
			want := m.best(func(k *wTok) bool {
				return k.locked == 0 && !k.state() && !k.self() && k.e.Usage == u && (o == nil || *k.e.OwnerPubKey == *o)
			})
			e, err := ws.GetAndLockToken(u, o)
			if len(want) == 0 {
				check("take-none", e == nil && err == client.ErrNoToken, fmt.Sprint(e, err))
				break
			}
			if err != nil || e == nil || !want[string(e.Hash)] {
				check("take", false, fmt.Sprintf("%v %v, want one of %x", e, err, want))
				break
			}
			compare("take", e, err, string(e.Hash))
			id := ws.LockToken(e.Hash)
			check("take-locked", id < 0, id)
			if rng.Intn(2) == 0 {
				ws.UnlockToken(e.Hash)
			} else {
				m.tokens[string(e.Hash)].locked = -1 // the ID is not known
			}
		case 13: // find an own token
			u := usage()
			want := m.best(func(k *wTok) bool { return k.locked == 0 && !k.state() && k.self() && k.e.Usage == u })
			e, err := ws.FindToken(u)
			if len(want) == 0 {
				check("find-none", e == nil && err == client.ErrNoToken, fmt.Sprint(e, err))
			} else if err != nil || e == nil || !want[string(e.Hash)] {
				check("find", false, fmt.Sprintf("%v %v, want one of %x", e, err, want))
			} else {
				compare("find", e, err, string(e.Hash))
			}
		case 14: // what has to be done
			want := m.best(func(k *wTok) bool {
				return k.locked == 0 && k.e.Renewable && !k.state() && k.e.Params == nil && k.self() && k.e.Expire < now+walletstore.ExpireEdge
			})
			h := ws.GetExpire()
			check("expire", h == nil && len(want) == 0 || want[string(h)], fmt.Sprintf("%x, want one of %x", h, want))
			want = map[string]bool{}
			for h, k := range m.tokens {
				if k.locked == 0 && k.state() {
					want[h] = true
				}
			}
			h = ws.GetInReissue()
			check("in-reissue", h == nil && len(want) == 0 || want[string(h)], fmt.Sprintf("%x, want one of %x", h, want))
		case 15: // balances
			u := usage()
			n := m.count(func(k *wTok) bool { return k.locked == 0 && !k.state() && k.self() && k.e.Usage == u })
			got := ws.GetBalanceOwn(u)
			check("balance-own", got == n, fmt.Sprint(got, " instead of ", n))
			for _, o := range []*[32]byte{nil, &g.owners[0].pub, &g.owners[1].pub, &g.me.pub} {
				n := m.count(func(k *wTok) bool {
					return k.locked == 0 && !k.state() && !k.self() && k.e.Usage == u && (o == nil || *k.e.OwnerPubKey == *o)
				})
				got := ws.GetBalance(u, o)
				check("balance", got == n, fmt.Sprint(got, " instead of ", n))
			}
		case 16: // clean
			if rng.Intn(3) > 0 {
				break
			}
			more, rounds := true, 0
			gone := func(k *wTok) bool { return k.e.Expire < now-walletstore.ExpireEdge }
			for more && rounds < 100 {
				more = ws.ExpireUnusable()
				rounds++
			}
			check("expire-unusable-ends", !more, rounds)
			for h, k := range m.tokens {
				if gone(k) {
					delete(m.tokens, h)
				}
			}
			all()
		case 17: // caches
			if rng.Intn(2) == 0 {
				m.auth, m.tries = g.bytes(100), rng.Intn(5)
				if rng.Intn(3) == 0 {
					m.auth, m.tries = nil, 0
				}
				err := ws.SetAuthToken(m.auth, m.tries)
				check("auth", err == nil, err)
			} else {
				m.keys = nil
				for i := rng.Intn(4); i > 0; i-- {
					m.keys = append(m.keys, newWallet(t).pub)
				}
				ws.SetVerifyKeys(m.keys)
			}
			all()
		case 18: // locks
			switch rng.Intn(4) {
			case 0:
				ws.CleanLocks(true)
				for _, k := range m.tokens {
					k.locked = 0
				}
			case 1: // locks get old
				age := walletstore.MaxLockAge
				walletstore.MaxLockAge = -10
				ws.CleanLocks(false)
				walletstore.MaxLockAge = age
				for _, k := range m.tokens {
					k.locked = 0
				}
			default:
				ws.CleanLocks(false) // none is old
			}
			for h, k := range m.tokens {
				e, err := ws.GetToken([]byte(h), 1<<40)
				if k.locked != 0 {
					check("locks-kept", err == client.ErrLocked, err)
				} else {
					compare("locks-clean", e, err, h)
				}
			}
		case 19: // reopen
			db.Close()
			db, ws = openWallet(t, file)
			t.Count("reopened")
			for h, k := range m.tokens {
				if k.locked != 0 {
					_, err := ws.GetToken([]byte(h), 1<<40)
					check("locks-reopened", err == client.ErrLocked, err)
				}
			}
			all()
		}
	}
	all()
}

// walletFaults lets single statements fail.
func walletFaults(t *mon.T, c int) {
	rng := t.Rand("g03f", c)
	g := newTokGen(t, rng)
	file := filepath.Join(t.TempDir("wallet"), "wallet.db")
	db, ws := openWallet(t, file)
	defer func() { db.Close() }()
	content := map[string]client.TokenEntry{}
	for i := 0; i < 4; i++ {
		e := g.entry(nil)
		g.progress(&e, i)
		t.Must(ws.SetToken(e), "set token")
		content[string(e.Hash)] = e
	}
	check := func(kind string) {
		for h, want := range content {
			w := want
			e, err := ws.GetToken([]byte(h), -1)
			if err != nil || !sameEntry(e, &w) {
				t.Violation("fault-"+kind, fmt.Sprintf("token %x: %+v, %v, want %+v", h, e, err, want))
			}
		}
	}
	tables := []string{}
	rows, err := db.Query("SELECT name FROM sqlite_master WHERE type='table'")
	t.Must(err, "tables")
	for rows.Next() {
		var s string
		rows.Scan(&s)
		tables = append(tables, s)
	}
	rows.Close()
	var hashes []string
	for h := range content {
		hashes = append(hashes, h)
	}
	for _, tab := range tables {
		for _, kinds := range [][]string{{"INSERT"}, {"UPDATE"}, {"DELETE"}, {"INSERT", "UPDATE"}} {
			for op := 0; op < 8; op++ {
				var undo []func()
				for _, k := range kinds {
					undo = append(undo, faultsOn(t, db, k, []string{tab}))
				}
				name := fmt.Sprintf("%v-%s", kinds, tab)
				t.Case(map[string]interface{}{"fault": name, "op": op})
				t.Eval(fmt.Sprintf("fault/%s/%d", name, op))
				h := hashes[rng.Intn(len(hashes))]
				switch op {
				case 0, 1, 2, 3: // new, in each state
					e := g.entry(nil)
					g.progress(&e, op)
					if err := ws.SetToken(e); err == nil {
						content[string(e.Hash)] = e
						hashes = append(hashes, string(e.Hash))
						t.Count("kept")
					} else {
						t.Count("failed")
						if x, err := ws.GetToken(e.Hash, -1); err == nil && !sameEntry(x, &e) {
							t.Violation("fault-partial", fmt.Sprintf("%+v", x))
						}
						if x, err := ws.FindToken(e.Usage); err != nil && err != client.ErrNoToken {
							t.Violation("fault-unreadable", fmt.Sprintf("%+v %v", x, err))
						}
						if x := ws.GetBalanceOwn(e.Usage); x > 0 {
							if _, err := ws.FindToken(e.Usage); err != nil {
								t.Violation("fault-balance", fmt.Sprint(x))
							}
						}
					}
				case 4, 5: // update
					e := content[h]
					g.progress(&e, rng.Intn(4))
					if ws.SetToken(e) == nil {
						content[h] = e
						t.Count("kept")
					} else {
						t.Count("failed")
					}
				case 6, 7: // delete, also a token in reissue
					for x, e := range content {
						if op == 7 && e.ServerPacket != nil {
							h = x
						}
					}
					ws.DelToken([]byte(h))
					if _, err := ws.GetToken([]byte(h), -1); err != nil {
						delete(content, h)
						if bytes.Equal(ws.GetInReissue(), []byte(h)) {
							t.Violation("fault-half-deleted", fmt.Sprintf("%x", h))
							return
						}
						if len(content) == 0 {
							return
						}
						hashes = nil
						for h := range content {
							hashes = append(hashes, h)
						}
					} else {
						t.Count("failed")
					}
				}
				for _, u := range undo {
					u()
				}
				check(name)
				if rng.Intn(4) == 0 {
					db.Close()
					db, ws = openWallet(t, file)
					check(name + "-reopened")
				}
			}
		}
	}
}
