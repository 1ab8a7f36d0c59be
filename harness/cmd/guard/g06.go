package main

import (
	"bytes"
	"database/sql"
	"encoding/base64"
	"fmt"
	"math/rand"
	"path/filepath"
	"sync"
	"time"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/trivial"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/types"
	uwallet "github.com/mutecomm/mute/util/wallet"
	"verif/harness/mon"
)

var g06 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "wallets which buy, exchange, spend and recover tokens at servers of the harness, with connections lost before and after each call, failing statements, restarts and keys which change; what was charged is compared with what is usable at the end; " +
		"one evaluation is one call of the wallet which was judged",
	MinEvents: 450,
	Run:       runG06,
}

func runG06(t *mon.T) {
	n := newNet(t)
	defer n.close()
	client.TrustRoot = &n.rootPub
	for c := 0; c < t.N(16, 160); c++ {
		economy(t, n, c)
	}
	crashPoints(t, n)
	walletReplies(t, n)
	lockedReissue(t, n)
	runners(t, n)
}

// user is a user of a wallet.
type guser struct {
	t     *mon.T
	n     *guardNet
	kind  string // of the key storage
	dir   string
	db    *sql.DB
	ws    *walletstore.Storage
	cl    *client.Client
	w     *wallet
	acc   *walletAcc
	recip []*wallet
}

func newUser(t *mon.T, n *guardNet, kind string) *guser {
	u := &guser{t: t, n: n, kind: kind, dir: t.TempDir("g06"), w: newWallet(t)}
	u.acc = &walletAcc{replies: make(map[string]map[string]interface{})}
	n.mu.Lock()
	n.wallets[u.w.pub] = u.acc
	n.mu.Unlock()
	for i := 0; i < 2; i++ {
		u.recip = append(u.recip, newWallet(t))
	}
	u.start()
	return u
}

func (u *guser) start() {
	t := u.t
	u.db = openDB(t, filepath.Join(u.dir, "wallet.db"))
	var err error
	if u.kind == "trivial" {
		u.cl, err = trivial.New(u.db, &u.w.priv, cacert)
		t.Must(err, "wallet")
		u.ws, err = walletstore.New(u.db)
	} else {
		u.ws, err = walletstore.New(u.db)
		t.Must(err, "wallet store")
		u.cl, err = client.New([]types.Backend{{Type: "keydir", Value: filepath.Join(u.dir, "keys")}}, u.ws, &u.w.priv, cacert)
	}
	if err != nil {
		t.Violation("start", fmt.Sprint(err))
		panic(mon.Failed{})
	}
	u.cl.GoOnline()
	u.cl.GetVerifyKeys()
}

func (u *guser) restart() {
	u.db.Close()
	u.start()
}

// guardWorld is an issuer for each usage.
type guardWorld struct {
	uid, msg *issuer
}

func (w *guardWorld) of(usage string) (*issuer, *keyPair) {
	i := w.uid
	if usage == "Message" {
		i = w.msg
	}
	i.mu.Lock()
	defer i.mu.Unlock()
	return i, i.current[usage]
}

func newGuardWorld(t *mon.T, n *guardNet, preset bool) *guardWorld {
	n.setHook(nil)
	n.mu.Lock()
	n.trusted, n.extra = nil, make(map[[32]byte][]byte)
	n.mu.Unlock()
	w := &guardWorld{n.issuer(true), n.issuer(true)}
	w.uid.key("UID", time.Now().Unix()+40*86400)
	w.msg.key("Message", time.Now().Unix()+40*86400)
	n.mu.Lock()
	n.issuerOf = w.of
	n.preset = func() bool { return preset }
	n.mu.Unlock()
	return w
}

// live tells if a token is worth something at its issuer.
func (w *guardWorld) live(b []byte) (*tokenW, *keyPair, error) {
	tk, err := parseToken(b)
	if err != nil {
		return nil, nil, err
	}
	var id [32]byte
	copy(id[:], tk.KeyID)
	for _, i := range []*issuer{w.uid, w.msg} {
		i.mu.Lock()
		k := i.keys[id]
		spent := i.spent[string(tk.hash())] != ""
		if k != nil {
			_, _, err = i.check(b)
		}
		i.mu.Unlock()
		if k != nil {
			if spent {
				return nil, nil, fmt.Errorf("spent")
			}
			return tk, k, err
		}
	}
	return nil, nil, fmt.Errorf("unknown key")
}

// recover finishes what was interrupted, without faults.
func (u *guser) recover() {
	u.n.setHook(nil)
	last := ""
	for i := 0; ; i++ {
		h := u.ws.GetInReissue()
		if h == nil {
			return
		}
		if last == string(h) || i > 100 {
			u.t.Violation("recover/stuck", fmt.Sprintf("%x: %v", h, u.cl.LastError))
			return
		}
		last = string(h)
		u.t.Eval("recover")
		nh, err := u.cl.ReissueToken(h, nil)
		if err != nil {
			u.t.Violation("recover/error", fmt.Sprintf("%v: %v", err, u.cl.LastError))
			return
		}
		e, err := u.ws.GetToken(nh, -1)
		if err != nil {
			u.t.Violation("recover/lost", fmt.Sprint(err))
			return
		}
		u.t.Count("recovered")
		_ = e
	}
}

// balance counts what is in the wallet.
func (u *guser) balance() (n int64) {
	for _, us := range []string{"UID", "Message"} {
		n += u.ws.GetBalanceOwn(us) + u.ws.GetBalance(us, nil)
	}
	return
}

// audit takes all tokens out of the wallet and checks that each is worth something.
func (u *guser) audit(w *guardWorld, seen map[string]bool) {
	t := u.t
	judge := func(what string, e *client.TokenEntry, usage string) {
		tk, k, err := w.live(e.Token)
		if err != nil {
			t.Violation("audit/"+what, fmt.Sprint(err))
			return
		}
		if k.Usage != usage || e.Usage != usage || e.Expire != k.Expire || !bytes.Equal(e.Hash, tk.hash()) || tk.owner() == nil || *tk.owner() != *e.OwnerPubKey {
			t.Violation("audit/entry", fmt.Sprintf("%s %+v", what, e))
		}
		if seen[string(tk.hash())] {
			t.Violation("audit/twice", fmt.Sprintf("%x", tk.hash()))
		}
		seen[string(tk.hash())] = true
	}
	for _, us := range []string{"UID", "Message"} {
		for {
			e, err := u.ws.FindToken(us)
			if err != nil {
				break
			}
			judge("own", e, us)
			pub := [32]byte{}
			copy(pub[:], e.OwnerPrivKey[32:])
			if pub != *e.OwnerPubKey {
				t.Violation("audit/key", fmt.Sprintf("%+v", e))
			}
			u.ws.DelToken(e.Hash)
		}
		for {
			e, err := u.ws.GetAndLockToken(us, nil)
			if err != nil {
				break
			}
			judge("other", e, us)
			u.ws.DelToken(e.Hash)
		}
	}
	if h := u.ws.GetInReissue(); h != nil {
		t.Violation("audit/reissue", fmt.Sprintf("%x", h))
	}
}

var gErrs = map[error]bool{client.ErrRetry: true, client.ErrOffline: true, client.ErrFinal: true, client.ErrFatal: true, client.ErrNeedReissue: true}

// get asks the wallet for a token and judges it.
func (u *guser) get(w *guardWorld, usage string, owner *[32]byte, held map[string]bool, faulty bool) *client.TokenEntry {
	t := u.t
	var e *client.TokenEntry
	var err error
	t.Eval(fmt.Sprintf("get/%v", faulty))
	if !t.NoPanic("get-panic", usage, func() { e, err = u.cl.GetToken(usage, owner) }) {
		panic(mon.Failed{})
	}
	if err != nil {
		if !gErrs[err] || e != nil {
			t.Violation("get/error", fmt.Sprintf("%v %v", e, err))
		}
		t.Count("get failed")
		if !faulty {
			t.Count("get failed later")
		}
		return nil
	}
	if e == nil {
		t.Violation("get/nothing", fmt.Sprintf("neither token nor error: %v", u.cl.LastError))
		return nil
	}
	tk, k, err := w.live(e.Token)
	if err != nil {
		t.Violation("get/worthless", fmt.Sprint(err))
		return nil
	}
	if k.Usage != usage || e.Usage != usage {
		t.Violation("get/usage", fmt.Sprintf("%s instead of %s", k.Usage, usage))
	}
	if owner != nil && (tk.owner() == nil || *tk.owner() != *owner) {
		t.Violation("get/owner", fmt.Sprintf("%x instead of %x", tk.owner(), owner))
	}
	if held[string(e.Hash)] {
		t.Violation("get/twice", fmt.Sprintf("%x", e.Hash))
	}
	if id := u.ws.LockToken(e.Hash); id > 0 {
		t.Violation("get/unlocked", fmt.Sprintf("%x", e.Hash))
	}
	held[string(e.Hash)] = true
	t.Count("got")
	return e
}

func economy(t *mon.T, n *guardNet, c int) {
	rng := t.Rand("g06", c)
	w := newGuardWorld(t, n, c%2 == 1)
	u := newUser(t, n, []string{"trivial", "keydir"}[c/2%2])
	defer func() { u.db.Close() }()
	held := map[string]bool{}
	spent := 0
	var tokens []*client.TokenEntry
	usage := func() string { return []string{"UID", "Message"}[rng.Intn(2)] }
	lost, writes := 0, false
	failed := 0 // calls for tokens which failed in a row
	for step := 0; step < 28; step++ {
		// faults of the network
		faulty := rng.Intn(2) == 0 && failed < 3
		desc := ""
		n.setHook(nil)
		if faulty {
			kind := []string{"before", "after", "status", "raw"}[rng.Intn(4)]
			method := []string{"WalletServer.GetToken", "ServiceGuard.Reissue", "ServiceGuard.GetParams", "PublicService.VerifyKeys"}[rng.Intn(4)]
			desc = kind + " " + method
			n.setHook(func(c *call) fault {
				if c.method == method {
					return fault{kind: kind, text: "<html>"}
				}
				return fault{}
			})
		}
		var undo func()
		written := false // if writes fail
		n.mu.Lock()
		before := u.acc.charged
		n.mu.Unlock()
		if rng.Intn(8) == 0 {
			written, writes = true, true
			kind := []string{"INSERT", "UPDATE"}[rng.Intn(2)]
			// only writes of tokens, an auth token which is lost is lost
			undo = faultsOn(t, u.db, kind, []string{"walletTokens"})
			faulty, desc = true, desc+" "+kind
		}
		op := rng.Intn(10)
		t.Case(map[string]interface{}{"history": c, "step": step, "op": op, "fault": desc})
		switch {
		case op < 5:
			us := usage()
			var o *[32]byte
			if rng.Intn(4) > 0 {
				o = &u.recip[rng.Intn(2)].pub
			}
			e := u.get(w, us, o, held, faulty)
			if e != nil {
				tokens = append(tokens, e)
				failed = 0
			} else if u.acc.charged > 0 {
				failed++
			}
		case op == 5: // buy for later use
			us := usage()
			t.Eval("buy")
			t.NoPanic("buy-panic", us, func() {
				h, err := u.cl.WalletToken(us, nil)
				if err != nil && !gErrs[err] {
					t.Violation("buy/error", fmt.Sprint(err))
				}
				if err == nil {
					e, err := u.ws.GetToken(h, -1)
					if err != nil || e.OwnerPrivKey == nil || e.Usage != us {
						t.Violation("buy/token", fmt.Sprintf("%+v %v", e, err))
					}
					failed = 0
				} else {
					failed++
				}
			})
		case op == 6 && len(tokens) > 0: // spend
			e := tokens[0]
			tokens = tokens[1:]
			u.cl.DelToken(e.Hash)
			if _, err := u.ws.GetToken(e.Hash, -1); err == nil {
				t.Violation("spend", "still there")
			}
			spent++
		case op == 7 && len(tokens) > 0: // give back
			e := tokens[0]
			tokens = tokens[1:]
			u.cl.UnlockToken(e.Hash)
			delete(held, string(e.Hash))
		case op == 8:
			if undo != nil {
				undo()
				undo = nil
			}
			u.restart()
			t.Count("restarts")
		case op == 9: // finish something, or the issuers change keys
			if h := u.ws.GetInReissue(); h != nil {
				t.Eval("resume")
				t.NoPanic("resume-panic", nil, func() {
					nh, err := u.cl.ReissueToken(h, nil)
					if err == nil {
						if _, err := u.ws.GetToken(nh, -1); err != nil {
							t.Violation("resume/token", fmt.Sprint(err))
						}
						t.Count("resumed")
					} else if !gErrs[err] {
						t.Violation("resume/error", fmt.Sprint(err))
					}
				})
			} else if rng.Intn(2) == 0 {
				w.uid.key("UID", time.Now().Unix()+50*86400)
				w.msg.key("Message", time.Now().Unix()+50*86400)
				t.Count("new keys")
			}
		}
		if undo != nil {
			undo()
		}
		n.mu.Lock()
		if written && u.acc.charged > before {
			lost++ // bought, but perhaps it never arrived on disk
		}
		n.mu.Unlock()
	}
	n.setHook(nil)
	for _, e := range tokens {
		u.cl.UnlockToken(e.Hash)
	}
	if writes {
		u.ws.CleanLocks(true) // an unlock which could not be written ends with its time
	}
	// an auth token which was used is used up
	if a, _ := u.ws.GetAuthToken(); a != nil {
		for i := 0; i < 4; i++ {
			if e := u.get(w, "UID", &newWallet(t).pub, map[string]bool{}, true); e != nil {
				u.cl.UnlockToken(e.Hash)
			}
			if a, _ := u.ws.GetAuthToken(); a == nil {
				break
			}
		}
	}
	u.recover()
	if c%3 == 0 {
		u.restart()
	}
	got := u.balance() + int64(spent)
	n.mu.Lock()
	charged := u.acc.charged
	n.mu.Unlock()
	t.Eval("conserved")
	if got > int64(charged) || got < int64(charged-lost) {
		t.Violation("conserved", fmt.Sprintf("%d tokens charged, %d spent, %d in the wallet", charged, spent, got-int64(spent)))
	}
	seen := map[string]bool{}
	u.audit(w, seen)
	if int64(len(seen)+spent) != got {
		t.Violation("audit/count", fmt.Sprintf("%d of %d", len(seen), got-int64(spent)))
	}
	t.CountN("charged", int64(charged))
	t.CountN("spent", int64(spent))
}

// crashPoints stops a wallet at every call and write of getting a token.
func crashPoints(t *mon.T, n *guardNet) {
	for c := 0; c < t.N(1, 4); c++ {
		for _, preset := range []bool{false, true} {
			for _, kind := range []string{"trivial", "keydir"} {
				for point := 0; ; point++ {
					w := newGuardWorld(t, n, preset)
					u := newUser(t, n, kind)
					var mu sync.Mutex
					calls, reached := 0, false
					n.take()
					var once sync.Once
					n.setHook(func(q *call) fault {
						mu.Lock()
						defer mu.Unlock()
						calls++
						// two points for each call: the server has not seen
						// it, or did it and then nothing can be written
						switch {
						case calls == point/2+1 && point%2 == 0:
							reached = true
							return fault{kind: "before"}
						case calls == point/2+1:
							reached = true
							once.Do(func() {
								faultsOn(t, u.db, "INSERT", []string{"walletTokens", "walletState"})
								faultsOn(t, u.db, "UPDATE", []string{"walletTokens", "walletState"})
							})
						case reached:
							return fault{kind: "before"}
						}
						return fault{}
					})
					t.Case(map[string]interface{}{"point": point, "preset": preset, "keys": kind})
					t.Eval(fmt.Sprintf("crash/%v/%s/%d", preset, kind, point))
					var e *client.TokenEntry
					var err error
					t.NoPanic("crash-panic", point, func() { e, err = u.cl.GetToken("UID", &u.recip[0].pub) })
					n.setHook(nil)
					if !reached {
						if err != nil {
							t.Violation("crash/none", fmt.Sprint(err))
						}
						u.db.Close()
						break
					}
					if err == nil && e == nil {
						t.Violation("crash/nothing", fmt.Sprintf("point %d", point))
					}
					for _, s := range []string{"walletTokens", "walletState"} {
						for _, k := range []string{"INSERT", "UPDATE"} {
							u.db.Exec("DROP TRIGGER vf_" + k + "_" + s)
						}
					}
					u.restart()
					u.ws.CleanLocks(true)
					// go on
					u.recover()
					held := map[string]bool{}
					if e := u.get(w, "UID", &u.recip[0].pub, held, false); e == nil {
						t.Violation("crash/after", fmt.Sprintf("point %d: %v", point, u.cl.LastError))
					} else {
						u.ws.UnlockToken(e.Hash)
					}
					n.mu.Lock()
					charged := u.acc.charged
					n.mu.Unlock()
					// what was bought but never arrived on disk cannot be known
					lost := int64(0)
					if point%2 == 1 && point/2 == 0 {
						lost = 1
					}
					if b := u.balance(); b < int64(charged)-lost || b > int64(charged) {
						t.Violation("crash/conserved", fmt.Sprintf("point %d: %d tokens charged, %d in the wallet", point, charged, b))
					}
					u.audit(w, map[string]bool{})
					u.db.Close()
					t.Count("crash points")
				}
			}
		}
	}
}

// walletReplies checks replies of the wallet server.
func walletReplies(t *mon.T, n *guardNet) {
	w := newGuardWorld(t, n, false)
	u := newUser(t, n, "trivial")
	defer u.db.Close()
	owner := &u.recip[0].pub
	_, k := w.of("UID")
	_, km := w.of("Message")
	bad := n.issuer(false)
	kb := bad.key("UID", time.Now().Unix()+86400)
	full := func() map[string]interface{} {
		i, k := w.of("UID")
		return map[string]interface{}{"Token": b64(i.issue(k, &u.w.pub)), "Params": "", "PubKeyUsed": b64(k.enc)}
	}
	try := func(kind string, f fault) {
		t.Eval("reply/" + kind)
		t.Case(map[string]interface{}{"kind": kind, "reply": f.res})
		n.setHook(func(c *call) fault {
			if c.method == "WalletServer.GetToken" {
				return f
			}
			return fault{}
		})
		before := u.balance()
		var e *client.TokenEntry
		var err error
		t.NoPanic("reply-panic/"+kind, f.res, func() { e, err = u.cl.GetToken("UID", owner) })
		n.setHook(nil)
		if e != nil {
			if _, k, err := w.live(e.Token); err != nil || k.Usage != "UID" {
				t.Violation("reply/accepted/"+kind, fmt.Sprintf("%v", err))
			}
			u.cl.DelToken(e.Hash)
		} else if !gErrs[err] {
			t.Violation("reply/error/"+kind, fmt.Sprint(err))
		}
		_ = before
		// the wallet goes on
		for h := u.ws.GetInReissue(); h != nil; h = u.ws.GetInReissue() {
			u.ws.DelToken(h)
		}
		for {
			e, err := u.ws.FindToken("UID")
			if err != nil {
				break
			}
			u.ws.DelToken(e.Hash)
		}
		u.ws.SetAuthToken(nil, 0)
		held := map[string]bool{}
		if e := u.get(w, "UID", owner, held, false); e == nil {
			t.Violation("reply/after/"+kind, fmt.Sprint(u.cl.LastError))
		} else {
			u.cl.DelToken(e.Hash)
		}
		t.Count("bad replies")
	}
	for _, field := range []string{"Token", "Params", "PubKeyUsed"} {
		for _, f := range badReplies(field) {
			if f.kind == "result" {
				m := full()
				delete(m, field)
				if v, has := f.res[field]; has {
					m[field] = v
				}
				f.res = m
			}
			try(field, f)
		}
	}
	with := func(field string, b []byte) fault {
		m := full()
		m[field] = b64(b)
		return fault{kind: "result", res: m}
	}
	tok := w.uid.issue(k, &u.w.pub)
	try("untrusted-key", with("PubKeyUsed", kb.enc))
	try("other-key", with("PubKeyUsed", km.enc))
	try("cut-key", with("PubKeyUsed", k.enc[:40]))
	try("cut-token", with("Token", tok[:30]))
	try("foreign-token", fault{kind: "result", res: map[string]interface{}{"Token": b64(bad.issue(kb, &u.w.pub)), "Params": "", "PubKeyUsed": b64(kb.enc)}})
	try("other-usage", fault{kind: "result", res: map[string]interface{}{"Token": b64(w.msg.issue(km, &u.w.pub)), "Params": "", "PubKeyUsed": b64(km.enc)}})
	try("other-owner", with("Token", w.uid.issue(k, owner)))
	try("no-owner", with("Token", w.uid.issue(k, nil)))
	try("other-params", with("Params", w.msg.newParams(km, true)))
	try("junk-params", with("Params", []byte("params")))
	for _, s := range []string{"walletserver: server error", "walletserver: no such user", "walletserver: bad token", "walletserver: insufficient funds", "ErrReplay: 5", "ErrReplay: x", "ErrReplay", ""} {
		try("error", fault{kind: "error", text: s})
	}
	// the same from util/wallet, which repeats
	fails := 2
	n.setHook(func(c *call) fault {
		if c.method == "WalletServer.GetToken" && fails > 0 {
			fails--
			return fault{kind: []string{"after", "before"}[fails%2]}
		}
		return fault{}
	})
	n.mu.Lock()
	charged := u.acc.charged
	n.mu.Unlock()
	e, err := uwallet.GetToken(u.cl, "UID", owner)
	n.setHook(nil)
	if err != nil || e == nil {
		t.Violation("repeat/error", fmt.Sprint(err))
	} else if _, _, err := w.live(e.Token); err != nil {
		t.Violation("repeat/token", fmt.Sprint(err))
	}
	if u.acc.charged != charged+1 {
		t.Violation("repeat/charged", fmt.Sprintf("%d times", u.acc.charged-charged))
	}
	t.Eval("repeat")
	// another device has used the account
	n.mu.Lock()
	u.acc.counter += 50
	n.mu.Unlock()
	for i := 0; i < 3; i++ {
		if e := u.get(w, "Message", owner, map[string]bool{}, false); e == nil {
			t.Violation("counter", fmt.Sprint(u.cl.LastError))
			break
		} else {
			u.cl.DelToken(e.Hash)
		}
	}
	// ... while a call of this one was lost
	n.setHook(func(c *call) fault {
		if c.method == "WalletServer.GetToken" {
			n.mu.Lock()
			u.acc.counter += 7
			n.mu.Unlock()
			return fault{kind: "before"}
		}
		return fault{}
	})
	u.cl.GetToken("Message", owner)
	n.setHook(nil)
	if e := u.get(w, "Message", owner, map[string]bool{}, false); e == nil {
		t.Violation("counter/lost", fmt.Sprint(u.cl.LastError))
	}
	// offline
	u.cl.GoOffline()
	n.take()
	if e, err := u.cl.GetToken("UID", owner); err != client.ErrOffline || e != nil {
		t.Violation("offline", fmt.Sprint(e, err))
	}
	if q := n.take(); len(q) > 0 {
		t.Violation("offline/calls", fmt.Sprint(q))
	}
}

// lockedReissue checks that a token in use is not exchanged.
func lockedReissue(t *mon.T, n *guardNet) {
	for c := 0; c < t.N(4, 20); c++ {
		w := newGuardWorld(t, n, c%2 == 0)
		u := newUser(t, n, "trivial")
		i, k := w.of("UID")
		tok := i.issue(k, &u.w.pub)
		tk, _ := parseToken(tok)
		h := tk.hash()
		u.cl.Verify(tok) // makes the key known
		t.Must(u.ws.SetToken(client.TokenEntry{Hash: h, Token: tok, OwnerPubKey: &u.w.pub, OwnerPrivKey: &u.w.priv, Usage: "UID", Expire: k.Expire, Renewable: true, CanReissue: true}), "set token")
		id := u.cl.LockToken(h)
		if id <= 0 {
			t.Violation("locked/lock", fmt.Sprint(id))
			continue
		}
		n.take()
		t.Eval("locked")
		t.NoPanic("locked-panic", nil, func() {
			if _, err := u.cl.ReissueToken(h, &u.recip[0].pub); err == nil {
				t.Violation("locked/reissued", "a token in use was exchanged")
			}
		})
		if q := n.take(); len(q) > 0 {
			t.Violation("locked/calls", fmt.Sprint(q))
		}
		if u.cl.LockToken(h) > 0 {
			t.Violation("locked/unlocked", "the lock of another user is gone")
		}
		u.cl.UnlockToken(h)
		t.NoPanic("nobody-panic", nil, func() {
			nh, err := u.cl.ReissueToken(h, nil)
			if err != nil {
				t.Violation("nobody/error", fmt.Sprintf("%v: %v", err, u.cl.LastError))
				return
			}
			e, err := u.ws.GetToken(nh, -1)
			if err != nil || e.OwnerPrivKey == nil {
				t.Violation("nobody/token", fmt.Sprintf("%+v %v", e, err))
			}
		})
		seen := map[string]bool{}
		u.audit(w, seen)
		if len(seen) != 1 {
			t.Violation("nobody/count", fmt.Sprint(len(seen)))
		}
		// a received token which cannot be stored is refused
		tok = i.issue(k, &u.w.pub)
		tk, _ = parseToken(tok)
		undo := faultsOn(t, u.db, "INSERT", []string{"walletTokens"})
		t.Eval("receive")
		if err := u.cl.ReceiveToken("UID", tok); err == nil || !gErrs[err] {
			t.Violation("receive/lost", fmt.Sprint(err))
		}
		undo()
		if err := u.cl.ReceiveToken("UID", tok); err != nil {
			t.Violation("receive/error", fmt.Sprint(err, u.cl.LastError))
		}
		if e, err := u.ws.GetToken(tk.hash(), -1); err != nil || !bytes.Equal(e.Token, tok) || e.Usage != "UID" {
			t.Violation("receive/token", fmt.Sprint(err))
		}
		u.db.Close()
	}
}

// runners checks the background runner.
func runners(t *mon.T, n *guardNet) {
	w := newGuardWorld(t, n, false)
	u := newUser(t, n, "trivial")
	i, k := w.of("UID")
	old := i.key("UID", time.Now().Unix()+3*86400)
	i.mu.Lock()
	i.current["UID"] = k
	i.mu.Unlock()
	// a token which expires, one whose exchange was interrupted, and a target
	tok := i.issue(old, &u.w.pub)
	tk, _ := parseToken(tok)
	u.cl.Verify(tok)
	t.Must(u.ws.SetToken(client.TokenEntry{Hash: tk.hash(), Token: tok, OwnerPubKey: &u.w.pub, OwnerPrivKey: &u.w.priv, Usage: "UID", Expire: old.Expire, Renewable: true, CanReissue: true}), "set token")
	n.setHook(func(c *call) fault {
		if c.method == "ServiceGuard.Reissue" {
			return fault{kind: "after"}
		}
		return fault{}
	})
	u.cl.GetToken("UID", &u.recip[1].pub)
	if u.ws.GetInReissue() == nil {
		t.Fatalf("no interrupted exchange")
	}
	n.setHook(nil)
	tok2 := i.issue(old, &u.w.pub)
	tk2, _ := parseToken(tok2)
	t.Must(u.ws.SetToken(client.TokenEntry{Hash: tk2.hash(), Token: tok2, OwnerPubKey: &u.w.pub, OwnerPrivKey: &u.w.priv, Usage: "UID", Expire: old.Expire, Renewable: true, CanReissue: true}), "set token")
	u.cl.SetTarget(map[[32]byte]client.Target{u.recip[0].pub: {Usage: "Message", LowWaterMark: 2, HighWaterMark: 4}})
	u.cl.Runner()
	u.cl.Runner() // a second start does nothing
	good := func() bool {
		return u.ws.GetInReissue() == nil && u.ws.GetExpire() == nil && u.ws.GetBalance("Message", &u.recip[0].pub) >= 4
	}
	end := time.Now().Add(60 * time.Second)
	for !good() && time.Now().Before(end) {
		time.Sleep(50 * time.Millisecond)
	}
	t.Eval("runner")
	if !good() {
		t.Violation("runner/work", fmt.Sprintf("in reissue %x, expiring %x, %d tokens: %v", u.ws.GetInReissue(), u.ws.GetExpire(), u.ws.GetBalance("Message", &u.recip[0].pub), u.cl.LastError))
		return
	}
	time.Sleep(200 * time.Millisecond)
	if b := u.ws.GetBalance("Message", &u.recip[0].pub); b != 4 {
		t.Violation("runner/target", fmt.Sprintf("%d tokens", b))
	}
	t.Finishes("runner/set-target", nil, 20*time.Second, func() { u.cl.SetTarget(nil) })
	// while servers fail, it does not spin
	n.take()
	n.setHook(func(c *call) fault { return fault{kind: "status"} })
	u.cl.SetTarget(map[[32]byte]client.Target{u.recip[0].pub: {Usage: "UID", LowWaterMark: 2, HighWaterMark: 4}})
	time.Sleep(6 * time.Second)
	if q := n.take(); len(q) > 20 {
		t.Violation("runner/spins", fmt.Sprintf("%d calls in 6 s", len(q)))
	} else if len(q) == 0 {
		t.Violation("runner/sleeps", "no call in 6 s")
	}
	t.Finishes("runner/stop", nil, 20*time.Second, func() { u.cl.StopRunner() })
	time.Sleep(4 * time.Second)
	n.take()
	time.Sleep(4 * time.Second)
	if q := n.take(); len(q) > 0 {
		t.Violation("runner/runs", fmt.Sprintf("%d calls after it was stopped", len(q)))
	}
	n.setHook(nil)
	t.Finishes("runner/stop-again", nil, 20*time.Second, func() { u.cl.StopRunner() })
	u.cl.SetTarget(nil)
	u.cl.Runner()
	time.Sleep(100 * time.Millisecond)
	t.Finishes("runner/offline", nil, 20*time.Second, func() { u.cl.GoOffline() })
	if u.cl.IsOnline() {
		t.Violation("runner/online", "")
	}
	time.Sleep(3500 * time.Millisecond)
	u.ws.CleanLocks(true)
	u.cl.GoOnline()
	u.recover()
	u.audit(w, map[string]bool{})
	_ = rand.Int
	_ = base64.StdEncoding
	u.db.Close()
}
