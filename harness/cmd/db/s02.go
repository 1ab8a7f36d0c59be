package main

import (
	"fmt"
	"math"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/uid"
	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"
)

var s02 = &mon.Prop{
	Level: "exploration",
	Rule: "random histories of operations on the identity, key message, hash chain and value tables of a key database with several identities, domains and domain spellings, with failing statements, reopening, rekeying and vacuum; after every operation all that can be read is compared with a model; " +
		"one evaluation is one operation with the following comparison",
	MinEvents: 1000,
	Run:       runS02,
}

type privM struct {
	msg   *uid.Message
	json  string
	reply *uid.MessageReply
}

type pubM struct {
	msg *uid.Message
	pos uint64
}

type kiM struct {
	ki                     *uid.KeyInit
	hash, sigPub, priv     string
	sigKeyHash, serverSign string
}

type keyRun struct {
	t    *mon.T
	rng  *rand.Rand
	name string
	pass []byte
	db   *keydb.KeyDB
	hist []string

	priv   map[string][]*privM
	pub    map[string][]*pubM
	privKI []*kiM
	pubKI  map[string][]*kiM
	chain  map[string]map[uint64]string
	kv     map[string]string
}

func (r *keyRun) bad(key, format string, a ...interface{}) {
	h := r.hist
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	r.t.Violation(key, map[string]interface{}{"what": fmt.Sprintf(format, a...), "history": strings.Join(h, "; ")})
}

func runS02(t *mon.T) {
	for c := 0; c < t.N(24, 500) && t.Violations() < 8; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		r := &keyRun{t: t, rng: rng, name: filepath.Join(t.TempDir(fmt.Sprintf("k%d", c)), "keys"), pass: []byte(fmt.Sprint("pass", c)),
			priv: map[string][]*privM{}, pub: map[string][]*pubM{}, pubKI: map[string][]*kiM{}, chain: map[string]map[uint64]string{}, kv: map[string]string{}}
		t.Must(keydb.Create(r.name, r.pass, 2), "create")
		var err error
		r.db, err = keydb.Open(r.name, r.pass)
		t.Must(err, "open")
		r.kv[keydb.DBVersion] = keydb.Version
		for k := 0; k < 100 && t.Violations() < 8; k++ {
			r.step(c, k)
		}
		t.Must(r.db.Close(), "close")
	}
}

var kIDs = []string{"alice@aaa.example", "bob@aaa.example", "bob@bbb.example", "carol@bbb.example"}
var kDomains = map[string][]string{"aaa.example": {"aaa.example", "AAA.example", "Aaa.Example"}, "bbb.example": {"bbb.example", "bbb.EXAMPLE"}, "ccc.example": {"ccc.example"}}

func (r *keyRun) step(c, k int) {
	t, rng := r.t, r.rng
	id := kIDs[rng.Intn(len(kIDs))]
	dom := []string{"aaa.example", "bbb.example", "ccc.example"}[rng.Intn(3)]
	spelled := kDomains[dom][rng.Intn(len(kDomains[dom]))]
	var op, table string
	var call func() error
	var effect func()
	ok := true
	switch rng.Intn(14) {
	case 0, 1:
		table = "PrivateUIDs"
		var m *uid.Message
		var err error
		if l := r.priv[id]; len(l) > 0 && rng.Intn(2) == 0 {
			m, err = l[len(l)-1].msg.Update(cipher.RandReader)
		} else if len(l) > 0 {
			return
		} else {
			m, err = uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		}
		t.Must(err, "message")
		op = fmt.Sprintf("AddPrivateUID(%s, %d)", id, m.UIDContent.MSGCOUNT)
		js := string(m.JSON())
		call = func() error { return r.db.AddPrivateUID(m) }
		effect = func() { r.priv[id] = append(r.priv[id], &privM{msg: m, json: js}) }
	case 2:
		table = "PrivateUIDs"
		l := r.priv[id]
		if len(l) == 0 {
			return
		}
		x := l[rng.Intn(len(l))]
		sk, err := cipher.Ed25519Generate(cipher.RandReader)
		t.Must(err, "key")
		_, _, enc := x.msg.Encrypt()
		rep := uid.CreateReply(enc, "entry", uint64(rng.Intn(100)), sk)
		op = fmt.Sprintf("AddPrivateUIDReply(%s, %d)", id, x.msg.UIDContent.MSGCOUNT)
		call = func() error { return r.db.AddPrivateUIDReply(x.msg, rep) }
		effect = func() { x.reply = rep }
	case 3:
		table = "PrivateUIDs"
		l := r.priv[id]
		if len(l) == 0 || rng.Intn(2) == 0 {
			return
		}
		i := rng.Intn(len(l))
		op = fmt.Sprintf("DelPrivateUID(%s, %d)", id, l[i].msg.UIDContent.MSGCOUNT)
		call = func() error { return r.db.DelPrivateUID(l[i].msg) }
		effect = func() { r.priv[id] = append(append([]*privM{}, l[:i]...), l[i+1:]...) }
	case 4, 5:
		table = "PublicUIDs"
		m, err := uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
		t.Must(err, "message")
		pos := uint64(rng.Intn(40))
		if rng.Intn(10) == 0 {
			pos = math.MaxInt64 - uint64(rng.Intn(3))
		}
		for _, x := range r.pub[id] {
			if x.pos == pos {
				return
			}
		}
		op = fmt.Sprintf("AddPublicUID(%s, position %d)", id, pos)
		call = func() error { return r.db.AddPublicUID(m, pos) }
		effect = func() { r.pub[id] = append(r.pub[id], &pubM{m, pos}) }
	case 6, 7:
		l := r.priv[id]
		if len(l) == 0 {
			return
		}
		m := l[rng.Intn(len(l))].msg
		ki, hash, priv, err := m.KeyInit(0, uint64(time.Now().Unix()+86400), 0, true, id[strings.Index(id, "@")+1:], "mix@x.example", "nym", cipher.RandReader)
		t.Must(err, "key init")
		x := &kiM{ki: ki, hash: hash, sigPub: m.SigPubKey(), priv: priv, serverSign: fmt.Sprint("sig'", rng.Int())}
		x.sigKeyHash, _ = m.SigKeyHash()
		if rng.Intn(2) == 0 {
			table = "PrivateKeyInits"
			op = fmt.Sprintf("AddPrivateKeyInit(%s, %.8s)", id, hash)
			call = func() error { return r.db.AddPrivateKeyInit(ki, hash, x.sigPub, priv, x.serverSign) }
			effect = func() { r.privKI = append(r.privKI, x) }
		} else {
			table = "PublicKeyInits"
			op = fmt.Sprintf("AddPublicKeyInit(%s, %.8s)", id, hash)
			call = func() error { return r.db.AddPublicKeyInit(ki) }
			effect = func() { r.pubKI[x.sigKeyHash] = append(r.pubKI[x.sigKeyHash], x) }
		}
	case 8, 9, 10:
		table = "Hashchains"
		pos := uint64(len(r.chain[dom]))
		if _, used := r.chain[dom][pos]; used || rng.Intn(10) == 0 {
			pos = uint64(rng.Intn(50))
			if _, used := r.chain[dom][pos]; used {
				return
			}
		}
		e := keyserv.B64([]byte(fmt.Sprint(dom, pos, rng.Int())))
		op = fmt.Sprintf("AddHashChainEntry(%s, %d)", spelled, pos)
		call = func() error { return r.db.AddHashChainEntry(spelled, pos, e) }
		effect = func() {
			if r.chain[dom] == nil {
				r.chain[dom] = map[uint64]string{}
			}
			r.chain[dom][pos] = e
		}
	case 11:
		if rng.Intn(4) > 0 {
			return
		}
		table = "Hashchains"
		op = fmt.Sprintf("DelHashChain(%s)", spelled)
		call = func() error { return r.db.DelHashChain(spelled) }
		effect = func() { delete(r.chain, dom) }
	case 12:
		table = "KeyValueStore"
		key, v := []string{"a", "b", "'", "", keydb.DBVersion}[rng.Intn(5)], []string{"", "x", "y'", "\x00", fmt.Sprint(rng.Int())}[rng.Intn(5)]
		op = fmt.Sprintf("AddValue(%q, %q)", key, v)
		call = func() error { return r.db.AddValue(key, v) }
		ok = key != "" && v != ""
		effect = func() { r.kv[key] = v }
	case 13:
		r.hist = append(r.hist, "reopen")
		if rng.Intn(3) == 0 {
			if err := r.db.Vacuum([]string{"", "NONE", "FULL", "INCREMENTAL"}[rng.Intn(4)]); err != nil {
				r.bad("vacuum", "%s", err)
			}
			t.Count("vacuum")
		}
		t.Must(r.db.Close(), "close")
		if rng.Intn(3) == 0 {
			p := []byte(fmt.Sprintf("new%d", rng.Int()))
			if err := keydb.Rekey(r.name, r.pass, p, 2); err != nil {
				r.bad("rekey", "%s", err)
			} else {
				r.pass = p
			}
			t.Count("rekey")
		}
		var err error
		r.db, err = keydb.Open(r.name, r.pass)
		t.Must(err, "open")
		t.Count("reopen")
		r.compare("reopen")
		return
	}
	name := op[:strings.Index(op, "(")]
	t.Case(map[string]interface{}{"history": len(r.hist), "operation": op})
	injected := false
	if rng.Intn(4) == 0 {
		ev := []string{"INSERT", "UPDATE", "DELETE"}[rng.Intn(3)]
		q, err := encdb.Open(r.name, r.pass)
		t.Must(err, "second connection")
		_, err = q.Exec("CREATE TRIGGER verif_fault BEFORE " + ev + " ON " + table + " BEGIN SELECT RAISE(ABORT, 'injected'); END")
		t.Must(err, "trigger")
		err = call()
		_, e := q.Exec("DROP TRIGGER verif_fault")
		t.Must(e, "trigger")
		q.Close()
		injected = err != nil && strings.Contains(err.Error(), "injected")
		r.hist = append(r.hist, fmt.Sprintf("%s [%s fails] -> %v", op, ev, err))
		t.Count("fault/" + name)
		if injected {
			t.Count("fault-hit/" + name)
		}
		r.judge(name, op, ok, injected, err, effect)
	} else {
		err := call()
		r.hist = append(r.hist, fmt.Sprintf("%s -> %v", op, err))
		r.judge(name, op, ok, false, err, effect)
	}
	t.Eval(fmt.Sprint(c, k, op))
	t.Count("op/" + name)
	r.compare(name)
}

func (r *keyRun) judge(name, op string, ok, injected bool, err error, effect func()) {
	switch {
	case ok && err != nil && !injected:
		r.bad("refused/"+name, "%s: %s", op, err)
	case !ok && err == nil:
		r.bad("accepted/"+name, "%s did not fail", op)
	case ok && err == nil:
		effect()
	}
}

func (r *keyRun) compare(op string) {
	t, db := r.t, r.db
	t.Count("comparisons")
	bad := func(what, format string, a ...interface{}) { r.bad("differs/"+what+"/"+op, format, a...) }
	var all []string
	byDom := map[string][]string{}
	for _, id := range append([]string{"nobody@aaa.example"}, kIDs...) {
		l := r.priv[id]
		if len(l) > 0 {
			all = append(all, id)
			d := id[strings.Index(id, "@")+1:]
			byDom[d] = append(byDom[d], id)
		}
		for _, with := range []bool{true, false} {
			m, rep, err := db.GetPrivateUID(id, with)
			if len(l) == 0 {
				if err == nil {
					bad("private-uid", "unknown identity %s has a record", id)
				}
				continue
			}
			w := l[0]
			for _, x := range l {
				if x.msg.UIDContent.MSGCOUNT > w.msg.UIDContent.MSGCOUNT {
					w = x
				}
			}
			if err != nil {
				bad("private-uid", "%s: %s", id, err)
				continue
			}
			if string(m.JSON()) != w.json {
				bad("private-uid", "record of %s is number %d, not the newest, %d", id, m.UIDContent.MSGCOUNT, w.msg.UIDContent.MSGCOUNT)
			}
			if with && (m.PrivateSigKey() != w.msg.PrivateSigKey() || m.PrivateEncKey() != w.msg.PrivateEncKey()) {
				bad("private-keys", "private keys of %s differ", id)
			}
			if (rep == nil) != (w.reply == nil) || rep != nil && string(rep.JSON()) != string(w.reply.JSON()) {
				bad("reply", "the reply to record %d of %s differs", w.msg.UIDContent.MSGCOUNT, id)
			}
		}
		// public records up to a position
		pl := append([]*pubM{}, r.pub[id]...)
		sort.Slice(pl, func(i, j int) bool { return pl[i].pos < pl[j].pos })
		maxs := []uint64{0, math.MaxInt64, uint64(r.rng.Intn(45))}
		for _, x := range pl {
			maxs = append(maxs, x.pos)
			if x.pos > 0 {
				maxs = append(maxs, x.pos-1)
			}
		}
		for _, max := range maxs {
			var w *pubM
			for _, x := range pl {
				if x.pos <= max {
					w = x
				}
			}
			m, pos, found, err := db.GetPublicUID(id, max)
			if err != nil || found != (w != nil) || found && (pos != w.pos || string(m.JSON()) != string(w.msg.JSON())) {
				bad("public-uid", "record of %s up to position %d: found %v at %d, not %v (%v)", id, max, found, pos, w != nil, err)
			}
		}
	}
	ids, err := db.GetPrivateIdentities()
	if err != nil || !equal(ids, all) {
		bad("identities", "private identities %v, not %v (%v)", ids, all, err)
	}
	for d, v := range kDomains {
		for _, s := range v {
			ids, err := db.GetPrivateIdentitiesForDomain(s)
			if err != nil || !equal(ids, byDom[d]) {
				bad("identities", "private identities of %s %v, not %v (%v)", s, ids, byDom[d], err)
			}
			last, found, err := db.GetLastHashChainPos(s)
			var wl uint64
			for p := range r.chain[d] {
				if p > wl {
					wl = p
				}
			}
			if err != nil || found != (len(r.chain[d]) > 0) || found && last != wl {
				bad("chain", "last position of %s: %v %d, not %d (%v)", s, found, last, wl, err)
			}
			e, err := db.GetLastHashChainEntry(s)
			if (err == nil) != (len(r.chain[d]) > 0) || err == nil && e != r.chain[d][wl] {
				bad("chain", "last entry of %s differs (%v)", s, err)
			}
			for p := uint64(0); p < 50; p += 1 + uint64(r.rng.Intn(4)) {
				e, err := db.GetHashChainEntry(s, p)
				w, has := r.chain[d][p]
				if (err == nil) != has || e != w {
					bad("chain", "entry %d of %s is %q, not %q (%v)", p, s, e, w, err)
				}
			}
		}
	}
	for _, x := range r.privKI {
		ki, sp, pk, err := db.GetPrivateKeyInit(x.hash)
		if err != nil || string(ki.JSON()) != string(x.ki.JSON()) || sp != x.sigPub || pk != x.priv {
			bad("private-key-init", "key message %.8s differs (%v)", x.hash, err)
		}
	}
	for h, l := range r.pubKI {
		ki, err := db.GetPublicKeyInit(h)
		if err != nil || string(ki.JSON()) != string(l[len(l)-1].ki.JSON()) {
			bad("public-key-init", "the key message is not the one added last (%v)", err)
		}
	}
	if _, err := db.GetPublicKeyInit("none"); err == nil {
		bad("public-key-init", "unknown key message found")
	}
	if _, _, _, err := db.GetPrivateKeyInit("none"); err == nil {
		bad("private-key-init", "unknown key message found")
	}
	for k, v := range r.kv {
		if x, err := db.GetValue(k); err != nil || x != v {
			bad("value", "value %q is %q, not %q (%v)", k, x, v, err)
		}
	}
	if x, err := db.GetValue("none"); err != nil || x != "" {
		bad("value", "unknown value is %q (%v)", x, err)
	}
}
