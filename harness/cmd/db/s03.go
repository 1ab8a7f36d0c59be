package main

import (
	"bytes"
	"crypto/ed25519"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strings"

	"github.com/mutecomm/mute/msgdb"
	"verif/harness/mon"
)

var s03 = &mon.Prop{
	Level: "exploration",
	Rule: "random histories of all operations of a message database with several nyms, contacts with the same names, accounts, queues and caches, with wrong arguments, unusual texts, deletion of nyms and messages, reopening and vacuum; after every operation all that can be read is compared with a model; " +
		"one evaluation is one operation with the following comparison",
	MinEvents: 4000,
	Run:       func(t *mon.T) { runMsgDB(t, false) },
}

var s04 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "like S03, with statements on every table failing in the middle of operations (SQL triggers); an operation which reports an error must leave everything as it was, an operation which does not must have its complete effect; " +
		"one evaluation is one operation while statements fail, with the following comparison",
	MinEvents: 1500,
	Run:       func(t *mon.T) { runMsgDB(t, true) },
}

type contactM struct {
	unmapped, full string
	typ            msgdb.ContactType
}

type accountM struct {
	priv   [ed25519.PrivateKeySize]byte
	server string
	secret [64]byte
	min    int32
	max    int32
	load   int64
	last   int64
}

type messageM struct {
	id                int64
	self, peer        string
	sent              bool
	toSend, delivered bool
	date              int64
	text              string
	sign              bool
	min, max          int32
	read              bool
}

type outM struct {
	idx, msg         int64
	self, data, addr string
	min, max         int32
	envelope, resend bool
}

type inM struct {
	idx         int64
	my, contact string
	date        int64
	data        string
	envelope    bool
}

type nymM struct {
	unmapped, full string
	upAll, upAcc   int64
	contacts       map[string]*contactM
	accounts       map[string]*accountM
	cache          map[string][]string
}

// dbModel is what the database should hold.
type dbModel struct {
	nyms map[string]*nymM
	msgs []*messageM
	out  []*outM
	in   []*inM
	kv   map[string]string
}

type dbRun struct {
	t      *mon.T
	rng    *rand.Rand
	name   string
	pass   []byte
	db     *msgdb.MsgDB
	m      *dbModel
	hist   []string
	faults bool
	serial int
}

func (r *dbRun) bad(key, format string, a ...interface{}) {
	h := r.hist
	if len(h) > 12 {
		h = h[len(h)-12:]
	}
	r.t.Violation(key, map[string]interface{}{"what": fmt.Sprintf(format, a...), "history": strings.Join(h, "; ")})
}

var dbFault int

// tables with the operations on them which may fail
var dbTables = []string{"KeyValueStore", "Nyms", "Contacts", "Accounts", "Messages", "OutQueue", "InQueue", "MessageIDCache"}

func runMsgDB(t *mon.T, faults bool) {
	n := t.N(25, 600)
	if faults {
		n = t.N(25, 600)
	}
	for c := 0; c < n && t.Violations() < 8; c++ {
		rng := t.Rand("c", c)
		r := &dbRun{t: t, rng: rng, name: filepath.Join(t.TempDir(fmt.Sprintf("m%d", c)), "msgs"), pass: []byte(fmt.Sprintf("pass%d", c)), faults: faults,
			m: &dbModel{nyms: map[string]*nymM{}, kv: map[string]string{}}}
		t.Must(msgdb.Create(r.name, r.pass, 2), "create")
		r.open()
		r.m.kv[msgdb.DBVersion] = msgdb.Version
		steps := 150 + rng.Intn(100)
		for k := 0; k < steps && t.Violations() < 8; k++ {
			r.step(c, k)
		}
		t.Must(r.db.Close(), "close")
	}
}

func (r *dbRun) open() {
	var err error
	r.db, err = msgdb.Open(r.name, r.pass)
	r.t.Must(err, "open")
}

// ids which are used as nyms and as contacts
var dbIDs = []string{"alice@mute.berlin", "bob@mute.berlin", "eve@mute.berlin", "bob@mute.one", "zed@x.example"}

// all identities which may exist
var dbAll = append([]string{"nobody@mute.berlin"}, dbIDs...)
var dbVariants = map[string][]string{
	"alice@mute.berlin": {"alice@mute.berlin", "Alice@mute.berlin", "ALICE@mute.berlin"},
	"bob@mute.berlin":   {"bob@mute.berlin", "Bob@mute.berlin", "b0b@mute.berlin"},
	"eve@mute.berlin":   {"eve@mute.berlin", "EVE@mute.berlin"},
	"bob@mute.one":      {"bob@mute.one", "BOB@mute.one"},
	"zed@x.example":     {"zed@x.example", "Zed@x.example"},
}

func (r *dbRun) id() string {
	if r.rng.Intn(60) == 0 {
		r.t.Count("wrong-identity")
		return []string{"", "Alice@mute.berlin", "alice", "@", "a@b@c", "nobody@mute.berlin"}[r.rng.Intn(6)]
	}
	return dbIDs[r.rng.Intn(len(dbIDs))]
}

// my is preferably an existing nym
func (r *dbRun) my() string {
	if len(r.m.nyms) > 0 && r.rng.Intn(8) > 0 {
		return keysOf(r.m.nyms)[r.rng.Intn(len(r.m.nyms))]
	}
	return r.id()
}

// peer is preferably a contact of my
func (r *dbRun) peer(my string) string {
	n := r.m.nyms[my]
	if n != nil && len(n.contacts) > 0 && r.rng.Intn(8) > 0 {
		var k []string
		for x := range n.contacts {
			k = append(k, x)
		}
		sort.Strings(k)
		return k[r.rng.Intn(len(k))]
	}
	return r.id()
}

func keysOf(m map[string]*nymM) (k []string) {
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return
}

func (r *dbRun) text() string {
	rng := r.rng
	switch rng.Intn(8) {
	case 0:
		return ""
	case 1:
		return []string{"'; DROP TABLE Messages; --", "\x00", "a\x00b", "\xff\xfe", "\n", "\nbody", "subject\n", "%s%d", "?", "NULL", "1e5", "007", "Ünï\u2028", "\"", strings.Repeat("x", 70000)}[rng.Intn(15)]
	case 2:
		b := make([]byte, rng.Intn(40))
		rng.Read(b)
		return string(b)
	}
	return fmt.Sprintf("subject %d\nbody %d\nmore", rng.Intn(100), rng.Intn(1e9))
}

func (r *dbRun) num() int64 {
	switch r.rng.Intn(6) {
	case 0:
		return []int64{0, -1, 1 << 62, -1 << 62, 1<<63 - 1}[r.rng.Intn(5)]
	}
	return r.rng.Int63n(2e9)
}

func (r *dbRun) num32() int32 {
	switch r.rng.Intn(6) {
	case 0:
		return []int32{0, -1, 1<<31 - 1, -1 << 31}[r.rng.Intn(4)]
	}
	return r.rng.Int31n(100000)
}

// valid tells if the identity is one of the mapped ones in use.
func valid(id string) bool { _, ok := dbVariants[id]; return ok || id == "nobody@mute.berlin" }

func (r *dbRun) msgID(my string) int64 {
	var own []int64
	for _, m := range r.m.msgs {
		if m.self == my || r.rng.Intn(10) == 0 {
			own = append(own, m.id)
		}
	}
	if len(own) == 0 || r.rng.Intn(15) == 0 {
		return r.rng.Int63n(100) - 2
	}
	return own[r.rng.Intn(len(own))]
}

func (r *dbRun) msg(id int64) *messageM {
	for _, m := range r.m.msgs {
		if m.id == id {
			return m
		}
	}
	return nil
}

// step executes one operation. The operation returns whether it must succeed
// and its effect on the model.
func (r *dbRun) step(c, k int) {
	t, rng, m := r.t, r.rng, r.m
	var op string
	var call func() error
	var ok bool       // succeeds if statements do not fail
	var effect func() // on the model
	my := r.my()
	nym := m.nyms[my]
	peer := r.peer(my)
	hasPeer := nym != nil && nym.contacts[peer] != nil
	optPeer := peer
	hasOpt := hasPeer
	if peer == "" || rng.Intn(3) == 0 {
		optPeer = ""
		hasOpt = nym != nil
	}
	r.serial++
	pick := rng.Intn(29)
	if len(m.nyms) < 2 && rng.Intn(2) == 0 {
		pick = 0
	}
	switch pick {
	case 0: // nym
		id := r.id()
		un := id
		if v := dbVariants[id]; v != nil {
			un = v[rng.Intn(len(v))]
		}
		match := valid(id)
		if rng.Intn(10) == 0 {
			un = []string{"", "zoe@mute.berlin", "bob"}[rng.Intn(3)]
			match = false
		}
		full := r.name1()
		op = fmt.Sprintf("AddNym(%q, %q, %q)", id, un, full)
		call = func() error { return r.db.AddNym(id, un, full) }
		ok = match
		effect = func() {
			if m.nyms[id] == nil {
				m.nyms[id] = &nymM{contacts: map[string]*contactM{}, accounts: map[string]*accountM{}, cache: map[string][]string{}}
			}
			m.nyms[id].unmapped, m.nyms[id].full = un, full
		}
	case 1:
		if rng.Intn(3) > 0 {
			r.reads(my)
			return
		}
		op = fmt.Sprintf("DelNym(%q)", my)
		call = func() error { return r.db.DelNym(my) }
		ok = nym != nil
		effect = func() {
			delete(m.nyms, my)
			m.msgs = keepM(m.msgs, func(x *messageM) bool { return x.self != my })
			m.out = keepO(m.out, func(x *outM) bool { return x.self != my })
			m.in = keepI(m.in, func(x *inM) bool { return x.my != my })
		}
	case 2, 3, 4: // contact
		id := r.id()
		un := id
		if v := dbVariants[id]; v != nil {
			un = v[rng.Intn(len(v))]
		}
		match := valid(id)
		if rng.Intn(10) == 0 {
			un = []string{"", "zoe@mute.berlin", "bob"}[rng.Intn(3)]
			match = false
		}
		full := r.name1()
		typ := msgdb.ContactType(rng.Intn(3))
		op = fmt.Sprintf("AddContact(%q, %q, %q, %q, %d)", my, id, un, full, typ)
		call = func() error { return r.db.AddContact(my, id, un, full, typ) }
		ok = match && nym != nil
		effect = func() { nym.contacts[id] = &contactM{un, full, typ} }
	case 5:
		op = fmt.Sprintf("RemoveContact(%q, %q)", my, peer)
		call = func() error { return r.db.RemoveContact(my, peer) }
		ok = nym != nil && valid(peer)
		effect = func() {
			if hasPeer {
				nym.contacts[peer].typ = msgdb.GrayList
			}
		}
	case 6, 7: // account
		a := &accountM{server: r.text(), min: r.num32(), max: r.num32()}
		rng.Read(a.priv[:])
		rng.Read(a.secret[:])
		op = fmt.Sprintf("AddAccount(%q, %q)", my, optPeer)
		call = func() error { return r.db.AddAccount(my, optPeer, &a.priv, a.server, &a.secret, a.min, a.max) }
		ok = hasOpt && nym.accounts[optPeer] == nil
		effect = func() { nym.accounts[optPeer] = a }
	case 8:
		v := r.num()
		op = fmt.Sprintf("SetAccountTime(%q, %q, %d)", my, optPeer, v)
		call = func() error { return r.db.SetAccountTime(my, optPeer, v) }
		ok = hasOpt
		effect = func() {
			if a := nym.accounts[optPeer]; a != nil {
				a.load = v
			}
		}
	case 9:
		v := r.num()
		op = fmt.Sprintf("SetAccountLastMsg(%q, %q, %d)", my, optPeer, v)
		call = func() error { return r.db.SetAccountLastMsg(my, optPeer, v) }
		ok = hasOpt
		effect = func() {
			if a := nym.accounts[optPeer]; a != nil {
				a.last = v
			}
		}
	case 10, 11, 12, 13: // message
		x := &messageM{self: my, peer: peer, sent: rng.Intn(3) > 0, date: r.num(), text: r.text(), sign: rng.Intn(2) == 0, min: r.num32(), max: r.num32()}
		x.toSend = x.sent
		op = fmt.Sprintf("AddMessage(%q, %q, sent=%v, %q)", my, peer, x.sent, cut(x.text))
		call = func() error { return r.db.AddMessage(my, peer, x.date, x.sent, x.text, x.sign, x.min, x.max) }
		ok = hasPeer
		effect = func() { m.msgs = append(m.msgs, x); x.id = r.newMsg(my) }
	case 14:
		id := r.msgID(my)
		op = fmt.Sprintf("DelMessage(%q, %d)", my, id)
		call = func() error { return r.db.DelMessage(my, id) }
		x := r.msg(id)
		ok = x != nil && x.self == my
		effect = func() {
			m.msgs = keepM(m.msgs, func(y *messageM) bool { return y != x })
			m.out = keepO(m.out, func(y *outM) bool { return y.msg != id })
		}
	case 15:
		id := r.msgID(my)
		op = fmt.Sprintf("ReadMessage(%d)", id)
		call = func() error { return r.db.ReadMessage(id) }
		ok = true
		effect = func() {
			if x := r.msg(id); x != nil {
				x.read = true
			}
		}
	case 16, 17, 18: // encrypt a message: move it to the out queue
		id := r.msgID(my)
		if x := r.msg(id); x != nil && x.self != my {
			return
		}
		o := &outM{msg: id, self: my, data: r.text(), addr: r.text(), min: r.num32(), max: r.num32()}
		op = fmt.Sprintf("AddOutQueue(%q, %d)", my, id)
		call = func() error { return r.db.AddOutQueue(my, id, o.data, o.addr, o.min, o.max) }
		ok = nym != nil && r.msg(id) != nil
		effect = func() {
			r.msg(id).toSend = false
			o.idx = r.newRow("SELECT MAX(OQIdx) FROM OutQueue")
			m.out = append(m.out, o)
		}
	case 19, 20, 21:
		var o *outM
		idx := int64(rng.Intn(50))
		if len(m.out) > 0 && rng.Intn(10) > 0 {
			idx = m.out[rng.Intn(len(m.out))].idx
		}
		for _, y := range m.out {
			if y.idx == idx {
				o = y
			}
		}
		drop := func() { m.out = keepO(m.out, func(y *outM) bool { return y != o }) }
		ok = o != nil
		switch rng.Intn(5) {
		case 0:
			s := r.text()
			op = fmt.Sprintf("SetOutQueue(%d)", idx)
			call = func() error { return r.db.SetOutQueue(idx, s) }
			ok = true
			effect = func() {
				if o != nil {
					o.data, o.envelope = s, true
				}
			}
		case 1, 2:
			d := r.num()
			op = fmt.Sprintf("RemoveOutQueue(%d)", idx)
			call = func() error { return r.db.RemoveOutQueue(idx, d) }
			effect = func() { x := r.msg(o.msg); x.date, x.delivered = d, true; drop() }
		case 3:
			op = fmt.Sprintf("RetractOutQueue(%d)", idx)
			call = func() error { return r.db.RetractOutQueue(idx) }
			effect = func() { r.msg(o.msg).toSend = true; drop() }
		case 4:
			op = fmt.Sprintf("SetResendOutQueue(%d)", idx)
			call = func() error { return r.db.SetResendOutQueue(idx) }
			ok = true
			effect = func() {
				if o != nil {
					o.resend = true
				}
			}
		}
	case 22:
		op = fmt.Sprintf("ClearResendOutQueue(%q)", my)
		call = func() error { return r.db.ClearResendOutQueue(my) }
		ok = nym != nil
		effect = func() {
			for _, o := range m.out {
				if o.self == my {
					o.resend = false
				}
			}
		}
	case 23, 24:
		x := &inM{my: my, contact: optPeer, date: r.num(), data: r.text(), envelope: true}
		op = fmt.Sprintf("AddInQueue(%q, %q)", my, optPeer)
		call = func() error { return r.db.AddInQueue(my, optPeer, x.date, x.data) }
		ok = hasOpt
		effect = func() { x.idx = r.newRow("SELECT MAX(IQIdx) FROM InQueue"); m.in = append(m.in, x) }
	case 25:
		var x *inM
		idx := int64(rng.Intn(50))
		if len(m.in) > 0 && rng.Intn(10) > 0 {
			idx = m.in[rng.Intn(len(m.in))].idx
		}
		for _, y := range m.in {
			if y.idx == idx {
				x = y
			}
		}
		drop := func() { m.in = keepI(m.in, func(y *inM) bool { return y != x }) }
		switch rng.Intn(4) {
		case 0:
			s := r.text()
			op = fmt.Sprintf("SetInQueue(%d)", idx)
			call = func() error { return r.db.SetInQueue(idx, s) }
			ok = true
			effect = func() {
				if x != nil {
					x.data, x.envelope = s, false
				}
			}
		case 1, 2:
			from := r.id()
			if x != nil {
				from = r.peer(x.my)
			}
			s, dr := r.text(), rng.Intn(3) == 0
			op = fmt.Sprintf("RemoveInQueue(%d, %q, %q, %v)", idx, cut(s), from, dr)
			call = func() error { return r.db.RemoveInQueue(idx, s, from, dr) }
			ok = x != nil && m.nyms[x.my].contacts[from] != nil
			effect = func() {
				drop()
				if !dr {
					y := &messageM{self: x.my, peer: from, date: x.date, text: s}
					m.msgs = append(m.msgs, y)
					y.id = r.newMsg(x.my)
				}
			}
		case 3:
			op = fmt.Sprintf("DelInQueue(%d)", idx)
			call = func() error { return r.db.DelInQueue(idx) }
			ok = true
			effect = drop
		}
	case 26:
		id := fmt.Sprintf("id%d", r.serial)
		switch rng.Intn(3) {
		case 0:
			id = r.text() + fmt.Sprint(r.serial)
		case 1:
			if rng.Intn(8) == 0 {
				id = ""
			}
		}
		op = fmt.Sprintf("AddMessageIDCache(%q, %q, %q)", my, optPeer, cut(id))
		call = func() error { return r.db.AddMessageIDCache(my, optPeer, id) }
		ok = hasOpt && id != ""
		effect = func() { nym.cache[optPeer] = append(nym.cache[optPeer], id) }
	case 27:
		id := "none"
		pos := -1
		if nym != nil && len(nym.cache[optPeer]) > 0 && rng.Intn(8) > 0 {
			pos = rng.Intn(len(nym.cache[optPeer]))
			id = nym.cache[optPeer][pos]
		}
		op = fmt.Sprintf("RemoveMessageIDCache(%q, %q, %q)", my, optPeer, cut(id))
		call = func() error { return r.db.RemoveMessageIDCache(my, optPeer, id) }
		ok = hasOpt && pos >= 0
		effect = func() { nym.cache[optPeer] = append([]string{}, nym.cache[optPeer][pos:]...) }
	case 28:
		switch rng.Intn(4) {
		case 0:
			key, v := []string{msgdb.WalletKey, msgdb.ActiveUID, "x", "'", "", msgdb.DBVersion}[rng.Intn(6)], r.text()
			op = fmt.Sprintf("AddValue(%q, %q)", key, cut(v))
			call = func() error { return r.db.AddValue(key, v) }
			ok = key != "" && v != ""
			effect = func() { m.kv[key] = v }
		case 1:
			v := r.num()
			op = fmt.Sprintf("SetUpkeepAll(%q, %d)", my, v)
			call = func() error { return r.db.SetUpkeepAll(my, v) }
			ok = valid(my)
			effect = func() {
				if nym != nil {
					nym.upAll = v
				}
			}
		case 2:
			v := r.num()
			op = fmt.Sprintf("SetUpkeepAccounts(%q, %d)", my, v)
			call = func() error { return r.db.SetUpkeepAccounts(my, v) }
			ok = valid(my)
			effect = func() {
				if nym != nil {
					nym.upAcc = v
				}
			}
		case 3:
			r.reopen()
			return
		}
	}
	r.hist = append(r.hist, op)
	t.Case(map[string]interface{}{"history": len(r.hist), "operation": op})
	name := op[:strings.Index(op, "(")]
	trig := ""
	if r.faults && rng.Intn(2) == 0 {
		dbFault++
		n := len(dbTables) * 3
		f := dbFault % n
		// mostly a table the operation works on
		if rng.Intn(4) > 0 {
			tabs := map[string][]int{"AddNym": {1}, "DelNym": {1, 2, 3, 4, 5, 6, 7}, "AddContact": {2}, "RemoveContact": {2}, "AddAccount": {3}, "SetAccountTime": {3}, "SetAccountLastMsg": {3},
				"AddMessage": {4}, "DelMessage": {4, 5}, "ReadMessage": {4}, "AddOutQueue": {4, 5}, "SetOutQueue": {5}, "RemoveOutQueue": {4, 5}, "RetractOutQueue": {4, 5},
				"SetResendOutQueue": {5}, "ClearResendOutQueue": {5}, "AddInQueue": {6}, "SetInQueue": {6}, "RemoveInQueue": {4, 6}, "DelInQueue": {6},
				"AddMessageIDCache": {7}, "RemoveMessageIDCache": {7}, "AddValue": {0}, "SetUpkeepAll": {1}, "SetUpkeepAccounts": {1}}[name]
			f = tabs[dbFault%len(tabs)]*3 + rng.Intn(3)
		}
		tb, o := dbTables[f/3], []string{"INSERT", "UPDATE", "DELETE"}[f%3]
		when := []string{"BEFORE", "AFTER"}[rng.Intn(2)]
		trig = when + " " + o + " ON " + tb
		_, err := r.db.DB().Exec("CREATE TRIGGER verif_fault " + trig + " BEGIN SELECT RAISE(ABORT, 'injected'); END")
		t.Must(err, "create trigger")
	}
	err := call()
	if trig != "" {
		_, e := r.db.DB().Exec("DROP TRIGGER verif_fault")
		t.Must(e, "drop trigger")
		t.Count("fault/" + name)
		r.hist[len(r.hist)-1] += " [fails: " + trig + "]"
		if err != nil && strings.Contains(err.Error(), "injected") {
			t.Count("fault-hit/" + name)
		}
	}
	if err != nil {
		r.hist[len(r.hist)-1] += " -> " + err.Error()
	}
	t.Count("op/" + name)
	if !r.faults || trig != "" {
		t.Eval(fmt.Sprint(c, k, op, trig))
	}
	injected := trig != "" && err != nil && strings.Contains(err.Error(), "injected")
	switch {
	case ok && err != nil && !injected:
		r.bad("refused/"+name, "%s: %s", op, err)
		return
	case !ok && err == nil:
		r.bad("accepted/"+name, "%s did not fail", op)
		return
	case err == nil && ok:
		effect()
	default:
		t.Count("failed/" + name)
	}
	r.compare(name)
}

func (r *dbRun) name1() string {
	return []string{"", "Alice", "Bob <b>", "'", "\x00x", "Ünï", "a\nb"}[r.rng.Intn(7)]
}

func cut(s string) string {
	if len(s) > 30 {
		return s[:30] + "..."
	}
	return s
}

func keepM(l []*messageM, f func(*messageM) bool) (o []*messageM) {
	for _, x := range l {
		if f(x) {
			o = append(o, x)
		}
	}
	return
}

func keepO(l []*outM, f func(*outM) bool) (o []*outM) {
	for _, x := range l {
		if f(x) {
			o = append(o, x)
		}
	}
	return
}

func keepI(l []*inM, f func(*inM) bool) (o []*inM) {
	for _, x := range l {
		if f(x) {
			o = append(o, x)
		}
	}
	return
}

// newMsg finds the number of the message which was just added.
func (r *dbRun) newMsg(my string) int64 {
	ids, err := r.db.GetMsgIDs(my)
	if err != nil {
		r.bad("messages", "GetMsgIDs(%q): %s", my, err)
		return 0
	}
	for _, x := range ids {
		if y := r.msg(x.MsgID); y == nil {
			return x.MsgID
		}
	}
	r.bad("message-lost", "an added message is not listed")
	return 0
}

// newRow returns the row which was added last.
func (r *dbRun) newRow(query string) (id int64) {
	r.t.Must(r.db.DB().QueryRow(query).Scan(&id), query)
	return
}

func (r *dbRun) reopen() {
	r.hist = append(r.hist, "reopen")
	if r.rng.Intn(3) == 0 {
		mode := []string{"", "NONE", "FULL", "INCREMENTAL"}[r.rng.Intn(4)]
		r.hist = append(r.hist, "vacuum "+mode)
		if err := r.db.Vacuum(mode); err != nil {
			r.bad("vacuum", "%s", err)
		}
		r.t.Count("vacuum")
	}
	r.t.Must(r.db.Close(), "close")
	if r.rng.Intn(3) == 0 {
		p := []byte(fmt.Sprintf("new%d", r.rng.Int()))
		if err := msgdb.Rekey(r.name, r.pass, p, 2); err != nil {
			r.bad("rekey", "%s", err)
		} else {
			r.pass = p
		}
		r.t.Count("rekey")
	}
	r.open()
	r.t.Count("reopen")
	r.compare("reopen")
}

// reads calls the reading operations with arguments for which nothing exists.
func (r *dbRun) reads(my string) {
	t := r.t
	for _, id := range []string{"nobody@mute.berlin", "Alice@mute.berlin", "", "x", my} {
		n := r.m.nyms[id]
		_, e1 := r.db.GetContacts(id, false)
		_, e2 := r.db.GetAccounts(id)
		_, e3 := r.db.GetMsgIDs(id)
		_, e4 := r.db.GetUpkeepAll(id)
		_, e5 := r.db.GetUpkeepAccounts(id)
		_, _, _, _, _, _, e6 := r.db.GetOutQueue(id)
		_, _, _, _, _, _, e7 := r.db.GetUndeliveredMessage(id)
		_, e8 := r.db.GetMessageIDCache(id, "")
		for i, e := range []error{e1, e2, e3, e4, e5, e6, e7, e8} {
			if (e == nil) != (n != nil) {
				r.bad("read-unknown", "reading operation %d of nym %q: %v", i, id, e)
			}
		}
		t.Count("reads")
	}
	// messages of others
	for _, m := range r.m.msgs {
		for _, o := range dbIDs {
			if o == m.self {
				continue
			}
			if _, _, _, _, err := r.db.GetMessage(o, m.id); err == nil {
				r.bad("isolation/message", "nym %q can read message %d of nym %q", o, m.id, m.self)
			}
			t.Count("foreign-message-reads")
		}
	}
	if _, _, _, _, err := r.db.GetMessage(my, 999999); err == nil {
		r.bad("read-unknown", "message 999999 exists")
	}
}

func full(un, name string) string {
	if name == "" {
		return un
	}
	return name + " <" + un + ">"
}

func equal(a, b []string) bool {
	a, b = append([]string{}, a...), append([]string{}, b...)
	sort.Strings(a)
	sort.Strings(b)
	return strings.Join(a, "\x01") == strings.Join(b, "\x01") && len(a) == len(b)
}

// compare compares everything which can be read with the model.
func (r *dbRun) compare(op string) {
	t, m, db := r.t, r.m, r.db
	t.Count("comparisons")
	bad := func(what string, format string, a ...interface{}) {
		r.bad("differs/"+what+"/"+op, format, a...)
	}
	for k, v := range m.kv {
		if x, err := db.GetValue(k); err != nil || x != v {
			bad("value", "value %q is %q, not %q (%v)", k, x, v, err)
		}
	}
	var mapped, unmapped []string
	for id, n := range m.nyms {
		mapped = append(mapped, id)
		unmapped = append(unmapped, full(n.unmapped, n.full))
	}
	a, err1 := db.GetNyms(true)
	b, err2 := db.GetNyms(false)
	if err1 != nil || err2 != nil || !equal(a, mapped) || !equal(b, unmapped) {
		bad("nyms", "nyms %v %v, not %v %v (%v %v)", a, b, mapped, unmapped, err1, err2)
	}
	counts := map[string]int{"Nyms": len(m.nyms), "KeyValueStore": len(m.kv), "Messages": len(m.msgs), "OutQueue": len(m.out), "InQueue": len(m.in)}
	for _, id := range dbAll {
		un, name, err := db.GetNym(id)
		n := m.nyms[id]
		if n == nil {
			if err != nil || un != "" || name != "" {
				bad("nym", "unknown nym %q is %q %q (%v)", id, un, name, err)
			}
			continue
		}
		if err != nil || un != n.unmapped || name != n.full {
			bad("nym", "nym %q is %q %q, not %q %q (%v)", id, un, name, n.unmapped, n.full, err)
		}
		x, err := db.GetUpkeepAll(id)
		y, err2 := db.GetUpkeepAccounts(id)
		if err != nil || err2 != nil || x != n.upAll || y != n.upAcc {
			bad("upkeep", "upkeep times of %q: %d %d, not %d %d (%v %v)", id, x, y, n.upAll, n.upAcc, err, err2)
		}
		counts["Contacts"] += len(n.contacts)
		counts["Accounts"] += len(n.accounts)
		lists := map[msgdb.ContactType][]string{}
		for _, cid := range dbAll {
			un, name, typ, err := db.GetContact(id, cid)
			want := n.contacts[cid]
			if want == nil {
				want = &contactM{}
			} else {
				lists[want.typ] = append(lists[want.typ], full(want.unmapped, want.full))
			}
			if err != nil || un != want.unmapped || name != want.full || typ != want.typ {
				bad("contact", "contact %q of %q is %q %q %d, not %q %q %d (%v)", cid, id, un, name, typ, want.unmapped, want.full, want.typ, err)
			}
		}
		for i, l := range [][]string{lists[msgdb.WhiteList], lists[msgdb.BlackList]} {
			c, err := db.GetContacts(id, i == 1)
			if err != nil || !equal(c, l) {
				bad("contacts", "contacts (blocked %v) of %q are %q, not %q (%v)", i == 1, id, c, l, err)
			}
		}
		var acc []string
		for cid, w := range n.accounts {
			acc = append(acc, cid)
			pk, srv, sec, min, max, last, err := db.GetAccount(id, cid)
			load, err2 := db.GetAccountTime(id, cid)
			if err != nil || err2 != nil || !bytes.Equal(pk[:], w.priv[:]) || !bytes.Equal(sec[:], w.secret[:]) || srv != w.server || min != w.min || max != w.max || last != w.last || load != w.load {
				bad("account", "account %q of %q differs (%v %v)", cid, id, err, err2)
			}
		}
		if n.accounts[""] == nil {
			if _, _, _, _, _, _, err := db.GetAccount(id, ""); err == nil {
				bad("account", "nym %q has a default account", id)
			}
		}
		if l, err := db.GetAccounts(id); err != nil || !equal(l, acc) {
			bad("accounts", "accounts of %q are %q, not %q (%v)", id, l, acc, err)
		}
		for _, cid := range append([]string{""}, acc...) {
			l, err := db.GetMessageIDCache(id, cid)
			var got []string
			for x := range l {
				got = append(got, x)
			}
			if err != nil || !equal(got, n.cache[cid]) {
				bad("cache", "message IDs of %q %q are %q, not %q (%v)", id, cid, got, n.cache[cid], err)
			}
		}
		for _, l := range n.cache {
			counts["MessageIDCache"] += len(l)
		}
		// messages
		ids, err := db.GetMsgIDs(id)
		byID := map[int64]*msgdb.MsgID{}
		for _, x := range ids {
			byID[x.MsgID] = x
		}
		cnt := 0
		var undelivered *messageM
		for _, w := range m.msgs {
			if w.self != id {
				continue
			}
			cnt++
			if w.toSend && (undelivered == nil || w.id < undelivered.id) {
				undelivered = w
			}
			x := byID[w.id]
			if x == nil {
				bad("message", "message %d of %q is not listed", w.id, id)
				continue
			}
			from, to := w.peer, w.self
			if w.sent {
				from, to = to, from
			}
			if x.From != from || x.To != to || x.Incoming == w.sent || x.Sent != w.delivered || x.Date != w.date || x.Read != w.read || x.Subject != strings.SplitN(w.text, "\n", 2)[0] {
				bad("message", "message %d of %q is listed as %+v, not %+v", w.id, id, x, w)
			}
			f, o, txt, date, err := db.GetMessage(id, w.id)
			pc := n.contacts[w.peer]
			wf, wo := full(pc.unmapped, pc.full), full(n.unmapped, n.full)
			if w.sent {
				wf, wo = wo, wf
			}
			if err != nil || f != wf || o != wo || txt != w.text || date != w.date {
				bad("message", "message %d of %q: from %q to %q, %q; not %q %q %q (%v)", w.id, id, f, o, cut(txt), wf, wo, cut(w.text), err)
			}
		}
		if err != nil || len(ids) != cnt || len(byID) != cnt {
			bad("messages", "nym %q has %d messages, not %d (%v)", id, len(ids), cnt, err)
		}
		num, cid, txt, sign, min, max, err := db.GetUndeliveredMessage(id)
		if w := undelivered; w == nil {
			if err != nil || num != 0 {
				bad("undelivered", "nym %q has undelivered message %d (%v)", id, num, err)
			}
		} else if err != nil || num != w.id || cid != w.peer || string(txt) != w.text || sign != w.sign || min != w.min || max != w.max {
			bad("undelivered", "undelivered message of %q is %d to %q %q, not %d to %q %q (%v)", id, num, cid, cut(string(txt)), w.id, w.peer, cut(w.text), err)
		}
		// out queue
		var head *outM
		for _, o := range m.out {
			if o.self == id && !o.resend && (head == nil || o.idx < head.idx) {
				head = o
			}
		}
		idx, data, addr, min, max, env, err := db.GetOutQueue(id)
		if w := head; w == nil {
			if err != nil || idx != 0 {
				bad("outqueue", "nym %q has out queue entry %d (%v)", id, idx, err)
			}
		} else if err != nil || idx != w.idx || data != w.data || addr != w.addr || min != w.min || max != w.max || env != w.envelope {
			bad("outqueue", "out queue of %q starts with %d %q, not %d %q (%v)", id, idx, cut(data), w.idx, cut(w.data), err)
		}
	}
	// in queue
	var head *inM
	for _, x := range m.in {
		if head == nil || x.idx < head.idx {
			head = x
		}
	}
	idx, my, cid, data, env, err := db.GetInQueue()
	if w := head; w == nil {
		if err != nil || idx != 0 {
			bad("inqueue", "in queue entry %d (%v)", idx, err)
		}
	} else if err != nil || idx != w.idx || my != w.my || cid != w.contact || data != w.data || env != w.envelope {
		bad("inqueue", "in queue starts with %d for %q %q, not %d for %q %q (%v)", idx, my, cid, w.idx, w.my, w.contact, err)
	}
	for tb, n := range counts {
		var x int
		t.Must(db.DB().QueryRow("SELECT COUNT(*) FROM "+tb).Scan(&x), "count")
		if x != n {
			bad("rows", "%d rows in table %s, not %d", x, tb, n)
		}
	}
}
