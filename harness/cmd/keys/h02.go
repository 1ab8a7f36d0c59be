package main

import (
	"fmt"
	"math/rand"
	"strings"

	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"
)

var h02 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "random histories of an engine with two key servers: chains which grow, synchronisation with honest servers, with servers whose replies are malformed (every field replaced, removed, shifted, shortened, extended; HTTP and RPC errors, replies cut off) and with a failing database, deletion and restart; after every step the local copies are compared with what they were and with what the server sent; " +
		"then the local chain is damaged in one place (every field, order, missing, doubled, foreign, rewritten with correct links) and validated; one evaluation is one synchronisation or validation which was judged",
	MinEvents: 1500,
	Run:       runH02,
}

func runH02(t *mon.T) {
	for c := 0; c < t.N(50, 900) && t.Violations() < 12; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		w := newWorld(t, rng, "aaa.example", "bbb.example")
		u := w.user(fmt.Sprint("u", c))
		w.h02(c, u)
		u.close()
		w.close()
	}
}

func (w *world) h02(c int, u *member) {
	t, rng := w.t, w.rng
	own := map[string]uint64{} // positions of own records by domain
	grow := func(s *keyserv.Server) {
		defer s.Lock()()
		for n := 1 + rng.Intn(5); n > 0; n-- {
			if rng.Intn(3) == 0 {
				s.Add(w.create(w.name()+"@"+s.Domain, s.Chain[0]))
			} else {
				s.Noise(1)
			}
		}
	}
	for step := 0; step < 16; step++ {
		if t.Violations() > 10 {
			return
		}
		s := w.srv[rng.Intn(2)]
		o := w.srv[0]
		if o == s {
			o = w.srv[1]
		}
		otherBefore := u.chain(o.Domain)
		dom := s.Domain
		before := u.chain(s.Domain)
		switch k := rng.Intn(12); {
		case k > 9:
			grow(s)
			w.syncFork(c, step, u, s, dom)
		case k == 0:
			u.must("hashchain delete --domain %s", dom)
			if l := u.chain(s.Domain); len(l) != 0 {
				w.bad("delete", "%d entries left", len(l))
			}
		case k == 1:
			u.restart()
		case k == 2:
			w.syncHonest(u, s, dom)
			id := w.name() + "@" + s.Domain
			u.must("uid generate --id %s", id)
			u.must("uid register --id %s --token t", id)
			own[s.Domain] = uint64(len(s.Chain) - 1)
			w.syncHonest(u, s, dom)
		case k <= 4:
			grow(s)
			w.syncHonest(u, s, dom)
		case k == 5:
			// the database fails
			grow(s)
			n := len(before) + rng.Intn(len(s.Chain)-len(before)+1)
			if n >= len(s.Chain) {
				n = len(s.Chain) - 1
			}
			u.exec(fmt.Sprintf("CREATE TRIGGER vfail BEFORE INSERT ON Hashchains WHEN NEW.Position=%d BEGIN SELECT RAISE(ABORT, 'injected fault'); END", n))
			r := u.do("hashchain sync --domain %s", dom)
			u.exec("DROP TRIGGER vfail")
			t.Eval(fmt.Sprint(c, step))
			t.Count("store-failure")
			if r == "" {
				w.bad("store-failure-unreported", "sync succeeded although entry %d could not be stored", n)
			}
			if l := u.chain(s.Domain); len(l) > n || !same(l, numbered(s.Chain)[:len(l)]) {
				w.bad("store-failure-content", "local chain differs from the one of the server")
			}
			w.syncHonest(u, s, dom)
		default:
			grow(s)
			w.syncHostile(c, step, u, s, dom)
		}
		if !same(otherBefore, u.chain(o.Domain)) {
			w.bad("other-domain", "the chain of %s changed", o.Domain)
		}
	}
	for _, s := range w.srv {
		grow(s)
		w.syncHonest(u, s, s.Domain)
		w.validate(c, u, s, own[s.Domain])
	}
}

// syncHonest synchronises with the honest server.
func (w *world) syncHonest(u *member, s *keyserv.Server, dom string) {
	before := u.chain(s.Domain)
	if r := u.do("hashchain sync --domain %s", dom); r != "" {
		w.bad("honest-sync-refused", "%s", r)
		return
	}
	l := u.chain(s.Domain)
	w.t.Eval(fmt.Sprint("sync", len(before), len(l), w.rng.Int()))
	w.t.CountN("entries-synchronised", int64(len(l)-len(before)))
	if !same(l, numbered(s.Chain)) {
		w.bad("sync-content", "local chain (%d entries) differs from the server's (%d entries)", len(l), len(s.Chain))
		return
	}
	u.l.Out()
	u.must("hashchain show --domain %s", dom)
	if out := u.l.Out(); out != strings.Join(s.Chain, "\n")+"\n" {
		w.bad("show", "shown chain differs from the stored one")
	}
	if r := u.do("hashchain validate --domain %s", dom); r != "" {
		w.bad("honest-validate-refused", "%s", r)
	}
}

// syncHostile synchronises with a server whose replies are wrong.
func (w *world) syncHostile(c, step int, u *member, s *keyserv.Server, dom string) {
	t, rng := w.t, w.rng
	before := u.chain(s.Domain)
	if rng.Intn(3) == 0 {
		u.restart() // capabilities are fetched again
	}
	targets := []string{"KeyRepository.Capabilities", "KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyHashchain.FetchHashChain"}
	target := targets[rng.Intn(len(targets))]
	var sent []interface{} // list of entries sent
	var claimed, last interface{}
	kind := ""
	hit := false
	s.Hook = func(method string, p, res map[string]interface{}) interface{} {
		if method == "KeyHashchain.FetchLastHashChain" && res != nil {
			claimed, last = res["HCPos"], res["HCEntry"]
		}
		if method != target || res == nil {
			if method == "KeyHashchain.FetchHashChain" && res != nil {
				sent = list(res["HCEntries"])
			}
			return nil
		}
		hit = true
		out, k := hostile(rng, method, res)
		kind = k
		if m, ok := out.(map[string]interface{}); ok {
			if method == "KeyHashchain.FetchHashChain" {
				sent = list(m["HCEntries"])
			}
			if method == "KeyHashchain.FetchLastHashChain" {
				claimed, last = m["HCPos"], m["HCEntry"]
			}
		}
		return out
	}
	r := u.do("hashchain sync --domain %s", dom)
	s.Hook = nil
	if !hit {
		t.Count("hostile-not-reached")
		if r != "" {
			w.bad("honest-sync-refused", "%s", r)
		}
		return
	}
	w.log("(%s %s)", target, kind)
	key := fmt.Sprintf("hostile/%s/%s", strings.SplitN(target, ".", 2)[1], kind)
	t.Eval(fmt.Sprint(c, step, key))
	t.Count(key)
	after := u.chain(s.Domain)
	if len(after) < len(before) || !same(after[:len(before)], before) {
		w.bad(key+"/known-entries", "known entries changed")
		return
	}
	for i := len(before); i < len(after); i++ {
		ok := false
		if k := i - len(before); k < len(sent) {
			e, isStr := sent[k].(string)
			ok = isStr && after[i] == fmt.Sprintf("%d|%s", i, e)
		}
		if !ok {
			w.bad(key+"/stored", "entry stored as number %d was not sent for that position: %s", i, after[i])
			return
		}
	}
	if r == "" {
		// success means that everything up to the claimed position is there
		if f, ok := num(claimed); !ok || f < 0 || (f >= float64(len(before)) && float64(len(after)-1) != f) {
			w.bad(key+"/success", "sync reported success: %d entries before, %d after, server claimed position %v", len(before), len(after), claimed)
		} else if e := fmt.Sprintf("%v|%v", f, last); len(after) > len(before) && after[len(after)-1] != e {
			w.bad(key+"/success/last", "sync reported success: the last entry is %q instead of %q", after[len(after)-1], e)
		}
	}
	// the user can recover
	if !same(after, numbered(s.Chain)[:min(len(after), len(s.Chain))]) || len(after) > len(s.Chain) {
		if u.do("hashchain validate --domain %s", dom) == "" {
			w.bad(key+"/validate", "wrong entries validate")
		}
		u.must("hashchain delete --domain %s", dom)
	}
	if u.do("hashchain sync --domain %s", dom) != "" || target == "KeyRepository.Capabilities" {
		u.restart() // wrong capabilities may be cached
	}
	w.syncHonest(u, s, dom)
}

// syncFork synchronises with a server which has another history than before.
func (w *world) syncFork(c, step int, u *member, s *keyserv.Server, dom string) {
	t, rng := w.t, w.rng
	before := u.chain(s.Domain)
	if len(before) == 0 {
		w.syncHonest(u, s, dom)
		before = u.chain(s.Domain)
	}
	unlock := s.Lock()
	honest := clone(s.Chain)
	l := clone(s.Chain)[:len(before)]
	at := rng.Intn(len(l))
	kind := []string{"last", "any", "cut", "grown", "one", "exchanged"}[(c+step)%6]
	switch kind {
	case "last":
		at = len(l) - 1
	case "exchanged":
		// only the entry before the last one is another one
		if at = len(l) - 2; at < 0 {
			at = 0
		}
	}
	change := func() {
		b := keyserv.Dec(l[at])
		b[33+rng.Intn(120)] ^= 1 << uint(rng.Intn(8))
		l[at] = keyserv.B64(b)
	}
	forked := true
	switch kind {
	case "cut":
		l, forked = l[:at+1], false
	case "one":
		// shortened and replaced
		l = l[:at+1]
		change()
		keyserv.Relink(l, at)
	default:
		change()
		keyserv.Relink(l, at)
	}
	s.Chain = l
	if kind == "grown" || (kind == "last" && rng.Intn(2) == 0) {
		s.Noise(1 + rng.Intn(3))
	}
	n := len(s.Chain)
	served := clone(s.Chain)
	unlock()
	r := u.do("hashchain sync --domain %s", dom)
	after := u.chain(s.Domain)
	w.log("(fork %s at %d of %d, server has %d)", kind, at, len(before), n)
	t.Eval(fmt.Sprint(c, step, "fork", kind))
	key := "fork/" + kind
	t.Count(key)
	if len(after) < len(before) || !same(after[:len(before)], before) {
		w.bad(key+"/known-entries", "known entries changed")
	}
	for i := len(before); i < len(after); i++ {
		if i >= len(served) || after[i] != fmt.Sprintf("%d|%s", i, served[i]) {
			w.bad(key+"/stored", "entry %d was not sent: %s", i, after[i])
			break
		}
	}
	v := u.do("hashchain validate --domain %s", dom)
	if !forked {
		if len(after) != len(before) {
			w.bad(key+"/grown", "%d entries after, %d before", len(after), len(before))
		}
		if v != "" {
			w.bad(key+"/validate", "known chain does not validate: %s", v)
		}
	} else if r == "" && v == "" {
		w.bad(key+"/unnoticed", "synchronisation and validation succeed although entry %d of %d known ones is another one on the server, which has %d entries now", at, len(before), n)
	}
	if v != "" {
		t.Count("fork-noticed-by-validation")
	} else if r != "" {
		t.Count("fork-noticed-by-synchronisation")
	}
	unlock = s.Lock()
	s.Chain = honest
	unlock()
	if v != "" {
		u.must("hashchain delete --domain %s", dom)
	}
	w.syncHonest(u, s, dom)
}

func num(v interface{}) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case int:
		return float64(x), true
	case uint64:
		return float64(x), true
	}
	return 0, false
}

func list(v interface{}) []interface{} {
	switch x := v.(type) {
	case []interface{}:
		return x
	case []string:
		var l []interface{}
		for _, s := range x {
			l = append(l, s)
		}
		return l
	}
	return nil
}

// hostile makes a wrong reply.
func hostile(rng *rand.Rand, method string, res map[string]interface{}) (interface{}, string) {
	switch rng.Intn(16) {
	case 0:
		return keyserv.Raw([]string{"", "{", "null", "[]", `{"jsonrpc":"2.0","id":1}`, `{"result":5}`, `{"jsonrpc":"2.0","result":[],"id":1}`, "<html>"}[rng.Intn(8)]), "raw"
	case 1:
		return keyserv.Status([]int{204, 400, 404, 500, 503}[rng.Intn(5)]), "status"
	case 2:
		return keyserv.Cut{}, "cut"
	case 3:
		return keyserv.RPCError("no"), "error"
	case 4:
		return map[string]interface{}{}, "empty"
	}
	m := map[string]interface{}{}
	for k, v := range res {
		m[k] = v
	}
	switch method {
	case "KeyHashchain.FetchHashChain":
		l := list(res["HCEntries"])
		l = append([]interface{}{}, l...)
		first, _ := num(res["HCFirstPos"])
		switch rng.Intn(8) {
		case 0:
			m["HCFirstPos"] = first + float64(1+rng.Intn(3))
			return m, "first-later"
		case 1:
			m["HCFirstPos"] = first - float64(1+rng.Intn(3))
			return m, "first-earlier"
		case 2:
			m["HCEntries"] = l[:rng.Intn(len(l))]
			return m, "short"
		case 3:
			m["HCEntries"] = append(l, l[0])
			return m, "long"
		case 4:
			l[rng.Intn(len(l))] = keyserv.Junk(rng, nil)
			m["HCEntries"] = l
			return m, "entry-junk"
		case 5:
			m["HCFirstPos"] = []interface{}{-1.0, 0.5, 1e300, -1e300, 1e19, "0", nil, true, []interface{}{}}[rng.Intn(9)]
			return m, "first-junk"
		case 6:
			if e, ok := l[len(l)-1].(string); ok {
				b := keyserv.Dec(e)
				b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
				l[len(l)-1] = keyserv.B64(b)
				m["HCEntries"] = l
				return m, "last-other"
			}
		}
	case "KeyHashchain.FetchLastHashChain":
		pos, _ := num(res["HCPos"])
		switch rng.Intn(6) {
		case 0:
			m["HCPos"] = pos + float64(1+rng.Intn(5))
			return m, "pos-later"
		case 1:
			m["HCPos"] = pos - float64(rng.Intn(int(pos)+1))
			return m, "pos-earlier"
		case 2:
			m["HCPos"] = []interface{}{-1.0, 0.5, 1e300, -1e300, 1e19, 9223372036854775807.0, "3", nil, true, []interface{}{}}[rng.Intn(10)]
			return m, "pos-junk"
		case 3:
			if e, ok := res["HCEntry"].(string); ok {
				b := keyserv.Dec(e)
				b[rng.Intn(len(b))] ^= 1 << uint(rng.Intn(8))
				m["HCEntry"] = keyserv.B64(b)
				return m, "entry-other"
			}
		}
	}
	return keyserv.JunkIn(rng, res), "junk"
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// validate damages the local chain in one place and validates it.
func (w *world) validate(c int, u *member, s *keyserv.Server, own uint64) {
	t, rng := w.t, w.rng
	if own > 0 {
		t.Count("own-record-in-chain")
	}
	good := clone(s.Chain)
	set := func(chain []string) {
		u.exec("BEGIN")
		u.exec("DELETE FROM Hashchains WHERE Domain=?", s.Domain)
		for i, e := range chain {
			if e != "" {
				u.exec("INSERT INTO Hashchains(Domain, Position, Entry) VALUES (?,?,?)", s.Domain, i, e)
			}
		}
		u.exec("COMMIT")
	}
	fields := map[string][2]int{"hash": {0, 32}, "type": {32, 33}, "nonce": {33, 41}, "hashid": {41, 73}, "cruid": {73, 121}, "uidindex": {121, 153}}
	names := []string{"hash", "type", "nonce", "hashid", "cruid", "uidindex"}
	for k := 0; k < 16; k++ {
		l := clone(good)
		i := rng.Intn(len(l))
		if rng.Intn(4) == 0 {
			i = []int{0, len(l) - 1}[rng.Intn(2)]
		}
		what, want := "", false
		edit := func(n string) string {
			f := fields[n]
			b := keyserv.Dec(l[i])
			b[f[0]+rng.Intn(f[1]-f[0])] ^= 1 << uint(rng.Intn(8))
			return keyserv.B64(b)
		}
		v := rng.Intn(14)
		if k < 2 {
			v = 14 + k
		}
		switch {
		case v == 14:
			// the newest entry is the one of an own record
			if own == 0 {
				continue
			}
			what = "rewritten-own"
			i = int(own)
			l = l[:i+1]
			l[i] = edit([]string{"nonce", "hashid", "cruid", "uidindex"}[rng.Intn(4)])
			keyserv.Relink(l, i)
		case v == 15:
			what = "rewritten-type"
			l[i] = edit("type")
			keyserv.Relink(l, i)
		case v < 6:
			what = "changed-" + names[v]
			l[i] = edit(names[v])
		case v == 6:
			j := rng.Intn(len(l))
			if i == j {
				continue
			}
			what = "swapped"
			l[i], l[j] = l[j], l[i]
		case v == 7:
			if i == len(l)-1 {
				continue
			}
			what = "missing"
			l[i] = ""
		case v == 8:
			if i == len(l)-1 {
				continue
			}
			what = "dropped"
			l = append(l[:i], l[i+1:]...)
		case v == 9:
			what = "doubled"
			l = append(l[:i+1], append([]string{l[i]}, l[i+1:]...)...)
		case v == 10:
			what = "foreign"
			o := w.srv[0]
			if o == s {
				o = w.srv[1]
			}
			l[i] = o.Chain[rng.Intn(len(o.Chain))]
		case v == 11:
			what = "size"
			b := keyserv.Dec(l[i])
			if rng.Intn(2) == 0 {
				b = b[:rng.Intn(len(b))]
			} else {
				b = append(b, byte(rng.Intn(256)))
			}
			l[i] = keyserv.B64(b)
			if l[i] == "" {
				l[i] = "!"
			}
		case v == 12:
			// other history with correct links
			what = "rewritten"
			l[i] = edit([]string{"nonce", "hashid", "cruid", "uidindex"}[rng.Intn(4)])
			keyserv.Relink(l, i)
			want = !(own > 0 && uint64(i) <= own)
		case v == 13:
			what = "shortened"
			l = l[:i+1]
			want = true
		}
		set(l)
		r := u.do("hashchain validate --domain %s", s.Domain)
		w.log("(%s at %d of %d, own record at %d)", what, i, len(good), own)
		t.Eval(fmt.Sprint(c, s.Domain, k, what))
		t.Count(fmt.Sprintf("validate/%s/%v", what, want))
		if want && r != "" {
			w.bad("validate/"+what+"/refused", "%s", r)
		} else if !want && r == "" {
			w.bad("validate/"+what+"/accepted", "chain validates (entry %d of %d, own record at %d)", i, len(good), own)
		}
		t.Sample("validate-"+what, map[string]interface{}{"entry": i, "of": len(good), "result": r})
	}
	set(good)
	if r := u.do("hashchain validate --domain %s", s.Domain); r != "" {
		w.bad("honest-validate-refused", "%s", r)
	}
}
