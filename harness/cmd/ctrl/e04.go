package main

import (
	"fmt"
	mrand "math/rand"
	"net/http"
	"sort"
	"strings"

	"verif/harness/keyserv"
	"verif/harness/mon"

	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/uid/identity"
)

var e04 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "members make, rename, switch, use and delete identities with the real client under a model of who owns which; key, account and token servers and the tools fail or the client is killed in between; " +
		"one evaluation is one command which was judged, one comparison of the lists or one message",
	MinEvents: 500,
	Run:       runE04,
}

// nym is an identity of a member.
type nym struct{ name, full string }

func (n *nym) line() string {
	if n.full == "" {
		return n.name
	}
	return n.full + " <" + n.name + ">"
}

// citizen is a member with its identities.
type citizen struct {
	gone map[string]bool // names which were deleted
	m      *member
	nyms   map[string]*nym // by mapped identity
	active string          // mapped
	dirty  bool            // an uncertain command came before
	answer string          // to questions of the next command
}

type city struct {
	*life
	cs               []*citizen
	owner            map[string]*citizen // of all names which were ever taken
	half             map[string]string   // names whose command failed half way, and how
	asked, confirmed int                 // turns
}

func newCity(t *mon.T, rng *mrand.Rand) *city {
	c := &city{life: lifeIn(t, newWorld(t), rng),
		owner: map[string]*citizen{}, half: map[string]string{}, asked: rng.Intn(18), confirmed: rng.Intn(12)}
	for i := 0; i < 2; i++ {
		m := c.w.newMember()
		c.cs = append(c.cs, &citizen{m: m, nyms: map[string]*nym{}})
		c.people = append(c.people, &person{m: m, id: fmt.Sprint("member ", i)})
	}
	return c
}

var badNames = []string{"", "nodomain", "a b@mute.one", "@mute.one", "-a@mute.one", "a..b@mute.one", "a@b@mute.one", "\u00e4nn@mute.one", "a/b@mute.one", strings.Repeat("x", 65) + "@mute.one", "ann@"}

var uidDist []string

func init() {
	uidDist = append(uidDist, tools("mutecrypt hashchain sync", "mutecrypt hashchain validate", "mutecrypt", "mutecrypt hashchain search")...)
	var l []string
	for _, d := range uidDist {
		if strings.HasSuffix(d, "/1") && d != "fail/mutecrypt hashchain search/after/1" {
			l = append(l, d)
		}
	}
	uidDist = l
	for _, kind := range []string{"before", "500", "cut", "rpc", "kill"} {
		for nth := 1; nth <= 7; nth++ {
			uidDist = append(uidDist, fmt.Sprintf("keys/%s/%d", kind, nth))
		}
	}
	for _, kind := range []string{"500", "error", "kill"} {
		uidDist = append(uidDist, "account/LoadAccount/"+kind+"/1")
	}
	for _, kind := range []string{"before", "after", "kill"} {
		for _, nth := range []int{1, 2, 3, 5, 7, 9} {
			uidDist = append(uidDist, fmt.Sprintf("guard/%s/%d", kind, nth))
		}
	}
	uidDist = append(uidDist, "mixkeys")
}

func (c *city) run(z *citizen, dist string, args ...string) result {
	p := c.people[0]
	for i := range c.cs {
		if c.cs[i] == z {
			p = c.people[i]
		}
	}
	c.disturb(p, dist)
	r := z.m.ctl(z.answer, args...)
	c.clear()
	p.m.ended = nil
	c.note("%s: %q (%s) -> %v", p.id, args, dist, r)
	c.t.Eval(fmt.Sprint(p.id, args, dist, c.rng.Int()))
	return r
}

func mapped(id string) string { s, _ := identity.Map(id); return s }

// create makes an identity, or tries to.
func (c *city) create(z *citizen, name, full, dist string) {
	id := mapped(name)
	args := []string{"uid", "new", "--id", name}
	if full != "" {
		args = append(args, "--full-name="+full)
	}
	before := c.balance(z)
	calls := c.calls()
	bad := false
	for _, b := range badNames {
		bad = bad || b == name
	}
	free := !bad && c.owner[id] == nil
	if !free || c.half[id] != "" {
		dist = ""
	}
	locked := z.m.locked()
	r := c.run(z, dist, args...)
	after := c.balance(z)
	if n := z.m.locked(); !r.killed && n > locked {
		c.violation("new/locked", "%d tokens are locked after %v", n-locked, r)
		z.m.unlock()
	}
	switch {
	case !free:
		c.t.Count("new/refused")
		if r.err == nil {
			c.violation("new/taken", "%q can be made a second time", name)
			panic(mon.Failed{})
		}
		if before != after {
			c.violation("new/refused/tokens", "%q is refused, but tokens have been spent: %d instead of %d", name, after, before)
		}
		if now := c.calls(); now != calls {
			c.violation("new/refused/calls", "%q is refused, but there were %d changes of accounts or keys", name, now-calls)
		}
	case r.err == nil:
		c.t.Count("new/made")
		c.owner[id] = z
		z.nyms[id] = &nym{name, full}
		if z.active == "" {
			z.active = id
		}
		if dist == "" && !z.dirty && before-after != 3 {
			c.violation("new/tokens", "%q costs %d tokens", name, before-after)
		}
		delete(c.half, id)
	default:
		c.t.Count("new/failed")
		if dist == "" {
			how := c.half[id]
			if how == "" {
				c.violation("fails/uid new", "%q: %v", name, r)
			} else {
				c.violation("retry/"+how, "%q cannot be made after a failure (%s): %v", name, how, r)
				c.owner[id] = &citizen{} // nobody can have it
			}
			break
		}
		z.dirty = true
		c.half[id] = dist
		unlock := c.w.ks.Lock()
		if c.w.ks.Pos[id] != nil {
			c.half[id] = "registered" // the key server knows it
		}
		unlock()
		// it is there completely or not at all
		if l := c.listed(z); l[(&nym{name, full}).line()] == 1 {
			c.owner[id] = z
			z.nyms[id] = &nym{name, full}
			if z.active == "" {
				z.active = id
			}
			delete(c.half, id)
		}
	}
	c.check(z)
}

// calls counts what changed at the servers.
func (c *city) calls() (n int) {
	c.w.d.mu.Lock()
	for _, a := range c.w.d.acc["127.0.0.1"] {
		n += len(a.payments)
	}
	c.w.d.mu.Unlock()
	unlock := c.w.ks.Lock()
	defer unlock()
	return n + c.w.ks.Calls["KeyRepository.CreateUID"] + c.w.ks.Calls["KeyInitRepository.AddKeyInit"]
}

// balance is how many tokens a member has or could still buy, up to a constant.
func (c *city) balance(z *citizen) int { return z.m.tokens() - z.m.charged() }

func (c *city) listed(z *citizen) map[string]int {
	r := z.m.ctl("", "uid", "list")
	m := map[string]int{}
	for _, l := range strings.Split(r.out, "\n") {
		if l != "" {
			m[l]++
		}
	}
	if r.err != nil {
		c.violation("fails/uid list", "%v", r)
	}
	return m
}

// check compares the lists of a member with the model.
func (c *city) check(z *citizen) {
	got := c.listed(z)
	want := map[string]int{}
	var ids []string
	for id, n := range z.nyms {
		want[n.line()]++
		ids = append(ids, id)
	}
	c.t.Eval(fmt.Sprint("list", want, len(c.trace)))
	c.t.Count(fmt.Sprint("identities/", len(ids)))
	if fmt.Sprint(got) != fmt.Sprint(want) {
		c.violation("list", "%q is listed instead of %q", got, want)
		panic(mon.Failed{})
	}
	r := z.m.ctl("", "uid", "active")
	id := mapped(strings.TrimSpace(r.out))
	switch {
	case z.active != "" && (r.err != nil || id != z.active):
		c.violation("active", "%q is active (%v) instead of %q", r.out, r, z.active)
		panic(mon.Failed{})
	case z.active == "" && r.err == nil && z.nyms[id] == nil:
		c.violation("active/deleted", "%q is active, but there are only %q", r.out, ids)
		panic(mon.Failed{})
	case z.active == "" && r.err == nil:
		z.active = id
	}
	// the secrets of their addresses are their own
	z.m.db(func(db *msgdb.MsgDB) {
		seen := map[string]string{}
		for _, id := range ids {
			_, _, secret, _, _, _, err := db.GetAccount(id, "")
			if err != nil {
				c.violation("account", "%s has no account: %v", id, err)
				continue
			}
			for i := 0; i < len(secret); i += 16 {
				part := string(secret[i : i+16])
				if part == string(make([]byte, 16)) || seen[part] != "" {
					c.violation("secret", "a part of the secret of %s is empty or known (%s)", id, seen[part])
				}
				seen[part] = id
			}
		}
	})
	// the keys are those of the identities
	r = z.m.tool("mutecrypt", nil, z.m.pass, "uid", "list")
	keys := strings.Fields(r.out)
	sort.Strings(keys)
	sort.Strings(ids)
	if r.err != nil {
		c.violation("fails/mutecrypt uid list", "%v", r)
	}
	for _, id := range ids {
		found := false
		for _, k := range keys {
			found = found || k == id
		}
		if !found {
			c.violation("keys/lost", "there are no keys for %q, only for %q", id, keys)
			panic(mon.Failed{})
		}
	}
	for _, k := range keys {
		if z.gone[k] && z.nyms[k] == nil {
			c.violation("keys/left", "the keys of %q are left after it was deleted", k)
			panic(mon.Failed{})
		}
	}
}

// confirm asks to delete an identity, but does not confirm it.
func (c *city) confirm(z *citizen, name string) {
	calls := c.calls()
	answers := []string{"n\n", "", "no\n", "\n", "ny\n", "NO\n", " \n", "?\n", "delete\n"}
	answer := answers[c.asked%len(answers)]
	if c.asked++; c.asked%2 == 0 {
		r := z.m.tool("mutecrypt", []byte(answer), z.m.pass, "uid", "delete", "--id", mapped(name))
		c.note("%q: deletion of the keys is answered with %q -> %v", name, answer, r)
		if r.err == nil {
			c.violation("delete/unconfirmed", "mutecrypt deletes %q if the answer is %q", name, answer)
		}
	} else {
		z.answer = answer
		r := c.run(z, "", "uid", "delete", "--id", name)
		z.answer = ""
		if r.err == nil {
			c.violation("delete/unconfirmed", "%q is deleted if the answer is %q", name, answer)
		}
		if !strings.Contains(r.status, name) {
			c.violation("delete/question", "the question does not name %q: %q", name, r.status)
		}
	}
	c.t.Count("delete/refused")
	if n := c.calls(); n != calls {
		c.violation("delete/unconfirmed/call", "servers are called before the deletion of %q is confirmed", name)
	}
	c.check(z)
}

// remove deletes an identity.
func (c *city) remove(z *citizen, name, dist string) {
	id := mapped(name)
	own := z.nyms[id]
	accounts := 0
	if own != nil {
		accounts = c.loaded()
	} else {
		dist = ""
	}
	if own != nil {
		c.confirm(z, name)
	}
	var r result
	if c.confirmed++; own != nil && c.confirmed%3 == 0 {
		z.answer = []string{"y\n", "yes\n", "Y\n", "YES\n"}[c.confirmed/3%4]
		r = c.run(z, dist, "uid", "delete", "--id", name)
		z.answer = ""
		c.t.Count("delete/confirmed")
	} else {
		r = c.run(z, dist, "uid", "delete", "--id", name, "--force")
	}
	switch {
	case own == nil && r.err == nil:
		c.violation("delete/unknown", "%q can be deleted", name)
	case own == nil:
		c.t.Count("delete/unknown")
	case r.err != nil && dist == "":
		c.violation("fails/uid delete", "%q: %v", name, r)
		panic(mon.Failed{})
	default:
		if r.err != nil {
			// either nothing happened, and it can be done again, or all
			if c.listed(z)[own.line()] == 1 {
				c.t.Count("delete/undone")
				if r := c.run(z, "", "uid", "delete", "--id", name, "--force"); r.err != nil {
					c.violation("delete/again", "%q cannot be deleted after a failure (%s): %v", name, dist, r)
					panic(mon.Failed{})
				}
			}
		} else if n := c.loaded(); n != accounts-1 {
			c.violation("delete/account", "%d accounts instead of %d are left after %q was deleted", n, accounts-1, name)
		}
		c.t.Count("delete/done")
		delete(z.nyms, id)
		if z.gone == nil {
			z.gone = map[string]bool{}
		}
		z.gone[id] = true
		if z.active == id {
			z.active = ""
		}
		if r := z.m.ctl("", "msg", "list", "--id", id); r.err == nil && r.out != "" {
			c.violation("delete/messages", "the messages of %q are left: %q", id, r.out)
		}
	}
	c.check(z)
}

// loaded counts accounts.
func (c *city) loaded() (n int) {
	c.w.d.mu.Lock()
	defer c.w.d.mu.Unlock()
	for _, a := range c.w.d.acc["127.0.0.1"] {
		if a.load > 0 {
			n++
		}
	}
	return n
}

// talk sends a message from each identity to another one.
func (c *city) talk() {
	var people []*person
	for _, z := range c.cs {
		for id := range z.nyms {
			people = append(people, &person{m: z.m, id: id})
		}
	}
	sort.Slice(people, func(i, j int) bool { return people[i].id < people[j].id })
	if len(people) < 2 {
		return
	}
	old := c.people
	c.people = people
	defer func() { c.people = old }()
	k := c.rng.Intn(len(people) - 1)
	want := map[string]map[string]string{}
	for i, p := range people {
		q := people[(i+1+k)%len(people)]
		if p == q {
			q = people[(i+1)%len(people)]
		}
		c.must(p, "", "contact", "add", "--id", p.id, "--contact", q.id)
		text := c.text()
		c.must(p, text, "msg", "add", "--from", p.id, "--to", q.id)
		if want[q.id] == nil {
			want[q.id] = map[string]string{}
		}
		want[q.id][subject(text)] = p.id
	}
	for _, p := range people {
		c.send(p, "")
	}
	c.mix(true)
	for _, q := range people {
		c.fetch(q, "")
		for _, g := range c.list(q) {
			if want[q.id][g.sub] == g.from && g.dir == '>' {
				delete(want[q.id], g.sub)
			}
		}
		c.t.Eval(fmt.Sprint("talk", q.id, c.n))
		c.t.CountN("message", int64(len(people)))
		if len(want[q.id]) > 0 {
			c.violation("message", "%q did not arrive at %s", want[q.id], q.id)
			panic(mon.Failed{})
		}
	}
}

func runE04(t *mon.T) {
	n := t.N(36, 200)
	cs := make([]*city, n)
	for i := range cs {
		cs[i] = newCity(t, t.Rand("city", i))
	}
	local := []string{"ann", "ben", "cat", "dan", "eve", "o.l-i2", "fritz"}
	parallel(t, n, func(i int) {
		c := cs[i]
		defer c.w.close()
		d := i * 5
		if i%3 == 1 {
			// the registration fails after the keys were made, and is repeated
			z := c.cs[c.rng.Intn(2)]
			for j := 1 + c.rng.Intn(2); j > 0; j-- {
				c.create(z, "zoe@mute.one", "", fmt.Sprint("keys/cut/", 4-i/3%2))
			}
			c.create(z, "zoe@mute.one", "Zoe", "")
			if id := mapped("zoe@mute.one"); c.half[id] == "" && z.nyms[id] != nil {
				c.t.Count("repeated/" + fmt.Sprint(len(z.nyms)))
				c.remove(z, "zoe@mute.one", "")
			}
		}
		for step := 0; step < 14; step++ {
			z := c.cs[c.rng.Intn(2)]
			name := local[c.rng.Intn(len(local))] + "@mute.one"
			var own []string
			for id := range z.nyms {
				own = append(own, id)
			}
			sort.Strings(own)
			if len(own) > 0 && c.rng.Intn(4) > 0 {
				own = own[c.rng.Intn(len(own)):]
				own = own[:1]
			} else {
				own = []string{name}
			}
			if c.rng.Intn(2) == 0 {
				name = spell(c.rng, name)
				own[0] = spell(c.rng, own[0])
			}
			full := fullNames[c.rng.Intn(len(fullNames))]
			switch k := c.rng.Intn(10); {
			case k < 4:
				dist := ""
				if i >= 3 && c.rng.Intn(2) == 0 {
					dist = uidDist[d%len(uidDist)]
					d++
				}
				if dist == "" && c.rng.Intn(5) == 0 {
					name = badNames[(i+step)%len(badNames)]
				}
				c.create(z, name, full, dist)
			case k < 6:
				r := c.run(z, "", "uid", "edit", "--id", own[0], "--full-name="+full)
				n := z.nyms[mapped(own[0])]
				if (r.err == nil) != (n != nil) {
					c.violation("edit", "%q: %v, it is %v", own[0], r, n)
				} else if n != nil {
					n.name, n.full = own[0], full
				}
				c.check(z)
			case k < 8:
				r := c.run(z, "", "uid", "switch", "--id", own[0])
				n := z.nyms[mapped(own[0])]
				if (r.err == nil) != (n != nil) {
					c.violation("switch", "%q: %v, it is %v", own[0], r, n)
				} else if n != nil {
					z.active = mapped(own[0])
				}
				c.check(z)
			case k < 9:
				dist := ""
				if i >= 3 && c.rng.Intn(2) == 0 {
					dist = []string{"fail/mutecrypt uid delete/before/1", "kill/mutecrypt uid delete/before/1", "kill/mutecrypt uid delete/after/1", "fail/mutecrypt uid delete/after/1", "account/DeleteAccount/500/1", "account/DeleteAccount/kill/1", "account/DeleteAccount/error/1"}[d%7]
					d++
				}
				c.remove(z, own[0], dist)
			default:
				if step > 6 {
					c.talk()
				}
			}
		}
		c.talk()
	})
}

// before makes the nth request to the key server fail without an effect.
func before(nth int) func(string, map[string]interface{}) interface{} {
	i := 0
	return func(string, map[string]interface{}) interface{} {
		if i++; i == nth {
			return keyserv.Status(http.StatusInternalServerError)
		}
		return nil
	}
}
