package main

import (
	"encoding/json"
	"fmt"
	mrand "math/rand"
	"sort"
	"strconv"
	"strings"

	"verif/harness/keyserv"
	"verif/harness/mon"
)

var e03 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "members add, edit, remove, block and unblock contacts and write to each other with the real client, under a model of white, gray and black lists; key server and tools fail or the client is killed in between; " +
		"one evaluation is one command or one list which was compared with the model, or one message",
	MinEvents: 900,
	Run:       runE03,
}

// entry is what an identity knows about another one.
type entry struct {
	list  string // "", "white", "gray", "black"
	name  string // as it was written
	full  string
	other *entry // may also be this, after a command which failed half way
}

func (e *entry) line() string {
	if e.full == "" {
		return e.name
	}
	return e.full + " <" + e.name + ">"
}

// contacts is a history of contact commands.
type contacts struct {
	*life
	book map[string]map[string]*entry // by own and other identity
	at   map[string][]string          // messages under way, by recipient
	want map[string]map[string]bool   // messages which a recipient has to have
}

func (c *contacts) get(own, other string) *entry {
	if c.book[own] == nil {
		c.book[own] = map[string]*entry{}
	}
	if c.book[own][other] == nil {
		c.book[own][other] = &entry{}
	}
	return c.book[own][other]
}

// spell writes an identity in another way.
func spell(rng *mrand.Rand, id string) string {
	b := []byte(id)
	at := strings.Index(id, "@")
	for i := range b {
		if rng.Intn(3) > 0 {
			continue
		}
		switch {
		case i < at && b[i] == 'o':
			b[i] = "0O"[rng.Intn(2)]
		case i < at && b[i] == 'l':
			b[i] = "1L"[rng.Intn(2)]
		case i < at && b[i] == 'i':
			b[i] = "jJI"[rng.Intn(3)]
		case b[i] >= 'a' && b[i] <= 'z':
			b[i] -= 32
		}
	}
	return string(b)
}

var fullNames = []string{"", "", "", "Alice", "Bob the Builder", "Dr. O'Neill; DROP TABLE Contacts;--", "J\u00f6rg \u263a", "\"quoted\"", "a <b@c>", "%s%n", " blank ", strings.Repeat("long ", 100), "-", "--id"}

var addDist []string

func init() {
	for _, kind := range []string{"fail", "kill"} {
		for _, when := range []string{"before", "after"} {
			addDist = append(addDist, kind+"/mutecrypt/"+when+"/1")
		}
	}
	for _, kind := range []string{"500", "cut", "rpc", "kill"} {
		for nth := 1; nth <= 8; nth++ {
			addDist = append(addDist, fmt.Sprintf("keys/%s/%d", kind, nth))
		}
	}
}

// step runs one contact command and tells the model.
func (c *contacts) step(p *person, kind, other, dist string) {
	e := c.get(p.id, other)
	name, full := other, ""
	if c.rng.Intn(2) == 0 {
		name = spell(c.rng, other)
	}
	own := p.id
	if c.rng.Intn(4) == 0 {
		own = spell(c.rng, own)
	}
	args := []string{"contact", kind, "--id", own, "--contact", name}
	if kind == "add" || kind == "edit" {
		full = fullNames[c.rng.Intn(len(fullNames))]
		if full != "" || kind == "edit" {
			args = append(args, "--full-name="+full)
		}
	}
	c.disturb(p, dist)
	r := p.m.ctl("", args...)
	c.clear()
	c.note("%s: %q (%s) -> %v", p.id, args, dist, r)
	c.t.Eval(fmt.Sprint(p.id, args, dist, *e, c.rng.Int()))
	c.t.Count("command/" + kind)
	ok := true // whether it has to succeed
	next := *e
	next.other = nil
	exists := strings.HasPrefix(other, "alice@") || strings.HasPrefix(other, "bob@") || strings.HasPrefix(other, "carol@")
	switch kind {
	case "add":
		switch {
		case e.list == "white":
			// nothing has to change; a new name may be taken
			if full == "" {
				full = e.full
			}
			next.other = &entry{list: "white", name: name, full: full}
		case !exists:
			ok = false
		default:
			if full == "" {
				full = e.full
			}
			next = entry{list: "white", name: name, full: full}
		}
	case "edit":
		if e.list == "" {
			ok = false
		} else {
			next.name, next.full = name, full
		}
	case "remove":
		if e.list != "" {
			next.list = "gray"
		}
	case "block":
		next = entry{list: "black", name: name, full: e.full}
		if e.list != "" {
			// the name may stay
			next.other = &entry{list: "black", name: e.name, full: e.full}
		}
	case "unblock":
		if e.list != "black" {
			ok = false
		} else {
			next.list = "white"
			if !exists {
				// nobody to write to: this may be refused
				next.other = &entry{list: "black", name: e.name, full: e.full}
			}
		}
	}
	if dist == "" && ok && r.err != nil && !(kind == "unblock" && !exists) {
		c.violation("fails/"+kind, "%s contact %q on the list %q: %v", kind, name, e.list, r)
	}
	if !ok && r.err == nil && kind != "unblock" {
		c.violation("succeeds/"+kind, "%s contact %q on the list %q succeeds", kind, name, e.list)
	}
	if kind == "unblock" && e.list != "black" && r.err == nil {
		c.violation("succeeds/unblock", "contact %q on the list %q is unblocked", name, e.list)
	}
	prev := *e
	if !ok {
		next = prev
	} else if r.err != nil {
		// it failed: either nothing happened, or all of it
		o := next
		o.other = next.other
		next = prev
		next.other = &o
	}
	*e = next
	c.lists(p)
}

// lists compares the lists of p with the model.
func (c *contacts) lists(p *person) {
	got := map[string]map[string]int{}
	for _, kind := range []string{"list", "blacklist"} {
		r := c.must(p, "", "contact", kind, "--id", p.id)
		got[kind] = map[string]int{}
		for _, ln := range strings.Split(r.out, "\n") {
			if ln != "" {
				got[kind][ln]++
			}
		}
	}
	if r := p.m.ctl("", "contact", []string{"list", "blacklist"}[c.rng.Intn(2)], "--id", "stranger@mute.one"); r.err == nil {
		c.violation("list/stranger", "there is a list of contacts of somebody else: %q", r.out)
	}
	var total int
	for _, other := range sortedKeys(c.book[p.id]) {
		e := c.book[p.id][other]
		ok := false
		for s := e; s != nil; s = s.other {
			w, b := got["list"][s.line()], got["blacklist"][s.line()]
			switch s.list {
			case "white":
				ok = w == 1 && b == 0
			case "black":
				ok = w == 0 && b == 1
			default:
				ok = w == 0 && b == 0
				for l := range got["list"] {
					ok = ok && !names(l, other)
				}
				for l := range got["blacklist"] {
					ok = ok && !names(l, other)
				}
			}
			if ok {
				*e = entry{list: s.list, name: s.name, full: s.full}
				break
			}
		}
		if !ok {
			c.violation("list/"+e.list, "%s has %s on the list %q as %q, but it is listed as %q / black %q", p.id, other, e.list, e.line(), got["list"], got["blacklist"])
			panic(mon.Failed{})
		}
		if e.list == "white" || e.list == "black" {
			total++
		}
		c.t.Count("listed/" + e.list)
	}
	if n := len(got["list"]) + len(got["blacklist"]); n != total {
		c.violation("list/number", "%s has %d contacts listed instead of %d: %q / black %q", p.id, n, total, got["list"], got["blacklist"])
		panic(mon.Failed{})
	}
	c.t.Eval(fmt.Sprint("lists", p.id, got))
}

// names tells whether a line is about an identity.
func names(line, other string) bool {
	if i := strings.LastIndex(line, "<"); i >= 0 && strings.HasSuffix(line, ">") {
		line = line[i+1 : len(line)-1]
	}
	line = strings.ToLower(line)
	at := strings.Index(line, "@")
	if at < 0 {
		return false
	}
	return strings.NewReplacer("0", "o", "1", "l", "j", "i").Replace(line[:at])+line[at:] == other
}

func sortedKeys(m map[string]*entry) (l []string) {
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// write adds a message, which is refused unless the contact is white.
func (c *contacts) write(p, q *person) {
	e := c.get(p.id, q.id)
	text := c.text()
	to := q.id
	if c.rng.Intn(3) == 0 {
		to = spell(c.rng, to)
	}
	r := p.m.ctl(text, "msg", "add", "--from", p.id, "--to", to)
	c.t.Eval(fmt.Sprint("write", p.id, to, *e, c.n))
	c.t.Count("write/" + e.list)
	c.note("%s: message %q to %q -> %v", p.id, subject(text), to, r)
	if e.list != "white" {
		if r.err == nil {
			c.violation("write/"+e.list, "%s can write to %s which is on the list %q", p.id, to, e.list)
		}
		return
	}
	if r.err != nil {
		c.violation("write/refused", "%s cannot write to %s: %v", p.id, to, r)
		return
	}
	c.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text}
	c.at[q.id] = append(c.at[q.id], subject(text))
}

// exchange sends and fetches everything.
func (c *contacts) exchange() {
	for _, p := range c.people {
		c.life.send(p, "")
	}
	c.mix(true)
	for _, q := range c.people {
		c.fetch(q, "")
	}
	for _, q := range c.people {
		for _, sub := range c.at[q.id] {
			m := c.msgs[sub]
			e := c.get(q.id, m.from)
			c.t.Count("receive/" + e.list)
			switch e.list {
			case "black":
				continue
			case "":
				*e = entry{list: "gray", name: m.from}
			}
			if c.want[q.id] == nil {
				c.want[q.id] = map[string]bool{}
			}
			c.want[q.id][sub] = true
		}
		c.at[q.id] = nil
	}
	for _, q := range c.people {
		in, out := map[string]int{}, map[string]int{}
		for _, g := range c.list(q) {
			if g.dir == '>' {
				in[g.sub]++
			} else {
				out[g.sub]++
			}
		}
		for sub, m := range c.msgs {
			want := 0
			if c.want[q.id][sub] {
				want = 1
			}
			if in[sub] != want {
				c.violation("received", "%s has message %q from %s (list %q) %d times instead of %d", q.id, sub, m.from, c.get(q.id, m.from).list, in[sub], want)
				panic(mon.Failed{})
			}
			want = 0
			if m.from == q.id {
				want = 1
			}
			if out[sub] != want {
				c.violation("written", "%s lists the written message %q %d times instead of %d", q.id, sub, out[sub], want)
				panic(mon.Failed{})
			}
			c.t.Eval(fmt.Sprint("message", q.id, sub, c.n))
		}
		c.lists(q)
	}
}

func newContacts(t *mon.T, rng *mrand.Rand) *contacts {
	c := &contacts{life: newLife(t, rng, 3), book: map[string]map[string]*entry{}, at: map[string][]string{}, want: map[string]map[string]bool{}}
	return c
}

func runE03(t *mon.T) {
	n := t.N(16, 120)
	cs := make([]*contacts, n)
	for i := range cs {
		cs[i] = newContacts(t, t.Rand("contacts", i))
	}
	kinds := []string{"add", "add", "add", "edit", "remove", "block", "unblock", "unblock"}
	parallel(t, n, func(i int) {
		c := cs[i]
		defer c.w.close()
		for _, p := range c.people {
			c.must(p, "", "uid", "new", "--id", p.id)
		}
		d := i * 5
		for round := 0; round < 9; round++ {
			for k := 0; k < 5; k++ {
				p := c.people[c.rng.Intn(len(c.people))]
				q := c.people[c.rng.Intn(len(c.people))]
				if p == q {
					continue
				}
				other := q.id
				if c.rng.Intn(8) == 0 {
					other = "nobody@mute.one"
				}
				dist := ""
				kind := kinds[c.rng.Intn(len(kinds))]
				if (kind == "add" || kind == "unblock") && c.rng.Intn(2) == 0 {
					dist = addDist[d%len(addDist)]
					d++
				}
				c.step(p, kind, other, dist)
			}
			for k := 0; k < 4; k++ {
				p := c.people[c.rng.Intn(len(c.people))]
				q := c.people[c.rng.Intn(len(c.people))]
				if p != q {
					c.write(p, q)
				}
			}
			if c.rng.Intn(2) == 0 {
				c.exchange()
			}
		}
		c.exchange()
	})
	parallel(t, t.N(18, 90), func(i int) { believe(t, i) })
}

// lies are what a key server can say about a contact which must not be
// believed.
var lies = []string{"link", "history", "init", "other init", "link", "record", "missing"}

// believe lets a member add a contact while the key server lies.
func believe(t *mon.T, i int) {
	c := newContacts(t, t.Rand("lies", i))
	defer c.w.close()
	for _, p := range c.people {
		c.must(p, "", "uid", "new", "--id", p.id)
	}
	p, q, o := c.people[0], c.people[1], c.people[2]
	if i%4 == 3 {
		p, q, o = q, p, o
	}
	ks := c.w.ks
	lie := lies[i%len(lies)]
	if lie == "history" || c.rng.Intn(2) == 0 {
		// the chain is known so far
		c.step(p, "add", o.id, "")
	}
	done := ks.Lock()
	ks.Noise(3 + c.rng.Intn(5))
	honest := append([]string{}, ks.Chain...)
	done()
	lied := 0
	served := append([]string{}, honest...)
	switch lie {
	case "link":
		// an entry which the client has not yet seen
		n := len(served) - 1 - c.rng.Intn(3)
		b := keyserv.Dec(served[n])
		b[c.rng.Intn(len(b))] ^= 1 << uint(c.rng.Intn(8))
		served[n] = keyserv.B64(b)
	case "history":
		b := keyserv.Dec(served[0])
		b[40] ^= 4
		served[0] = keyserv.B64(b)
		keyserv.Relink(served, 0)
	case "missing":
		served = append(append([]string{}, served[:len(served)-3]...), served[len(served)-2:]...)
	}
	ks.Hook = func(method string, args map[string]interface{}, res map[string]interface{}) interface{} {
		switch {
		case strings.HasSuffix(method, "HashChain"):
			last := strings.HasSuffix(method, "LastHashChain")
			if last {
				res["HCEntry"], res["HCPos"] = served[len(served)-1], len(served)-1
			} else {
				a, _ := strconv.Atoi(fmt.Sprint(args["StartPosition"]))
				b, _ := strconv.Atoi(fmt.Sprint(args["EndPosition"]))
				if b < len(served) && a <= b {
					res["HCEntries"] = append([]string{}, served[a:b+1]...)
				}
			}
			if lie == "link" || lie == "history" || lie == "missing" {
				lied++
			}
		case method == "KeyRepository.FetchUID" && lie == "record":
			// what is returned belongs to somebody else
			for _, e := range ks.Replies {
				if x := toMap(e); fmt.Sprint(x) != fmt.Sprint(res["UIDMessageReply"]) {
					res["UIDMessageReply"] = x
					break
				}
			}
			lied++
		case method == "KeyInitRepository.FetchKeyInit" && lie == "init":
			var m map[string]interface{}
			json.Unmarshal([]byte(fmt.Sprint(res["KeyInit"])), &m)
			s := fmt.Sprint(m["SIGNATURE"])
			b := keyserv.Dec(s)
			if len(b) > 0 {
				b[c.rng.Intn(len(b))] ^= 1
				m["SIGNATURE"] = keyserv.B64(b)
				x, _ := json.Marshal(m)
				res["KeyInit"] = string(x)
				lied++
			}
		case method == "KeyInitRepository.FetchKeyInit" && lie == "other init":
			for k, l := range ks.Inits {
				if k != fmt.Sprint(args["SigKeyHash"]) && len(l) > 0 {
					res["KeyInit"] = l[0]
					lied++
					break
				}
			}
		}
		return nil
	}
	r := p.m.ctl("", "contact", "add", "--id", p.id, "--contact", q.id)
	ks.Hook = nil
	c.note("%s: contact add %s (%s, %d lies) -> %v", p.id, q.id, lie, lied, r)
	c.t.Eval(fmt.Sprint("lie", i, lie))
	if lied == 0 {
		c.t.Fatalf("%s was not said", lie)
	}
	c.t.Count("lie/" + strings.ReplaceAll(lie, " ", "-"))
	if r.err == nil {
		c.violation("lie/"+lie, "%s adds %s though the key server lied: %s", p.id, q.id, lie)
	}
	c.lists(p)
	if r := p.m.ctl("text", "msg", "add", "--from", p.id, "--to", q.id); r.err == nil {
		c.violation("lie/written/"+lie, "a message for %s is taken", q.id)
	}
	if lie != "link" && lie != "history" && lie != "missing" {
		c.step(p, "add", q.id, "")
		c.lists(p)
	}
}

func toMap(v interface{}) map[string]interface{} {
	b, _ := json.Marshal(v)
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	return m
}
