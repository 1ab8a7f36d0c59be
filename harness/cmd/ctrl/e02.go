package main

import (
	"bytes"
	"crypto/rand"
	"fmt"
	"io"
	mrand "math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/def"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/uid"
)

var e02 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "members write, send, fetch and read messages with mutectrl, which runs with all its tools as child processes; mail server, mixes, account, key and token servers are the harness's and fail, tools fail or the engine is killed before or after each of them; " +
		"one evaluation is one command which was judged or one message which was accounted for at the end",
	MinEvents: 900,
	Run:       runE02,
}

// parallel runs n independent cases, some at a time.
func parallel(t *mon.T, n int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for k := 0; k < 7; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(mon.Failed); !ok {
								panic(r)
							}
						}
					}()
					if t.Violations() < 40 && atomic.LoadInt32(&hangs) < 3 {
						f(i)
					}
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		next <- i
	}
	close(next)
	wg.Wait()
}

// sent is a message which a member added.
type sent struct {
	from, to string
	text     string
	forged   bool // by somebody outside
	at       int64
	min      int64 // delay
}

// person is one identity.
type person struct {
	m        *member
	id       string
	contacts map[string]bool
	accepted bool
	delays   string // which the address of the identity asks for
	box      string
}

// usual are the delays if nobody asked for others.
var usual = fmt.Sprint(def.MinDelay, " ", def.MaxDelay)

// delays chooses the delays in the mix, sometimes.
func delays(rng *mrand.Rand) (args []string, min int, pair string) {
	if rng.Intn(3) == 0 {
		return nil, int(def.MinDelay), usual
	}
	min = 60 + rng.Intn(2000)
	max := 3000 + rng.Intn(5000)
	return []string{"--mindelay", fmt.Sprint(min), "--maxdelay", fmt.Sprint(max)}, min, fmt.Sprint(min, " ", max)
}

// life is one history of a group of people.
type life struct {
	t      *mon.T
	w      *world
	rng    *mrand.Rand
	people []*person
	msgs   map[string]*sent // by subject
	flight []delivery
	old    []delivery
	seenMX map[string]bool
	read   map[string]bool
	gone   map[string]bool // reported
	delays map[string]bool // which messages were written with
	dist   string          // the fault which is tried by itself
	// the engine died in a fetch which decrypted already
	decrypted bool
	losses    int
	n         int
	trace     []string
	pid       int
}

func (l *life) note(f string, a ...interface{}) { l.trace = append(l.trace, fmt.Sprintf(f, a...)) }

func (l *life) violation(key, f string, a ...interface{}) {
	tr := l.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	l.t.Violation(strings.ReplaceAll(key, " ", "-"), map[string]interface{}{"what": fmt.Sprintf(f, a...), "history": append([]string{}, tr...)})
}

// must runs a command which nothing disturbs.
func (l *life) must(p *person, in string, args ...string) result {
	r := p.m.ctl(in, args...)
	l.t.Eval(fmt.Sprint(l.rng, args, len(l.trace)))
	if args[1] != "list" && args[1] != "read" {
		l.note("%s: %s -> %v", p.id, strings.Join(args, " "), r)
	}
	if r.err != nil {
		l.violation("fails/"+strings.Join(args[:2], " "), "%s: %v", p.id, r)
		panic(mon.Failed{})
	}
	return r
}

func lifeIn(t *mon.T, w *world, rng *mrand.Rand) *life {
	return &life{t: t, w: w, rng: rng, msgs: map[string]*sent{}, seenMX: map[string]bool{}, read: map[string]bool{}, gone: map[string]bool{}, delays: map[string]bool{usual: true}}
}

func newLife(t *mon.T, rng *mrand.Rand, people int) *life {
	l := lifeIn(t, newWorld(t), rng)
	names := []string{"alice", "bob", "carol", "dave"}
	var m *member
	for i := 0; i < people; i++ {
		// the last two people share a member
		if i < 2 || i != people-1 {
			m = l.w.newMember()
		}
		l.people = append(l.people, &person{m: m, id: names[i] + "@mute.one", contacts: map[string]bool{}})
	}
	return l
}

// meet registers all and makes contacts.
func (l *life) meet(all bool) {
	for _, p := range l.people {
		args, _, pair := delays(l.rng)
		p.delays = pair
		l.must(p, "", append([]string{"uid", "new", "--id", p.id}, args...)...)
		l.accounts(p)
		_, _, box := p.m.address(p.id)
		p.box = string(box) + mixcrypt.MuteSystemDomain
	}
	for _, p := range l.people {
		for _, q := range l.people {
			if p != q && (all || l.rng.Intn(4) > 0) {
				l.must(p, "", "contact", "add", "--id", p.id, "--contact", q.id)
				p.contacts[q.id] = true
			}
		}
	}
}

// accounts judges the payments for accounts.
func (l *life) accounts(p *person) {
	l.w.d.mu.Lock()
	defer l.w.d.mu.Unlock()
	for k, a := range l.w.d.acc["127.0.0.1"] {
		for i, b := range a.payments {
			l.w.present("Account", fmt.Sprintf("payment %d of account %x", i, k[:4]), b, l.w.acc, l.w.accOwner)
		}
	}
}

func (l *life) text() string {
	l.n++
	subject := fmt.Sprintf("message-%d", l.n)
	if l.rng.Intn(5) == 0 {
		subject += " grüße ☺ \"quoted\" <b>"
	}
	body := []string{"", "x", "line\n", "a\r\nb\r\n", ".\n..\n.\r\n.\n", "From here\nTo: there\n", strings.Repeat("long line ", 500), "\n\n\n", "no newline at the end", "tab\tand \x00 zero\n"}[l.rng.Intn(10)]
	if l.rng.Intn(6) == 0 {
		body += strings.Repeat("0123456789abcdef\n", l.rng.Intn(2050))
	}
	if l.rng.Intn(8) == 0 {
		return subject // no body at all
	}
	return subject + "\n" + body
}

func subject(text string) string { return strings.SplitN(text, "\n", 2)[0] }

func (l *life) write() {
	p := l.people[l.rng.Intn(len(l.people))]
	q := l.people[l.rng.Intn(len(l.people))]
	if p == q {
		return
	}
	text := l.text()
	big := l.rng.Intn(12) == 0
	if big {
		text = fmt.Sprintf("%s\n%s", subject(text), strings.Repeat("0123456789abcde\n", 6000)[:30000+l.rng.Intn(30000)])
	}
	args := []string{"msg", "add", "--from", p.id, "--to", q.id}
	in := text
	switch l.rng.Intn(5) {
	case 0:
		f := p.m.home + "/letter"
		l.t.Must(os.WriteFile(f, []byte(text), 0600), "file")
		in = "not this"
		args = append(args, "--file", f)
	case 1:
		if !strings.ContainsAny(subject(text), "ü\x00") && strings.Contains(text, "\n") {
			args = []string{"msg", "add", "--from", p.id, "--mail-input"}
			parts := strings.SplitN(text, "\n", 2)
			in = "From: me\nSubject: " + parts[0] + "\nTo: " + q.id + "\nX-Other: y\n\n" + parts[1]
		}
	}
	at := time.Now().Unix()
	if l.rng.Intn(8) == 0 {
		bad := [][]string{{"--mindelay", "59"}, {"--maxdelay", "60"}, {"--mindelay", "-1"}, {"--mindelay", "500", "--maxdelay", "500"}, {"--mindelay", "500", "--maxdelay", "499"}, {"--maxdelay", "120"}, {"--mindelay", "300"}}[l.rng.Intn(7)]
		if r := p.m.ctl(in, append(append([]string{}, args...), bad...)...); r.err == nil {
			l.violation("delays/accepted", "a message was written with %v", bad)
		}
	}
	extra, min, pair := delays(l.rng)
	args = append(args, extra...)
	l.delays[pair] = true
	if !p.contacts[q.id] {
		r := p.m.ctl(in, args...)
		if r.err == nil {
			l.violation("add/stranger", "%s writes to %s who is no contact", p.id, q.id)
		}
		return
	}
	if big {
		r := p.m.ctl(in, args...)
		l.note("%s: message of %d bytes to %s -> %v", p.id, len(text), q.id, r)
		if r.err != nil {
			l.t.Count("too big")
			if len(text) < 41000 {
				l.violation("add/refused", "a message of %d bytes: %v", len(text), r)
			}
			return
		}
	} else {
		l.must(p, in, args...)
	}
	l.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text, at: at, min: int64(min)}
}

func (l *life) clear() {
	l.w.d.mu.Lock()
	l.w.d.reply = nil
	l.w.d.mu.Unlock()
	l.w.g.setHook(nil)
	l.smtp(map[string]string{})
	unlock := l.w.ks.Lock()
	l.w.ks.Hook, l.w.ks.Before = nil, nil
	unlock()
	for _, p := range l.people {
		p.m.env.Kill, p.m.env.Fail, p.m.env.Nth = "", "", 0
		p.m.started, p.m.wrap = nil, nil
	}
}

// smtp changes what the mail server does.
func (l *life) smtp(f map[string]string) {
	l.w.s.mu.Lock()
	l.w.s.faults = f
	l.w.s.mu.Unlock()
}

// killer returns a function which kills the running command of a member.
func killer(p *person) func() {
	var pid int
	var mu sync.Mutex
	p.m.started = func(i int) { mu.Lock(); pid = i; mu.Unlock() }
	return func() {
		mu.Lock()
		defer mu.Unlock()
		if pid != 0 {
			syscall.Kill(pid, syscall.SIGKILL)
		}
	}
}

// tools lists the ways in which commands of the tools fail.
func tools(cmds ...string) (l []string) {
	for _, c := range cmds {
		for _, kind := range []string{"fail", "kill"} {
			for _, when := range []string{"before", "after"} {
				for nth := 1; nth <= 2; nth++ {
					l = append(l, fmt.Sprintf("%s/%s/%s/%d", kind, c, when, nth))
				}
			}
		}
	}
	return l
}

func (l *life) smtpFault(stage, kind string) map[string]string {
	code := map[string]string{"retry": "451 4.3.0 later", "final": "550 5.1.1 never", "close": "close", "expired": "554 5.7.1 " + client.ErrFinal.Error()}[kind]
	return map[string]string{stage: code}
}

// disturb arranges a fault for one command and tells its name.
func (l *life) disturb(p *person, name string) (args []string) {
	f := strings.Split(name, "/")
	switch f[0] {
	case "fail", "kill":
		nth, _ := strconv.Atoi(f[3])
		p.m.env.Nth = nth
		if f[0] == "fail" {
			p.m.env.Fail = f[1] + "/" + f[2]
		} else {
			p.m.env.Kill = f[1] + "/" + f[2]
		}
	case "smtp":
		l.smtp(l.smtpFault(f[1], f[2]))
	case "crash":
		// the engine dies at the n-th time it changes its database
		calls := "fsync,fdatasync,unlinkat,unlink,pwrite64"
		p.m.wrap = []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-P", p.m.home + "/msgs.db", "-P", p.m.home + "/msgs.db-journal", "-e", "trace=" + calls, "-e", "inject=" + calls + ":signal=KILL:when=" + f[2]}
	case "token":
		l.w.expire()
	case "flag":
		return []string{"--fail-delivery"}
	case "mixkeys":
		l.w.d.mu.Lock()
		keys := l.w.d.keys
		l.w.d.keys = "busy"
		l.w.d.mu.Unlock()
		p.m.started = func(int) {}
		p.m.ended = func() {
			l.w.d.mu.Lock()
			l.w.d.keys = keys
			l.w.d.mu.Unlock()
			p.m.ended = nil
		}
	case "guard":
		nth, _ := strconv.Atoi(f[2])
		kill := killer(p)
		var mu sync.Mutex
		i := 0
		l.w.g.setHook(func(c *call) fault {
			mu.Lock()
			defer mu.Unlock()
			if i++; i != nth {
				return fault{}
			}
			if f[1] == "kill" {
				kill()
				return fault{kind: "after"}
			}
			return fault{kind: f[1]}
		})
	case "account":
		nth, _ := strconv.Atoi(f[3])
		kill := killer(p)
		i := 0
		l.w.d.mu.Lock()
		l.w.d.reply = func(w http.ResponseWriter, method string, _ map[string]interface{}) bool {
			if method != f[1] {
				return false
			}
			if i++; i != nth {
				return false
			}
			switch f[2] {
			case "500":
				w.WriteHeader(500)
				io.WriteString(w, "ERROR: busy")
			case "cut":
				w.Header().Set("Content-Length", "10000")
				io.WriteString(w, "half of it")
				panic(http.ErrAbortHandler)
			case "error":
				io.WriteString(w, "ERROR: accountdb: busy")
			case "kill":
				kill()
				time.Sleep(20 * time.Millisecond)
				return false
			}
			return true
		}
		l.w.d.mu.Unlock()
	case "keys":
		nth, _ := strconv.Atoi(f[2])
		kill := killer(p)
		i := 0
		unlock := l.w.ks.Lock()
		if f[1] == "before" {
			l.w.ks.Before = before(nth)
			unlock()
			break
		}
		l.w.ks.Hook = func(method string, _ map[string]interface{}, _ map[string]interface{}) interface{} {
			if i++; i != nth {
				return nil
			}
			switch f[1] {
			case "500":
				return keyserv.Status(500)
			case "cut":
				return keyserv.Cut{}
			case "rpc":
				return keyserv.RPCError("busy")
			}
			kill()
			return keyserv.Status(500)
		}
		unlock()
	case "keyserver":
		unlock := l.w.ks.Lock()
		l.w.ks.Hook = func(method string, _ map[string]interface{}, _ map[string]interface{}) interface{} {
			return keyserv.Status(500)
		}
		unlock()
	}
	return nil
}

var sendDist, fetchDist []string

func init() {
	sendDist = tools("mutecrypt encrypt", "muteproto create", "muteproto deliver")
	for _, stage := range []string{"greet", "ehlo2", "starttls", "mail", "rcpt", "data", "body", "quit"} {
		for _, kind := range []string{"retry", "final", "close"} {
			sendDist = append(sendDist, "smtp/"+stage+"/"+kind)
		}
	}
	sendDist = append(sendDist, "smtp/body/expired", "smtp/rcpt/expired", "smtp/mail/expired", "flag", "mixkeys", "token/expired")
	for _, kind := range []string{"before", "after", "status", "kill"} {
		for nth := 1; nth <= 4; nth++ {
			sendDist = append(sendDist, fmt.Sprintf("guard/%s/%d", kind, nth))
		}
	}
	fetchDist = tools("muteproto fetch", "mutecrypt decrypt")
	for _, kind := range []string{"500", "cut", "error", "kill"} {
		fetchDist = append(fetchDist, "account/ListMessages/"+kind+"/1")
		for nth := 1; nth <= 3; nth++ {
			fetchDist = append(fetchDist, fmt.Sprintf("account/message/%s/%d", kind, nth))
		}
	}
	fetchDist = append(fetchDist, "keyserver")
	for nth := 1; nth <= crashPoints; nth++ {
		sendDist = append(sendDist, fmt.Sprintf("crash/send/%d", nth))
		fetchDist = append(fetchDist, fmt.Sprintf("crash/fetch/%d", nth))
	}
}

const crashPoints = 14

func (l *life) send(p *person, dist string) {
	args := []string{"msg", "send", "--id", p.id}
	if l.rng.Intn(3) == 0 {
		args = []string{"msg", "send", "--all"}
	}
	args = append(args, l.disturb(p, dist)...)
	r := p.m.ctl("", args...)
	l.clear()
	l.note("%s: send (%s) -> %v", p.id, dist, r)
	if strings.HasPrefix(dist, "crash/") && (r.killed || r.err != nil) {
		l.t.Count("crashed/send")
	}
	l.t.Count("send/" + strings.Join(strings.Split(dist, "/")[:1], ""))
	l.t.Eval(fmt.Sprint("send", l.rng, len(l.trace)))
	if dist == "" && r.err != nil {
		l.violation("fails/msg send", "%s: %v", p.id, r)
		panic(mon.Failed{})
	}
}

// mix takes the mails to the mixes, and some of them to their mailboxes.
func (l *life) mix(all bool) {
	for _, d := range l.w.relay() {
		if !l.delays[d.sender] {
			l.violation("delays/sender", "a message is sent with delays %s, nobody asked for these", d.sender)
		}
		for _, p := range l.people {
			if d.mailbox == p.box && d.recipient != p.delays {
				l.violation("delays/recipient", "a message to %s has delays %s, the address should ask for %s", p.id, d.recipient, p.delays)
			}
		}
		// the same envelope again: the mix does not take a token twice
		if l.seenMX[d.revoke] {
			l.t.Count("mix/again")
			continue
		}
		l.seenMX[d.revoke] = true
		l.flight = append(l.flight, d)
	}
	l.rng.Shuffle(len(l.flight), func(i, j int) { l.flight[i], l.flight[j] = l.flight[j], l.flight[i] })
	n := len(l.flight)
	if !all {
		n = l.rng.Intn(n + 1)
	}
	for _, d := range l.flight[:n] {
		l.w.deposit(d)
		l.old = append(l.old, d)
		l.t.Count("mix/delivered")
		l.note("mix: delivers to %.8s", d.mailbox)
	}
	l.flight = l.flight[n:]
}

// junk puts something in a mailbox which is no new message for its owner.
func (l *life) junk(kind int) {
	if len(l.old) == 0 {
		return
	}
	d := l.old[l.rng.Intn(len(l.old))]
	e := l.old[l.rng.Intn(len(l.old))]
	msg := append([]byte{}, d.msg...)
	what := ""
	switch kind % 7 {
	case 0:
		what = "again"
	case 1:
		what = "cut"
		msg = msg[:l.rng.Intn(len(msg))]
	case 2:
		what = "noise"
		rand.Read(msg)
	case 3:
		what = "flipped"
		msg[l.rng.Intn(len(msg))] ^= 1 << uint(l.rng.Intn(8))
	case 4:
		what = "crossed"
		msg = append([]byte{}, e.msg...)
		if e.mailbox == d.mailbox {
			return
		}
	case 5:
		what = "empty"
		msg = nil
	case 6:
		what = "small"
		msg = make([]byte, l.rng.Intn(200))
		rand.Read(msg)
	}
	l.w.deposit(delivery{mailbox: d.mailbox, msg: msg})
	l.t.Count("junk/" + what)
	l.note("junk: %s to %.8s", what, d.mailbox)
}

func (l *life) person(id string) *person {
	for _, p := range l.people {
		if p.id == id {
			return p
		}
	}
	return nil
}

func (l *life) fetch(p *person, dist string) {
	args := []string{"msg", "fetch", "--id", p.id}
	if l.rng.Intn(3) == 0 {
		args = []string{"msg", "fetch", "--all"}
	}
	l.disturb(p, dist)
	r := p.m.ctl("", args...)
	l.clear()
	if strings.HasPrefix(dist, "crash/") {
		tools, _ := os.ReadFile(p.m.log)
		l.decrypted = l.decrypted || bytes.Contains(tools, []byte("start mutecrypt decrypt"))
		if r.killed || r.err != nil {
			l.t.Count("crashed/fetch")
		}
	}
	l.note("%s: fetch (%s) -> %v", p.id, dist, r)
	l.t.Count("fetch/" + strings.Split(dist, "/")[0])
	l.t.Eval(fmt.Sprint("fetch", l.rng, len(l.trace)))
	if dist == "" && r.err != nil {
		l.violation("fails/msg fetch", "%s: %v", p.id, r)
		panic(mon.Failed{})
	}
}

// inner sends something through the mix which anybody can who knows an address:
// it is no new message for its owner.
func (l *life) inner(kind int) {
	p := l.people[l.rng.Intn(len(l.people))]
	addr, tmpl, mailbox := p.m.address(p.id)
	// what a mix delivered to this nym before
	var real [][]byte
	for _, d := range l.old {
		if d.mailbox == string(mailbox)+mixcrypt.MuteSystemDomain {
			if b, nym, err := mixcrypt.ReceiveFromMix(tmpl, mailbox, d.msg); err == nil && bytes.Equal(nym, cipher.SHA256([]byte(p.id))) {
				real = append(real, b)
			}
		}
	}
	var msg []byte
	if len(real) > 0 {
		msg = append(msg, real[l.rng.Intn(len(real))]...)
	} else {
		kind = []int{3, 4, 5}[kind%3]
	}
	what := ""
	switch kind % 8 {
	case 0:
		what = "replay"
	case 1:
		what = "cut"
		msg = msg[:4096+l.rng.Intn(len(msg)-4095)] // mixes do not take less
	case 2:
		what = "flipped"
		i := l.rng.Intn(len(msg))
		if l.rng.Intn(2) == 0 {
			i = l.rng.Intn(400)
		}
		msg[i] ^= 1 << uint(l.rng.Intn(8))
	case 3:
		what = "noise"
		msg = make([]byte, 4096+l.rng.Intn(20000))
		rand.Read(msg)
	case 4:
		what = "zero"
		msg = make([]byte, 4096+l.rng.Intn(20000))
	case 5:
		what = "text"
		msg = bytes.Repeat([]byte("read me!\n"), 460+l.rng.Intn(3000))
	case 6:
		what = "longer"
		more := make([]byte, 1+l.rng.Intn(300))
		rand.Read(more)
		msg = append(msg, more...)
	case 7:
		what = "tail"
		i := len(msg) / 2
		rand.Read(msg[i+l.rng.Intn(len(msg)-i):])
	}
	l.w.deposit(l.w.through(addr, msg))
	l.t.Count("inner/" + what)
	l.note("junk: inner %s to %s", what, p.id)
}

var forgedNames = []string{"mallory@mute.one", "Mallory@mute.one", "mallory", "", "@", "mallory@", "@mute.one", "mallory@other.example", "mallory@127.0.0.1:1", "m\u00e4llory@mute.one", "mal lory@mute.one",
	"mallory@mute.one\nSENDERIDENTITY:\tdave@mute.one", "mallory@mute.one\t", "a@b@mute.one", "--help@mute.one", "keyserver@mute.one"}

// forge sends a message of somebody who follows the protocol but calls
// himself as he likes.
func (l *life) forge(p *person, name string) {
	unlock := l.w.ks.Lock()
	to := l.w.ks.Latest[p.id]
	hash, err := to.SigKeyHash()
	l.t.Must(err, "key hash")
	inits := l.w.ks.Inits[hash]
	ki, err := uid.NewJSONKeyInit([]byte(inits[len(inits)-1]))
	unlock()
	l.t.Must(err, "key init")
	mallory, err := kit.NewParty("mallory@mute.one")
	l.t.Must(err, "party")
	mallory.ID = name
	mallory.UID.UIDContent.IDENTITY = name
	var key cipher.Ed25519Key
	l.t.Must(key.SetPrivateKey(b64dec(mallory.UID.PrivateSigKey())), "key")
	mallory.UID.SELFSIGNATURE = b64(key.Sign(mallory.UID.UIDContent.JSON()))
	ke, err := ki.KeyEntryECDHE25519(to.SigPubKey())
	l.t.Must(err, "key entry")
	f, err := kit.NewForge(mallory, &kit.Party{ID: p.id, UID: to, KE: ke})
	l.t.Must(err, "forger")
	l.n++
	text := fmt.Sprintf("message-%d forged\nby %q", l.n, name)
	f.Content = []byte(text)
	b, err := f.Build()
	l.t.Must(err, "forged message")
	addr, _, _ := p.m.address(p.id)
	l.w.deposit(l.w.through(addr, b64dec(string(b))))
	l.msgs[subject(text)] = &sent{from: name, to: p.id, text: text, forged: true}
	l.t.Count("forged")
	l.note("forged message of %q to %s", name, p.id)
}

// got is a line of a list of messages.
type got struct {
	dir, status   byte
	num           string
	from, to, sub string
	date          string
}

func (l *life) list(p *person) (g []got) {
	r := l.must(p, "", "msg", "list", "--id", p.id)
	for _, ln := range strings.Split(r.out, "\n") {
		if ln == "" {
			continue
		}
		f := strings.SplitN(ln, "\t", 5)
		if len(f) != 5 || len(f[0]) < 4 {
			l.violation("list/format", "%q", ln)
			continue
		}
		g = append(g, got{f[0][0], f[0][1], f[0][3:], f[2], f[3], f[4], f[1]})
	}
	return g
}

// date judges the date of a message in the list: when it arrived in the
// mailbox, or when it leaves the mix at the earliest.
func (l *life) date(p *person, g got, m *sent) {
	if m.at == 0 || g.dir == '<' && g.status != 'S' {
		return
	}
	lo, hi := m.at-l.w.coarse, time.Now().Unix()
	if g.dir == '<' {
		lo, hi = m.at+m.min, hi+m.min
	}
	d, err := time.Parse(time.RFC3339, g.date)
	if err != nil || d.Unix() < lo || d.Unix() > hi {
		l.violation("list/date", "%s lists %+v, which was written %s with a minimum delay of %d", p.id, g, time.Unix(m.at, 0), m.min)
	}
}

// settle ends the history: nothing fails any more, and then everything has
// arrived once.
func (l *life) settle() {
	l.clear()
	for round := 0; round < 3; round++ {
		for _, p := range l.people {
			l.send(p, "")
		}
		l.mix(true)
		for _, p := range l.people {
			l.fetch(p, "")
		}
	}
	for _, p := range l.people {
		inbox := map[string]int{}
		for _, g := range l.list(p) {
			m := l.msgs[g.sub]
			if m == nil || m.from != g.from || m.to != g.to || (g.dir == '>') != (m.to == p.id) {
				l.violation("list/wrong", "%s lists %+v", p.id, g)
				continue
			}
			l.date(p, g, m)
			if m.forged {
				l.t.Count("forged/arrived")
				if q := l.person(m.from); q != nil {
					l.violation("forged/sender/self-signed", "%s gets a message of %s which %s did not write", p.id, q.id, q.id)
				}
			}
			if g.dir == '<' {
				if g.status != 'S' {
					l.violation("sent/status", "%s: message %q has status %c", p.id, g.sub, g.status)
				}
				inbox["<"+g.sub]++
				continue
			}
			inbox[g.sub]++
			if inbox[g.sub] > 1 {
				l.violation("twice", "%s has message %q %d times", p.id, g.sub, inbox[g.sub])
			}
			if !l.read[g.sub] {
				l.read[g.sub] = true
				r := l.must(p, "", "msg", "read", "--id", p.id, "--msgnum", g.num)
				l.content(p, m, r.out)
			}
		}
		for sub, m := range l.msgs {
			l.t.Eval(fmt.Sprint("account", l.rng, p.id, sub))
			if m.to == p.id && inbox[sub] == 0 && !m.forged {
				if !l.gone[sub] {
					l.gone[sub] = true
					dist := l.dist
					if l.losses++; strings.HasPrefix(dist, "crash/fetch/") && l.decrypted && l.losses == 1 {
						dist = "kill/mutecrypt-decrypt/after/1" // the one in between
					}
					l.violation("lost/"+dist, "message %q from %s did not arrive at %s", sub, m.from, m.to)
				}
			}
			if m.to == p.id && inbox[sub] > 0 {
				l.t.Count("arrived")
			}
			if m.from == p.id && !m.forged && inbox["<"+sub] != 1 {
				l.violation("sent/gone", "message %q of %s is listed %d times", sub, p.id, inbox["<"+sub])
			}
		}
	}
}

// content compares a message as it is shown.
func (l *life) content(p *person, m *sent, out string) {
	parts := strings.SplitN(out, "\r\n\r\n", 2)
	if len(parts) != 2 {
		l.violation("read/format", "%q", out)
		return
	}
	body := ""
	if i := strings.Index(m.text, "\n"); i >= 0 {
		body = m.text[i+1:]
	}
	if parts[1] != body {
		l.violation("read/content", "message %q of %d bytes is read as %d bytes", subject(m.text), len(body), len(parts[1]))
	}
	h := map[string]string{}
	for _, ln := range strings.Split(parts[0], "\r\n") {
		if i := strings.Index(ln, ": "); i > 0 {
			h[ln[:i]] = ln[i+2:]
		}
	}
	if h["From"] != m.from || h["To"] != m.to {
		l.violation("read/header", "%v instead of %s to %s", h, m.from, m.to)
	}
	l.t.Count("read")
}

func runE02(t *mon.T) {
	worlds := make([]*life, t.N(14, 120))
	for i := range worlds {
		rng := t.Rand("life", i)
		worlds[i] = newLife(t, rng, 2+i%3)
		worlds[i].w.d.empty = []string{"", "accountdb: Nothing found", "accountdb: nothing found"}[i%3]
		worlds[i].w.coarse = []int64{1, 7, 30}[i%3]
	}
	parallel(t, len(worlds), func(i int) {
		l := worlds[i]
		defer l.w.close()
		l.meet(i%2 == 0)
		sd, fd, junk := i*7, i*5, 0
		for step := 0; step < 36; step++ {
			p := l.people[l.rng.Intn(len(l.people))]
			switch l.rng.Intn(8) {
			case 0, 1, 2:
				l.write()
			case 3, 4:
				dist := ""
				if i > 2 && l.rng.Intn(3) > 0 {
					for ; dist == "" || strings.HasPrefix(dist, "crash/"); sd++ {
						dist = sendDist[sd%len(sendDist)]
					}
				}
				l.send(p, dist)
			case 5:
				l.mix(l.rng.Intn(2) == 0)
			case 6:
				dist := ""
				if i > 2 && l.rng.Intn(3) > 0 {
					for ; dist == "" || strings.HasPrefix(dist, "crash/") || strings.HasPrefix(dist[5:], "mutecrypt decrypt/after"); fd++ {
						dist = fetchDist[fd%len(fetchDist)]
					}
				}
				l.fetch(p, dist)
			case 7:
				switch junk++; i % 3 {
				case 1:
					l.junk(junk + i)
				case 2:
					l.inner(junk + i)
				}
			}
		}
		l.settle()
	})
	// every fault by itself: two messages, the fault, and then nothing else fails
	const shares = 14
	for i := range worlds {
		if i < shares {
			worlds[i] = newLife(t, t.Rand("fault", i), 2)
		}
	}
	parallel(t, shares, func(i int) {
		l := worlds[i]
		defer l.w.close()
		l.meet(true)
		for k, dist := range append(append([]string{}, sendDist...), fetchDist...) {
			if k%shares == i {
				l.single(dist, k < len(sendDist))
			}
		}
	})
	names := append(append([]string{}, forgedNames...), "alice@mute.one", "bob@mute.one")
	parallel(t, len(names), func(i int) {
		l := newLife(t, t.Rand("forged", i), 2)
		defer l.w.close()
		l.meet(true)
		p, q := l.people[0], l.people[1]
		text := l.text()
		l.forge(q, names[i])
		l.must(p, text, "msg", "add", "--from", p.id, "--to", q.id)
		l.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text}
		l.settle()
	})
	n := t.N(4, 12)
	parallel(t, 2*n, func(i int) {
		if i < n {
			siblings(t, t.Rand("siblings", i))
		} else {
			obstacle(t, t.Rand("obstacle", i), i-n)
		}
	})
	faults := append([]string{"", "keyserver"}, tools("mutecrypt")...)
	parallel(t, len(faults), func(i int) { strange(t, t.Rand("stranger", i), faults[i]) })
}

// single tries one fault.
func (l *life) single(dist string, sending bool) {
	l.dist, l.decrypted, l.losses = dist, false, 0
	k := l.rng.Intn(2)
	p, q := l.people[k], l.people[1-k]
	for i := 0; i < 2; i++ {
		text := l.text()
		l.must(p, text, "msg", "add", "--from", p.id, "--to", q.id)
		l.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text}
	}
	charged, kept, spent := p.m.charged(), p.m.tokens(), l.w.presented()
	if sending {
		l.send(p, dist)
	} else {
		l.send(p, "")
		l.mix(true)
		l.fetch(q, dist)
	}
	l.settle()
	l.t.Count("fault/" + dist)
	// no token is lost: they are in an envelope which arrived, or still there
	charged, kept, spent = p.m.charged()-charged, p.m.tokens()-kept, l.w.presented()-spent
	want := charged
	switch {
	case dist == "token/expired":
		want--
	case strings.HasSuffix(dist, "/expired"):
		want -= 2
	}
	if strings.HasPrefix(dist, "crash/") && (kept+spent > want || kept+spent == want-1) {
		// in an envelope and not yet removed from the wallet, or charged and
		// not yet written to it
		kept = want - spent
	}
	if kept+spent != want {
		l.violation("tokens/lost/"+dist, "%d tokens were charged, %d were used and %d remain", charged, spent, kept)
	}
	if (strings.HasPrefix(dist, "fail/") || strings.HasPrefix(dist, "smtp/") && want == charged) && charged > 2 {
		l.violation("tokens/many/"+dist, "%d tokens were charged for 2 messages", charged)
	}
	l.t.CountN("tokens charged", int64(charged))
}

// strange sends messages to somebody who does not know the sender, and who
// fetches them under one fault.
func strange(t *mon.T, rng *mrand.Rand, dist string) {
	l := newLife(t, rng, 2)
	defer l.w.close()
	l.dist = dist
	p, q := l.people[0], l.people[1]
	for _, x := range l.people {
		l.must(x, "", "uid", "new", "--id", x.id)
	}
	l.must(p, "", "contact", "add", "--id", p.id, "--contact", q.id)
	for i := 0; i < 2; i++ {
		text := l.text()
		l.must(p, text, "msg", "add", "--from", p.id, "--to", q.id)
		l.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text}
	}
	l.send(p, "")
	l.mix(true)
	l.fetch(q, dist)
	l.settle()
	l.t.Count("stranger")
}

// add writes a message which nothing disturbs.
func (l *life) add(p, q *person) string {
	text := l.text()
	l.must(p, text, "msg", "add", "--from", p.id, "--to", q.id)
	l.msgs[subject(text)] = &sent{from: p.id, to: q.id, text: text}
	return subject(text)
}

// siblings lets two identities of one user write and be answered at once.
func siblings(t *mon.T, rng *mrand.Rand) {
	l := newLife(t, rng, 3)
	defer l.w.close()
	l.meet(true)
	a, b, c := l.people[0], l.people[1], l.people[2]
	for round := 0; round < 2; round++ {
		from := []*person{b, c}
		if rng.Intn(2) == 0 {
			from = []*person{c, b}
		}
		for _, p := range from {
			l.add(p, a)
			if rng.Intn(2) == 0 {
				l.add(p, a)
			}
		}
		l.add(b, c)
		l.must(b, "", "msg", "send", "--all")
		l.mix(true)
		l.fetch(a, "")
		for _, p := range from {
			l.add(a, p)
		}
		l.add(c, b)
		l.send(a, "")
		l.mix(true)
		l.must(b, "", "msg", "fetch", "--all")
	}
	l.settle()
	l.t.Count("siblings")
}

// obstacle lets the mail server put off one message again and again: the
// others arrive nevertheless.
func obstacle(t *mon.T, rng *mrand.Rand, i int) {
	l := newLife(t, rng, 2)
	defer l.w.close()
	l.meet(true)
	p, q := l.people[0], l.people[1]
	n := 3 + rng.Intn(3)
	var subs []string
	for k := 0; k < n; k++ {
		subs = append(subs, l.add(p, q))
	}
	nth := i % (n - 1) // this one is put off
	var mu sync.Mutex
	seen := map[string]int{}
	l.w.s.mu.Lock()
	l.w.s.verdict = func(data []byte) string {
		mu.Lock()
		defer mu.Unlock()
		if _, ok := seen[string(data)]; !ok {
			seen[string(data)] = len(seen)
		}
		if seen[string(data)] == nth {
			return []string{"451 4.3.0 later", "450 4.2.0 later", "452 4.3.1 later"}[i%3]
		}
		return ""
	}
	l.w.s.mu.Unlock()
	l.send(p, "")
	l.mix(true)
	l.fetch(q, "")
	there := map[string]bool{}
	for _, g := range l.list(q) {
		there[g.sub] = true
	}
	for k, sub := range subs {
		l.t.Eval(fmt.Sprint("obstacle", l.rng, sub))
		if k != nth && !there[sub] {
			l.violation("obstacle", "message %d of %d did not arrive while message %d was put off by the mail server", k+1, n, nth+1)
		}
	}
	l.w.s.mu.Lock()
	l.w.s.verdict = nil
	l.w.s.mu.Unlock()
	l.settle()
	l.t.Count("obstacle")
}
