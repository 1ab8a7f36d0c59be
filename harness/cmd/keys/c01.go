package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg"
	"verif/harness/keyserv"
	"verif/harness/kit"
	"verif/harness/mon"
)

var c01 = &mon.Prop{
	Level: "exploration",
	Rule: "engines of three users with identities at two key servers go through whole lives: generate, register, synchronise, search, publish and fetch keys, then send each other messages which are delivered late, in any order, twice, damaged, to the wrong user or never, with engine restarts, identity updates, new keys and failing database statements in between; every result is compared with what was sent; " +
		"one evaluation is one encryption or decryption which was judged",
	MinEvents: 1000,
	Run:       runC01,
}

func runC01(t *mon.T) {
	for c := 0; c < t.N(40, 900) && t.Violations() < 12; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		w := newWorld(t, rng, "aaa.example", "bbb.example")
		w.c01(c)
		w.close()
	}
}

// party is one identity of a user.
type party struct {
	*member
	id, domain string
	sigKey     map[string]bool            // public signature keys so far
	knows      map[*party]bool            // has the current key init of a peer
	addrs      map[string]bool            // addresses announced in key inits
	told       map[*party]map[string]bool // addresses a peer was told in messages it read
}

type transit struct {
	from, to *party
	text     []byte
	sign     bool
	addr     string // reply address
	data     []byte
	read     bool
}

func (p *party) inits() {
	addr := p.w.addr()
	p.addrs[addr] = true
	p.must("keyinit add --id %s --mixaddress mix@%s --nymaddress %s --token t", p.id, p.domain, addr)
}

func (w *world) addr() string {
	b := make([]byte, 1+w.rng.Intn(1100))
	w.rng.Read(b)
	return base64.Encode(b)
}

func content(rng *rand.Rand) []byte {
	var n int
	switch rng.Intn(6) {
	case 0:
		n = rng.Intn(3)
	case 1:
		n = msg.MaxContentLength - rng.Intn(3)
	case 2:
		n = rng.Intn(msg.MaxContentLength)
	default:
		n = 1 + rng.Intn(300)
	}
	b := make([]byte, n)
	rng.Read(b)
	if rng.Intn(2) == 0 {
		for i := range b {
			b[i] = "abc \n\r\x00:-="[int(b[i])%10]
		}
	}
	return b
}

// the tables which are changed by messages
var cTables = []string{"Sessions", "MessageKeys", "SessionStates", "SessionKeys"}

func (m *member) fault(table, op string) {
	m.exec(fmt.Sprintf("CREATE TRIGGER verif_fault BEFORE %s ON %s BEGIN SELECT RAISE(ABORT, 'injected'); END", op, table))
}

// used counts the message keys which are gone.
func (m *member) used(sender int) int64 {
	r := m.rows("SELECT coalesce((SELECT sum(NumOfKeys) FROM Sessions), 0) - (SELECT count(*) FROM MessageKeys WHERE Direction=?)", sender)
	n, err := strconv.ParseInt(r[0], 10, 64)
	m.w.t.Must(err, "number")
	return n
}

// private counts the private session keys.
func (m *member) private() int {
	return len(m.rows("SELECT 1 FROM SessionKeys WHERE PrivKey != ''"))
}

func (m *member) repair() { m.exec("DROP TRIGGER verif_fault") }

var cFault, cVersion int

func (w *world) c01(c int) {
	t, rng := w.t, w.rng
	var users []*member
	var ps []*party
	for i := 0; i < 3; i++ {
		m := w.user(fmt.Sprintf("%c%d", 'a'+i, c))
		defer m.close()
		users = append(users, m)
		k := 1
		if i == 2 && rng.Intn(2) == 0 {
			k = 2 + rng.Intn(3)
		}
		for ; k > 0; k-- {
			dom := w.srv[rng.Intn(2)].Domain
			p := &party{member: m, id: w.name() + "@" + dom, domain: dom, sigKey: map[string]bool{},
				knows: map[*party]bool{}, addrs: map[string]bool{}, told: map[*party]map[string]bool{}}
			ps = append(ps, p)
		}
	}
	syncAll := func(m *member) {
		for _, s := range w.srv {
			m.must("hashchain sync --domain %s", s.Domain)
		}
	}
	for _, m := range users {
		syncAll(m)
		for _, s := range w.srv {
			m.must("hashchain search --id keyserver@%s", s.Domain)
		}
	}
	keyOf := func(p *party) {
		for _, j := range p.rows("SELECT UIDMessage FROM PrivateUIDs WHERE Identity=?", p.id) {
			for _, part := range strings.Split(j, `"PUBKEY":"`)[1:] {
				p.sigKey[strings.SplitN(part, `"`, 2)[0]] = true
			}
		}
	}
	for _, p := range ps {
		p.must("uid generate --id %s", p.id)
		p.must("uid register --id %s --token t", p.id)
		keyOf(p)
		syncAll(p.member)
	}
	for _, p := range ps {
		p.inits()
	}
	for _, p := range ps {
		syncAll(p.member)
		for _, q := range ps {
			if q != p {
				p.must("hashchain search --id %s", q.id)
			}
		}
	}
	fetch := func(p, q *party) {
		// the server has keys for the newest record only
		p.must("hashchain sync --domain %s", q.domain)
		p.must("hashchain search --id %s", q.id)
		p.must("keyinit fetch --id %s", q.id)
		for _, r := range ps { // keys are kept per user
			if r.member == p.member {
				r.knows[q] = true
			}
		}
	}
	var net []*transit
	steps := 30 + rng.Intn(20)
	damaged := 0
	for k := 0; k < steps && t.Violations() < 12; k++ {
		switch x := rng.Intn(20); {
		case x < 8: // send
			p := ps[rng.Intn(len(ps))]
			q := ps[rng.Intn(len(ps))]
			if p == q {
				continue
			}
			if !p.knows[q] {
				if rng.Intn(3) == 0 && len(p.rows("SELECT 1 FROM SessionStates LIMIT 1")) == 0 {
					// no key of the peer and no conversation so far
					t.Must(p.l.In([]byte("x")), "input")
					p.fails("encrypt/no-key", "encrypt --from %s --to %s --nymaddress YWJj", p.id, q.id)
					if p.l.Out() != "" {
						w.bad("encrypt/no-key-output", "output without a key for the recipient")
					}
					t.Eval(fmt.Sprint(c, k, "no-key"))
					t.Count("encrypt/no-key")
				}
				fetch(p, q)
			}
			if rng.Intn(8) == 0 {
				// too long
				t.Must(p.l.In(make([]byte, msg.MaxContentLength+1+rng.Intn(2)*rng.Intn(70000))), "input")
				r := p.do("encrypt --from %s --to %s --nymaddress YWJj", p.id, q.id)
				if r == "" || strings.Contains(r, "NYMADDRESS:") {
					w.bad("encrypt/too-long", "a message which is too long is taken: %q", r)
				}
				if out := p.l.Out(); len(out) == msg.EncodedMsgSize {
					w.bad("encrypt/too-long-output", "a message which is too long is encrypted")
				}
				t.Eval(fmt.Sprint(c, k, "too-long"))
				t.Count("encrypt/too-long")
			}
			m := &transit{from: p, to: q, text: content(rng), sign: rng.Intn(2) == 0, addr: w.addr()}
			w.encrypt(c, k, m)
			if m.data != nil {
				net = append(net, m)
			}
		case x < 16 && len(net) > 0: // deliver
			i := rng.Intn(len(net))
			if rng.Intn(2) == 0 {
				i = 0
			}
			m := net[i]
			net = append(net[:i:i], net[i+1:]...)
			switch rng.Intn(8) {
			case 0: // lost
				t.Count("lost")
				w.log("lost")
				continue
			case 1: // somebody else first
				for _, u := range users {
					if u != m.to.member && u != m.from.member {
						w.refused(c, k, u, m, m.data, "other-user")
					}
				}
			case 2:
				if m.from.member != m.to.member {
					w.refused(c, k, m.from.member, m, m.data, "sender")
				}
			case 3:
				d := append([]byte{}, m.data...)
				// not the last character, which may hold unused bits
				j := rng.Intn(len(d) - 4)
				o := d[j]
				d[j] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"[rng.Intn(64)]
				if d[j] != o {
					damaged++
					w.refused(c, k, m.to.member, m, d, "damaged")
				}
			case 4:
				w.refused(c, k, m.to.member, m, m.data[:rng.Intn(len(m.data))], "cut")
			case 6:
				d := base64Decode(m.data)
				i := bytes.Index(d, []byte(msg.DefaultCiphersuite)) - 4
				if i < 0 {
					t.Fatalf("no pre-header")
				}
				cVersion++
				v := []uint16{msg.Version + 1, msg.Version - 1, msg.Version + 2, 0xffff, 0, 0x100 | msg.Version}[cVersion%6]
				binary.BigEndian.PutUint16(d[i:], v)
				r := w.refused(c, k, m.to.member, m, []byte(base64.Encode(d)), "version")
				if v > msg.Version && strings.HasSuffix(r, msg.ErrUndecryptable.Error()) {
					w.bad("version/newer", "a message of version %d is taken for undecryptable for ever: %q", v, r)
				}
			case 5:
				// the keys are missing for a while
				if !m.read {
					u := m.to.member
					u.exec("UPDATE PrivateKeyInits SET PubKeyHash='x' || PubKeyHash")
					t.Must(u.l.In(m.data), "input")
					r, out := u.do("decrypt"), ""
					out = u.l.Out()
					u.exec("UPDATE PrivateKeyInits SET PubKeyHash=substr(PubKeyHash, 2)")
					t.Eval(fmt.Sprint(c, k, "no-keys"))
					if status(r, "SENDERIDENTITY") != "" {
						// a later message of a session
						t.Count("decrypt/no-keys-needed")
						w.checkDecrypted(c, k, m, r, out)
						continue
					}
					if r == "" || out != "" {
						w.bad("decrypt/no-keys", "%q %d bytes", r, len(out))
					}
					t.Count("decrypt/no-keys")
				}
			}
			w.decrypt(c, k, m)
			if rng.Intn(3) == 0 {
				w.refused(c, k, m.to.member, m, m.data, "again")
			} else if rng.Intn(3) == 0 {
				m.read = true
				net = append(net, &transit{from: m.from, to: m.to, data: m.data, read: true, text: m.text})
			}
		case x == 16:
			u := users[rng.Intn(3)]
			w.log("restart")
			u.restart()
			t.Count("restart")
		case x == 17: // a new signature key
			p := ps[rng.Intn(len(ps))]
			p.must("uid genupdate --id %s", p.id)
			p.must("uid update --id %s --token t", p.id)
			keyOf(p)
			p.must("hashchain sync --domain %s", p.domain)
			p.inits()
			t.Count("identity-update")
			for _, u := range users {
				if u != p.member && rng.Intn(3) > 0 {
					u.must("hashchain sync --domain %s", p.domain)
					u.must("hashchain search --id %s", p.id)
					for _, q := range ps {
						if q.member == u {
							q.knows[p] = false
						}
					}
				}
			}
		case x == 18: // new keys
			p := ps[rng.Intn(len(ps))]
			p.inits()
			for _, q := range ps {
				if q.member != p.member && rng.Intn(2) == 0 {
					fetch(q, p)
				}
			}
			t.Count("new-keys")
		case x == 19 && len(net) > 4: // everything arrives
			for _, i := range rng.Perm(len(net)) {
				w.decrypt(c, k, net[i])
			}
			net = nil
		}
	}
	for i, m := range net {
		w.decrypt(c, steps+i, m)
	}
	if c%4 > 0 {
		return
	}
	// a conversation does not heap up private keys
	p, q := ps[0], ps[1]
	for _, x := range [][2]*party{{p, q}, {q, p}} {
		if !x[0].knows[x[1]] {
			fetch(x[0], x[1])
		}
	}
	var start [2]int
	for k := 0; k < 10; k++ {
		for j, x := range [][2]*party{{p, q}, {q, p}} {
			m := &transit{from: x[0], to: x[1], text: content(rng), addr: w.addr()}
			w.encrypt(c, 1000+k, m)
			if m.data == nil {
				return
			}
			w.decrypt(c, 1000+k, m)
			if n := x[0].private(); k == 1 {
				start[j] = n
			} else if k > 1 && n > start[j]+3 {
				w.bad("keys/private", "%d private session keys are left after %d messages and answers, there were %d", n, k-1, start[j])
				return
			}
		}
	}
	t.Count("conversation")
}

// encrypt encrypts m, sometimes while the database of the sender fails.
func (w *world) encrypt(c, k int, m *transit) {
	t := w.t
	p := m.from
	flag := ""
	if m.sign {
		flag = " --sign"
	}
	cmd := fmt.Sprintf("encrypt --from %s --to %s%s --nymaddress %s", p.id, m.to.id, flag, m.addr)
	run := func() (string, string) {
		t.Must(p.l.In(m.text), "input")
		used := p.used(1)
		r := p.do("%s", cmd)
		if n := p.used(1) - used; status(r, "NYMADDRESS") != "" && n != 1 {
			w.bad("keys/sent", "%d message keys were used up by an encryption", n)
		} else if n < 0 || n > 1 {
			w.bad("keys/not-sent", "%d message keys were used up by a failed encryption", n)
		}
		return r, p.l.Out()
	}
	if w.rng.Intn(5) == 0 {
		cFault++
		tb, op := cTables[cFault%4], []string{"INSERT", "UPDATE", "DELETE"}[cFault/4%3]
		p.fault(tb, op)
		w.log("(fault %s %s)", op, tb)
		r, out := run()
		p.repair()
		t.Count("fault/encrypt")
		if status(r, "NYMADDRESS") != "" {
			// the statement was not needed
			m.data = []byte(out)
			w.checkEncrypted(c, k, m, r)
			return
		}
		if r == "" || strings.HasPrefix(r, "NYMADDRESS:") {
			w.bad("fault/encrypt-silent", "neither an error nor an address reported: %q", r)
		}
		t.Eval(fmt.Sprint(c, k, "fault-encrypt", tb, op))
		t.Count("fault/encrypt-failed")
		if out != "" {
			// a message may have left: it must be readable like any other
			t.Count("fault/encrypt-output")
		}
	}
	r, out := run()
	m.data = []byte(out)
	w.checkEncrypted(c, k, m, r)
}

func (w *world) checkEncrypted(c, k int, m *transit, r string) {
	t := w.t
	t.Eval(fmt.Sprint(c, k, "encrypt", len(m.text), m.sign))
	t.Count("encrypted")
	a := status(r, "NYMADDRESS")
	if a == "" || len(m.data) == 0 {
		w.bad("encrypt/refused", "%s", r)
		m.data = nil
		return
	}
	if !m.to.addrs[a] && !m.to.told[m.from][a] {
		w.bad("encrypt/address", "the message is to be delivered to an address its recipient never announced")
	}
	if len(m.data) != msg.EncodedMsgSize {
		w.bad("encrypt/size", "message of %d bytes", len(m.data))
	}
}

// status returns the value of a status line.
func status(r, name string) string {
	for _, l := range strings.Split(r, " | ") {
		if strings.HasPrefix(l, name+":\t") {
			return l[len(name)+2:]
		}
	}
	return ""
}

func (w *world) decrypt(c, k int, m *transit) {
	t := w.t
	u := m.to.member
	if m.read {
		w.refused(c, k, u, m, m.data, "again-later")
		return
	}
	run := func() (string, string) {
		t.Must(u.l.In(m.data), "input")
		used := u.used(0)
		r := u.do("decrypt")
		if n := u.used(0) - used; status(r, "SENDERIDENTITY") != "" && n != 1 {
			w.bad("keys/read", "%d message keys were used up by a decryption", n)
		} else if n < 0 || n > 1 {
			w.bad("keys/not-read", "%d message keys were used up by a failed decryption", n)
		}
		return r, u.l.Out()
	}
	if w.rng.Intn(5) == 0 {
		cFault++
		tb, op := cTables[cFault%4], []string{"INSERT", "UPDATE", "DELETE"}[cFault/4%3]
		u.fault(tb, op)
		w.log("(fault %s %s)", op, tb)
		r, out := run()
		u.repair()
		t.Count("fault/decrypt")
		if status(r, "SENDERIDENTITY") != "" {
			w.checkDecrypted(c, k, m, r, out)
			return
		}
		t.Eval(fmt.Sprint(c, k, "fault-decrypt", tb, op))
		t.Count("fault/decrypt-failed")
		if r == "" {
			w.bad("fault/decrypt-silent", "neither an error nor a sender reported")
		}
		if strings.HasSuffix(r, msg.ErrUndecryptable.Error()) {
			w.bad("fault/decrypt-dropped", "a message is said to be undecryptable, but it was the database which failed: %q", r)
		}
	}
	r, out := run()
	w.checkDecrypted(c, k, m, r, out)
}

func (w *world) checkDecrypted(c, k int, m *transit, r, out string) {
	t := w.t
	t.Eval(fmt.Sprint(c, k, "decrypt", len(m.text), m.sign))
	t.Count("decrypted")
	m.read = true
	s := status(r, "SENDERIDENTITY")
	if s == "" {
		w.bad("decrypt/refused", "%s", r)
		return
	}
	if s != m.from.id {
		w.bad("decrypt/sender", "sent by %s, reported sender %s", m.from.id, s)
	}
	if out != string(m.text) {
		w.bad("decrypt/content", "%d bytes instead of the %d sent", len(out), len(m.text))
	}
	sig := status(r, "SIGNATURE")
	if (sig != "") != m.sign {
		w.bad("decrypt/signature", "signed: %v, signature reported: %v", m.sign, sig != "")
	}
	if sig != "" {
		h := sha512.Sum512(m.text)
		ok := false
		for pk := range m.from.sigKey {
			if b := keyserv.Dec(pk); len(b) == 32 && ed25519.Verify(b, h[:], keyserv.Dec(sig)) {
				ok = true
			}
		}
		if !ok {
			w.bad("decrypt/signature-invalid", "the reported signature does not verify with a key of the sender")
		}
		t.Count("signatures-verified")
	}
	if m.from.told[m.to] == nil {
		m.from.told[m.to] = map[string]bool{}
	}
	m.from.told[m.to][m.addr] = true
}

// refused gives something to a user which cannot be read.
func (w *world) refused(c, k int, u *member, m *transit, data []byte, kind string) string {
	t := w.t
	t.Must(u.l.In(data), "input")
	r := u.do("decrypt")
	out := u.l.Out()
	w.log("(%s)", kind)
	t.Eval(fmt.Sprint(c, k, kind))
	t.Count("refused/" + kind)
	if status(r, "SENDERIDENTITY") != "" || status(r, "SIGNATURE") != "" || r == "" {
		w.bad("accepted/"+kind, "%s", r)
	}
	if out != "" {
		w.bad("released/"+kind, "%d bytes of output", len(out))
	}
	return r
}

func base64Decode(b []byte) []byte {
	d, err := base64.Decode(string(b))
	if err != nil {
		panic(err)
	}
	return d
}
