package main

import (
	"database/sql"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/uid"
	"verif/harness/engkit"
	"verif/harness/keyserv"
	"verif/harness/mon"
)

// world is a number of key servers and the users who know them.
type world struct {
	t    *mon.T
	rng  *rand.Rand
	srv  []*keyserv.Server
	conf map[string]string
	hist []string
}

func newWorld(t *mon.T, rng *rand.Rand, domains ...string) *world {
	w := &world{t: t, rng: rng, conf: map[string]string{}}
	for _, d := range domains {
		s, err := keyserv.New(d, rng)
		if err != nil {
			t.Fatalf("key server: %s", err)
		}
		w.srv = append(w.srv, s)
		w.conf["keyserver."+d] = s.URL
	}
	return w
}

func (w *world) close() {
	for _, s := range w.srv {
		s.Close()
	}
}

func (w *world) log(format string, a ...interface{}) {
	w.hist = append(w.hist, fmt.Sprintf(format, a...))
	w.t.Case(map[string]interface{}{"history": strings.Join(w.hist, "; ")})
}

func (w *world) bad(key string, format string, a ...interface{}) {
	w.t.Violation(key, map[string]interface{}{"what": fmt.Sprintf(format, a...), "history": tail(w.hist)})
}

func tail(h []string) string {
	s := strings.Join(h, "; ")
	if len(s) > 1800 {
		s = "... " + s[len(s)-1800:]
	}
	return s
}

// member is a user with a running engine and a second view of the database.
type member struct {
	*engkit.User
	w *world
	l *engkit.Loop
	q *sql.DB
}

func (w *world) user(name string) *member {
	u := &engkit.User{Home: w.t.TempDir(name), Pass: "secret-" + name}
	w.t.Must(engkit.WriteConfig(u.Home, engkit.Config(w.conf)), "config")
	w.t.Must(u.Create(), "create key database")
	m := &member{User: u, w: w}
	m.start()
	return m
}

func (m *member) start() {
	var err error
	m.l, err = m.Loop()
	m.w.t.Must(err, "open")
	if m.q == nil {
		m.q, err = encdb.Open(filepath.Join(m.Home, "keys"), []byte(m.Pass))
		m.w.t.Must(err, "open database")
		m.q.SetMaxOpenConns(1)
	}
}

func (m *member) close() {
	m.w.t.Must(m.l.Quit(), "quit")
	m.q.Close()
}

// restart ends the engine and starts a new one, with nothing cached.
func (m *member) restart() {
	m.w.t.Must(m.l.Quit(), "quit")
	m.start()
}

// do runs a command and returns its error text.
func (m *member) do(format string, a ...interface{}) string {
	cmd := fmt.Sprintf(format, a...)
	lines, err := m.l.Do(cmd)
	if err != nil {
		m.w.bad("engine-ended", "%s: %s", cmd, err)
		panic(mon.Failed{})
	}
	r := strings.Join(lines, " | ")
	if r != "" {
		m.w.log("%s: %s -> %s", filepath.Base(m.Home), abbrev(cmd), abbrev(r))
	} else {
		m.w.log("%s: %s", filepath.Base(m.Home), abbrev(cmd))
	}
	m.w.t.Count("command/" + strings.Join((strings.Fields(cmd+" -"))[:2], " "))
	return r
}

// abbrev shortens the long words of a line.
func abbrev(s string) string {
	f := strings.Fields(s)
	for i := range f {
		if len(f[i]) > 80 {
			f[i] = f[i][:16] + "..."
		}
	}
	return strings.Join(f, " ")
}

// must runs a command which has to succeed.
func (m *member) must(format string, a ...interface{}) {
	if r := m.do(format, a...); r != "" {
		m.w.bad("honest/"+strings.Join((strings.Fields(fmt.Sprintf(format, a...) + " -"))[:2], "-"), "%s", r)
		panic(mon.Failed{})
	}
}

// fails runs a command which must not succeed.
func (m *member) fails(key string, format string, a ...interface{}) {
	if r := m.do(format, a...); r == "" {
		m.w.bad(key, "accepted")
	}
}

func (m *member) exec(q string, a ...interface{}) {
	if _, err := m.q.Exec(q, a...); err != nil {
		m.w.t.Fatalf("%s: %s", q, err)
	}
}

// rows returns the result of a query, columns joined by |.
func (m *member) rows(q string, a ...interface{}) (out []string) {
	rows, err := m.q.Query(q, a...)
	if err != nil {
		m.w.t.Fatalf("%s: %s", q, err)
	}
	defer rows.Close()
	cols, _ := rows.Columns()
	for rows.Next() {
		v := make([]sql.NullString, len(cols))
		p := make([]interface{}, len(cols))
		for i := range v {
			p[i] = &v[i]
		}
		if err := rows.Scan(p...); err != nil {
			m.w.t.Fatalf("%s: %s", q, err)
		}
		var s []string
		for _, x := range v {
			s = append(s, x.String)
		}
		out = append(out, strings.Join(s, "|"))
	}
	if err := rows.Err(); err != nil {
		m.w.t.Fatalf("%s: %s", q, err)
	}
	return
}

// chain returns the local copy of a hash chain as (position, entry) rows.
func (m *member) chain(domain string) []string {
	return m.rows("SELECT Position, Entry FROM Hashchains WHERE Domain=? ORDER BY Position, ID", domain)
}

func numbered(chain []string) (out []string) {
	for i, e := range chain {
		out = append(out, fmt.Sprintf("%d|%s", i, e))
	}
	return
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func clone(a []string) []string { return append([]string{}, a...) }

const idAlpha = "abcdefghiklmnopqrstuvwxyz23456789"

func (w *world) name() string {
	b := make([]byte, 4+w.rng.Intn(6))
	for i := range b {
		b[i] = idAlpha[w.rng.Intn(len(idAlpha))]
	}
	return string(b)
}

func (w *world) create(id, last string) *uid.Message {
	m, err := uid.Create(id, false, "", "", uid.Strict, last, cipher.RandReader)
	w.t.Must(err, "create UID message")
	return m
}

func key(m *uid.Message) *cipher.Ed25519Key {
	k := new(cipher.Ed25519Key)
	k.SetPrivateKey(m.PrivateSigKey64()[:])
	return k
}
