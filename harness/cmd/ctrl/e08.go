package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	mrand "math/rand"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"verif/harness/mon"

	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/msgdb"
)

var e08 = &mon.Prop{
	Level: "exploration",
	Rule: "people register, meet, write, send, fetch, read, renew, rekey and delete with the real client at its most talkative log level, while strace records every byte which it and its tools write and every command line; " +
		"one evaluation is one command after which all of that was searched for all passphrases, private keys, texts and names which exist",
	MinEvents: 300,
	Run:       runE08,
}

// form is one way to write a secret.
type form struct {
	b    []byte
	kind string // passphrase, key, text, name
	what string
}

// watch searches for secrets.
type watch struct {
	mu    sync.Mutex
	known map[string]bool
	index map[string][]form // by the first 8 bytes
	n     map[string]int
}

const prefixLen = 8

func newWatch() *watch {
	return &watch{known: map[string]bool{}, index: map[string][]form{}, n: map[string]int{}}
}

func (w *watch) add(kind, what string, secret []byte) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(secret) < 12 || w.known[string(secret)] {
		return
	}
	w.known[string(secret)] = true
	w.n[kind]++
	forms := [][]byte{secret, []byte(hex.EncodeToString(secret)), []byte(strings.ToUpper(hex.EncodeToString(secret)))}
	for skip := 0; skip < 3; skip++ {
		s := secret[skip:]
		s = s[:len(s)/3*3]
		e := base64.StdEncoding.EncodeToString(s)
		forms = append(forms, []byte(e), []byte(base64.URLEncoding.EncodeToString(s)))
	}
	if kind == "name" {
		// whoever knows a name knows its other forms
		forms = forms[:1]
		forms = append(forms, []byte(strings.ToUpper(string(secret))), []byte(url.QueryEscape(string(secret))))
	}
	for _, f := range forms {
		p := string(f[:prefixLen])
		w.index[p] = append(w.index[p], form{f, kind, what})
	}
}

// find tells the secrets which are in b.
func (w *watch) find(b []byte, allowed func(form) bool) (l []form) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i := 0; i+prefixLen <= len(b); i++ {
		fs, ok := w.index[string(b[i:i+prefixLen])]
		if !ok {
			continue
		}
		for _, f := range fs {
			if bytes.HasPrefix(b[i:], f.b) && (allowed == nil || !allowed(f)) {
				l = append(l, f)
			}
		}
	}
	return l
}

var b64re = regexp.MustCompile(`[A-Za-z0-9+/]{40,}={0,2}`)

// secrets are the private keys which are in the databases of a member.
func (l *life) secrets(w *watch, p *person) {
	key := func(what, s string) {
		for _, x := range b64re.FindAllString(s, -1) {
			if b, err := base64.StdEncoding.DecodeString(x); err == nil {
				w.add("key", what, b)
				if len(b) == 64 {
					w.add("key", what, b[:32])
				}
			}
		}
	}
	pass := []byte(p.m.pass)
	w.add("passphrase", p.id, pass)
	for _, n := range []string{"msgs", "keys"} {
		k, err := encdb.ReadKeyfile(filepath.Join(p.m.home, n+encdb.KeySuffix), pass)
		l.t.Must(err, "key file")
		w.add("key", "database "+n, k)
	}
	p.m.db(func(db *msgdb.MsgDB) {
		v, err := db.GetValue(msgdb.WalletKey)
		l.t.Must(err, "wallet key")
		key("wallet", v)
		ids, err := db.GetNyms(true)
		l.t.Must(err, "nyms")
		for _, id := range ids {
			contacts, err := db.GetAccounts(id)
			l.t.Must(err, "accounts")
			for _, c := range contacts {
				priv, _, secret, _, _, _, err := db.GetAccount(id, c)
				l.t.Must(err, "account")
				w.add("key", "account", priv[:32])
				w.add("key", "nym address", secret[:])
			}
		}
	})
	db, err := encdb.Open(filepath.Join(p.m.home, "keys"), pass)
	l.t.Must(err, "key database")
	defer db.Close()
	for _, q := range []string{"SELECT SIGPRIVKEY FROM PrivateUIDs", "SELECT ENCPRIVKEY FROM PrivateUIDs", "SELECT PRIVKEY FROM PrivateKeyInits", "SELECT ChainKey FROM Sessions", "SELECT Key FROM MessageKeys", "SELECT PrivKey FROM SessionKeys"} {
		rows, err := db.Query(q)
		l.t.Must(err, q)
		for rows.Next() {
			var s *string
			l.t.Must(rows.Scan(&s), q)
			if s != nil {
				key(q[7:], *s)
			}
		}
		rows.Close()
	}
}

var (
	callRE = regexp.MustCompile(`^(write|pwrite64|writev|pwritev2?|sendto|sendmsg|sendmmsg)\((\d+)<(.*?)>, `)
	strRE  = regexp.MustCompile(`"((?:\\x[0-9a-f]{2})*)"`)
)

func unhex(b []byte) []byte {
	out := make([]byte, len(b)/4)
	for i := range out {
		hex.Decode(out[i:i+1], b[i*4+2:i*4+4])
	}
	return out
}

// trial is a life which is watched.
type trial struct {
	*life
	w     *watch
	dir   string
	names map[string]string // port of each server
	told  [][]byte          // requests to the account server
	mails int               // which were searched
}

// command runs a command under observation.
func (l *trial) command(p *person, pass, in string, reads bool, args ...string) result {
	old := p.m.pass
	l.secrets(l.w, p)
	os.RemoveAll(l.dir)
	l.t.Must(os.MkdirAll(l.dir, 0700), "directory")
	p.m.wrap = []string{"/usr/bin/strace", "-ff", "-v", "-yy", "-xx", "-s", "1000000", "-o", filepath.Join(l.dir, "t"), "-e", "trace=execve,write,pwrite64,writev,pwritev,pwritev2,sendto,sendmsg,sendmmsg"}
	p.m.level = "trace"
	if pass != "" {
		p.m.pass = pass
	}
	r := p.m.ctl(in, args...)
	p.m.pass, p.m.wrap, p.m.level = old, nil, ""
	l.note("%s: %q -> %v", p.id, args, r)
	if args[1] == "rekey" && r.err == nil {
		p.m.pass = strings.Split(pass, "\n")[1]
	}
	l.secrets(l.w, p)
	l.t.Eval(fmt.Sprint(args, len(l.life.trace)))
	name := strings.Join(args[:2], " ")
	bad := func(where string, f form, b []byte) {
		l.violation("leak/"+f.kind+"/"+where, "%q: %s (%s) as %.40q is written to %s", args, f.kind, f.what, f.b, where)
	}
	for what, b := range map[string]string{"stdout": r.out, "stderr": r.status} {
		for _, f := range l.w.find([]byte(b), func(f form) bool {
			return f.kind == "name" || what == "stdout" && reads && (f.kind == "text" || f.kind == "subject")
		}) {
			bad(what, f, []byte(b))
		}
	}
	files, _ := filepath.Glob(filepath.Join(l.dir, "t.*"))
	var total, tools int
	for _, fn := range files {
		fp, err := os.Open(fn)
		l.t.Must(err, "trace")
		rd := bufio.NewReaderSize(fp, 1<<20)
		for {
			line, err := rd.ReadBytes('\n')
			if err != nil {
				break
			}
			if bytes.HasPrefix(line, []byte("execve(")) {
				tools++
				for _, s := range strRE.FindAllSubmatch(line, -1) {
					b := unhex(s[1])
					for _, f := range l.w.find(b, func(f form) bool { return f.kind == "name" }) {
						bad("a command line", f, b)
					}
				}
				continue
			}
			m := callRE.FindSubmatchIndex(line)
			if m == nil {
				continue
			}
			to := string(line[m[6]:m[7]])
			var data []byte
			for _, s := range strRE.FindAllSubmatch(line[m[1]-2:], -1) {
				data = append(data, unhex(s[1])...)
			}
			// the name of the file may hold bytes in hexadecimal form
			if strings.Contains(to, `\x`) {
				to = string(unhex([]byte(to)))
			}
			total += len(data)
			kind := "file"
			switch {
			case strings.HasPrefix(to, "pipe:"), strings.HasPrefix(to, "anon_inode:"), strings.HasPrefix(to, "/dev/null"):
				continue
			case strings.HasPrefix(to, "TCP"), strings.HasPrefix(to, "UDP"), strings.HasPrefix(to, "UNIX"), strings.HasPrefix(to, "socket"):
				kind = "socket"
				if i := strings.LastIndex(to, ":"); i > 0 {
					to = l.names[strings.TrimRight(to[i+1:], "]")]
				}
			case strings.Contains(to, "/log/"):
				kind = "log"
			}
			l.t.CountN("bytes/"+kind, int64(len(data)))
			for _, f := range l.w.find(data, func(f form) bool {
				if f.kind != "name" {
					return false
				}
				// the own name is registered, and nothing else
				return kind == "log" || kind == "socket" && f.what == p.id && name == "uid new"
			}) {
				where := kind
				if kind == "socket" {
					where = "the " + to
				}
				bad(where, f, data)
			}
		}
		fp.Close()
	}
	if total == 0 || tools == 0 {
		l.t.Fatalf("nothing was recorded for %q: %v", args, r)
	}
	l.t.CountN("tools", int64(tools))
	// what a server was told through a protected connection
	l.life.w.d.mu.Lock()
	raw := l.told
	l.told = nil
	l.life.w.d.mu.Unlock()
	l.t.CountN("account requests", int64(len(raw)))
	for _, b := range raw {
		for _, f := range l.w.find(b, nil) {
			bad("the account server", f, b)
		}
	}
	acc, _, _ := l.life.w.s.result()
	for _, a := range acc[l.mails:] {
		for _, f := range l.w.find(append([]byte(a.from+"\n"+a.to+"\n"), a.data...), nil) {
			bad("the mail server", f, a.data)
		}
		l.t.Count("mails")
	}
	l.mails = len(acc)
	return r
}

func letters(rng *mrand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefghkmnpqrstuvwxyz"[rng.Intn(22)]
	}
	return string(b)
}

func port(t *mon.T, u string) string {
	if i := strings.Index(u, "://"); i >= 0 {
		u = strings.TrimRight(u[i+3:], "/")
	}
	_, p, err := net.SplitHostPort(u)
	t.Must(err, "port of "+u)
	return p
}

func newTrial(t *mon.T, rng *mrand.Rand) *trial {
	l := &trial{life: newLife(t, rng, 3), w: newWatch()}
	w := l.life.w
	l.dir = filepath.Join(w.dir, "trace")
	for _, p := range l.people {
		p.id = letters(rng, 12) + "." + letters(rng, 6) + "@mute.one"
		l.w.add("name", p.id, []byte(p.id[:19]))
	}
	l.names = map[string]string{port(t, w.ks.URL): "key server", port(t, w.g.l.Addr().String()): "token server", w.d.port: "account server", fmt.Sprint(w.s.port): "mail server"}
	w.d.raw = func(b []byte) { l.told = append(l.told, append([]byte{}, b...)) }
	return l
}

func runE08(t *mon.T) {
	parallel(t, t.N(8, 60), func(i int) {
		rng := t.Rand("watch", i)
		l := newTrial(t, rng)
		defer l.life.w.close()
		good := func(r result) {
			if r.err != nil {
				l.violation("fails", "%v", r)
				panic(mon.Failed{})
			}
		}
		for _, p := range l.people {
			good(l.command(p, "", "", false, "uid", "new", "--id", p.id, "--full-name", letters(rng, 5)))
		}
		a, b, c := l.people[0], l.people[1], l.people[2]
		pairs := [][2]*person{{a, b}, {b, a}, {c, a}, {a, c}}
		for _, x := range pairs {
			good(l.command(x[0], "", "", false, "contact", "add", "--id", x[0].id, "--contact", x[1].id))
		}
		for round := 0; round < 2; round++ {
			for _, x := range pairs {
				if rng.Intn(3) == 0 {
					continue
				}
				sub, text := "s"+letters(rng, 30), letters(rng, 40)
				l.w.add("subject", sub, []byte(sub))
				l.w.add("text", text, []byte(text))
				args := []string{"msg", "add", "--from", x[0].id, "--to", x[1].id}
				good(l.command(x[0], "", sub+"\n"+text+"\n", false, args...))
			}
			for _, p := range l.people {
				switch rng.Intn(4) {
				case 0: // some things fail
					l.smtp(l.smtpFault("rcpt", "retry"))
				case 1:
					l.disturb(p, []string{"fail/mutecrypt encrypt/after/1", "fail/muteproto create/after/1", "fail/muteproto deliver/before/1", "keys/500/1"}[rng.Intn(4)])
				}
				l.command(p, "", "", false, "msg", "send", "--id", p.id)
				l.clear()
				good(l.command(p, "", "", false, "msg", "send", "--id", p.id))
			}
			l.mix(true)
			for _, p := range l.people {
				if rng.Intn(3) == 0 {
					l.disturb(p, []string{"fail/mutecrypt decrypt/before/1", "account/FetchMessage/error/1", "keys/500/1"}[rng.Intn(3)])
					l.command(p, "", "", false, "msg", "fetch", "--id", p.id)
					l.clear()
				}
				good(l.command(p, "", "", false, "msg", "fetch", "--id", p.id))
				r := l.command(p, "", "", true, "msg", "list", "--id", p.id)
				good(r)
				for _, ln := range strings.Split(r.out, "\n") {
					if f := strings.Split(ln, "\t"); len(f) > 2 && len(f[0]) > 3 {
						g := l.command(p, "", "", true, "msg", "read", "--id", p.id, "--msgnum", f[0][3:])
						if g.err == nil && len(l.w.find([]byte(g.out), func(f form) bool { return f.kind != "text" })) > 0 {
							t.Count("texts read")
						}
					}
				}
			}
			next := "pass " + letters(rng, 20)
			p := l.people[round]
			l.w.add("passphrase", p.id, []byte(next))
			good(l.command(p, p.m.pass+"\n"+next+"\n"+next, "", false, "db", "rekey", "--iterations", "64"))
			l.command(p, "wrong "+next, "", false, "wallet", "pubkey")
		}
		good(l.command(a, "", "", false, "contact", "block", "--id", a.id, "--contact", b.id))
		good(l.command(a, "", "", false, "contact", "unblock", "--id", a.id, "--contact", b.id))
		good(l.command(b, "", "", false, "upkeep", "all", "--id", b.id, "--period", "0s"))
		good(l.command(b, "", "", false, "db", "vacuum"))
		good(l.command(c, "", "", false, "uid", "delete", "--id", c.id, "--force"))
		l.disk()
		for k, n := range l.w.n {
			t.CountN("secrets/"+k, int64(n))
		}
	})
}

// disk searches all files.
func (l *trial) disk() {
	for _, p := range l.people {
		filepath.Walk(p.m.home, func(path string, fi os.FileInfo, err error) error {
			if err != nil || !fi.Mode().IsRegular() || path == p.m.log {
				return nil
			}
			b, err := os.ReadFile(path)
			l.t.Must(err, "file")
			log := strings.Contains(path, "/log/")
			l.t.Count("files")
			for _, f := range l.w.find(b, func(f form) bool { return log && f.kind == "name" }) {
				l.violation("disk/"+f.kind, "%s (%s) as %.40q is in %s", f.kind, f.what, f.b, path)
			}
			return nil
		})
	}
}
