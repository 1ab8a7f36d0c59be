package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	mrand "math/rand"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/mon"

	"github.com/mutecomm/mute/keydb"
	"github.com/mutecomm/mute/msgdb"
)

var e07 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "users create their databases, change the passphrase and rebuild them, while servers and tools fail and the client is killed around its tools and at its writes; " +
		"one evaluation is one command after which the state of both databases was judged",
	MinEvents: 300,
	Run:       runE07,
}

// databases are the two databases of a user.
type databases struct {
	*config
	home  string
	pass  string // of both, if they were made
	key   string // the public wallet key
	marks map[string]string
}

var dbNames = []string{"msgs.db", "msgs.key", "keys.db", "keys.key"}

func (d *databases) files() (l []string) {
	for _, n := range dbNames {
		if _, err := os.Lstat(filepath.Join(d.home, n)); err == nil {
			l = append(l, n)
		}
	}
	return
}

// read gives the values which are stored in a database, or why they cannot be
// read.
func (d *databases) open(name, pass string, f func(get func(string) (string, error), add func(k, v string) error)) error {
	if name == "msgs" {
		db, err := msgdb.Open(filepath.Join(d.home, name), []byte(pass))
		if err != nil {
			return err
		}
		defer db.Close()
		f(db.GetValue, db.AddValue)
		return nil
	}
	db, err := keydb.Open(filepath.Join(d.home, name), []byte(pass))
	if err != nil {
		return err
	}
	defer db.Close()
	f(db.GetValue, db.AddValue)
	return nil
}

// mark writes something into both databases.
func (d *databases) mark() {
	for _, n := range []string{"msgs", "keys"} {
		err := d.open(n, d.pass, func(_ func(string) (string, error), add func(k, v string) error) {
			for i := 0; i < 3; i++ {
				k, v := fmt.Sprintf("mark%d", d.rng.Intn(9)), fmt.Sprintf("%x", d.rng.Int63())
				if d.rng.Intn(4) == 0 {
					v = strings.Repeat(v, 2000)
				}
				d.t.Must(add(k, v), "mark")
				d.marks[n+k] = v
			}
		})
		d.t.Must(err, "open "+n)
	}
}

// passOf is which of the passphrases opens a database, which has to have its
// content.
func (d *databases) passOf(key, name string, cand ...string) (found string, ok bool) {
	for _, p := range cand {
		err := d.open(name, p, func(get func(string) (string, error), _ func(k, v string) error) {
			for k, v := range d.marks {
				if !strings.HasPrefix(k, name) {
					continue
				}
				if w, err := get(k[len(name):]); err != nil || w != v {
					d.violation("content/"+key, "%s has lost %s: %v %.20q instead of %.20q", name, k, err, w, v)
				}
			}
			if name == "msgs" && d.key != "" {
				w, err := get(msgdb.WalletKey)
				b, _ := base64.StdEncoding.DecodeString(w)
				if err != nil || len(b) != 64 || base64.StdEncoding.EncodeToString(b[32:]) != d.key {
					d.violation("content/wallet/"+key, "the wallet key is lost: %v %q", err, w)
				}
			}
		})
		if err == nil {
			return p, true
		}
	}
	return "", false
}

// is checks that both databases have the passphrase and no other.
func (d *databases) is(key string, others ...string) {
	for _, n := range []string{"msgs", "keys"} {
		if _, ok := d.passOf(key, n, d.pass); !ok {
			d.violation("pass/"+key, "%s.db does not open with its passphrase %q", n, d.pass)
		}
		for _, o := range others {
			if strings.TrimRight(o, "\x00") != strings.TrimRight(d.pass, "\x00") {
				if _, ok := d.passOf(key, n, o); ok {
					d.violation("pass/other/"+key, "%s.db opens with %q, its passphrase is %q", n, o, d.pass)
				}
			}
		}
	}
}

// iterations checks the number of iterations of both key files.
func (d *databases) iterations(key string, args []string) {
	for _, n := range []string{"msgs.key", "keys.key"} {
		b, err := os.ReadFile(filepath.Join(d.home, n))
		if err != nil || len(b) < 8 || fmt.Sprint(binary.LittleEndian.Uint64(b)) != args[3] {
			d.violation("iterations/"+key, "%q: %s starts with %.8x", args, n, b)
		}
	}
}

// run runs a command with the lines of a passphrase.
func (d *databases) run(lines string, args ...string) result {
	d.m.pass = lines
	return d.m.ctl("", args...)
}

func (d *databases) passphrase() string {
	r := d.rng
	switch r.Intn(9) {
	case 0:
		return strings.Repeat("long ", 20+r.Intn(200))
	case 1:
		return fmt.Sprintf(" %d ", r.Int())
	case 2:
		return fmt.Sprintf("p\u00e4ss\u2028%d", r.Int())
	case 3:
		return fmt.Sprintf("%%s%%d\\n%d'\"", r.Intn(100))
	case 4:
		return fmt.Sprintf("tab\t%d\xff\xfe", r.Intn(100))
	}
	return fmt.Sprintf("pass %x", r.Int63())
}

// dbDist are the things which go wrong with a database command.
var dbDist = []string{"", "mismatch", "fail/before", "fail/after", "kill/before", "kill/after", "conf/drop", "conf/status", "write", "conf/forged", "wallet/short", "wallet/odd", "write", "wallet/junk", "exists", "write", "twice"}

func (d *databases) disturb(kind, cmd string, nth int) {
	d.m.env.Fail, d.m.env.Kill, d.m.env.Nth, d.m.wrap = "", "", 1, nil
	switch kind {
	case "fail/before", "fail/after":
		d.m.env.Fail = "mutecrypt " + cmd + kind[4:]
	case "kill/before", "kill/after":
		d.m.env.Kill = "mutecrypt " + cmd + kind[4:]
	case "write":
		calls := "fsync,fdatasync,unlinkat,unlink,renameat,rename,pwrite64,write,openat"
		d.m.wrap = []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-P", d.home + "/msgs.db", "-P", d.home + "/msgs.key", "-P", d.home + "/keys.db", "-P", d.home + "/keys.key", "-P", d.home + "/msgs.key.tmp", "-e", "trace=" + calls, "-e", fmt.Sprintf("inject=%s:signal=KILL:when=%d", calls, nth)}
	}
}

// create makes the databases, at last.
func (d *databases) create(i int) {
	for k := 0; ; k++ {
		kind := dbDist[(i*3+k)%len(dbDist)]
		if k > 5 {
			kind = ""
		}
		switch kind {
		case "conf/drop", "conf/status", "conf/forged":
			d.publish(kind[5:], "same")
		default:
			d.publish("good", "same")
		}
		p, again := d.passphrase(), ""
		again = p
		args := []string{"db", "create", "--iterations", fmt.Sprint(d.rng.Intn(100) + 1)}
		_, priv, _ := ed25519.GenerateKey(rand.Reader)
		wallet := ""
		fails := false
		switch kind {
		case "mismatch":
			again = []string{p + " ", "", strings.ToUpper(p) + "x", p[:len(p)-1]}[d.rng.Intn(4)]
			fails = true
		case "wallet/short":
			args = append(args, "--walletkey", base64.StdEncoding.EncodeToString(priv[:[]int{1, 31, 32, 33, 63}[d.rng.Intn(5)]]))
			fails = true
		case "wallet/odd":
			args = append(args, "--walletkey", base64.StdEncoding.EncodeToString(append(priv, 1)))
			fails = true
		case "wallet/junk":
			args = append(args, "--walletkey", "!"+base64.StdEncoding.EncodeToString(priv)[1:])
			fails = true
		case "conf/drop", "conf/status", "conf/forged", "fail/before", "fail/after", "kill/before", "kill/after":
			fails = true
		case "exists":
			n := dbNames[d.rng.Intn(4)]
			d.t.Must(os.WriteFile(filepath.Join(d.home, n), []byte("mine"), 0600), "file")
			fails = true
		default:
			if d.rng.Intn(2) == 0 {
				wallet = base64.StdEncoding.EncodeToString(priv[32:])
				args = append(args, "--walletkey", base64.StdEncoding.EncodeToString(priv))
			}
		}
		d.disturb(kind, "db create", 1+d.rng.Intn(60))
		had := d.files()
		r := d.run(p+"\n"+again, args...)
		d.disturb("", "", 0)
		d.note("%q (%s, %q) -> %v", args, kind, p, r)
		d.t.Eval(fmt.Sprint("create", i, k))
		d.t.Count("create/" + kind)
		if fails && r.err == nil {
			d.violation("create/accepted/"+kind, "%q succeeds (%s)", args, kind)
		}
		if kind == "" && r.err != nil {
			d.violation("create/fails", "%v", r)
			panic(mon.Failed{})
		}
		if r.err == nil {
			key := ""
			for _, l := range strings.Split(r.out, "\n") {
				if strings.HasPrefix(l, "WALLETPUBKEY:\t") {
					key = l[14:]
				}
			}
			if b, err := base64.StdEncoding.DecodeString(key); err != nil || len(b) != 32 || wallet != "" && key != wallet {
				d.violation("create/wallet", "%q says %q, the key is %q", args, r.out, wallet)
			}
			d.pass, d.key = p, key
			d.iterations("create", args)
			d.current, d.last = d.served, d.served.date
			break
		}
		if !r.killed && !strings.HasPrefix(kind, "kill") && kind != "write" {
			// nothing remains
			if now := d.files(); strings.Join(now, " ") != strings.Join(had, " ") {
				d.violation("create/remains/"+kind, "%q failed (%s) and leaves %v, there was %v", args, kind, now, had)
				panic(mon.Failed{})
			}
			if kind == "exists" {
				if b, err := os.ReadFile(filepath.Join(d.home, had[0])); err != nil || string(b) != "mine" {
					d.violation("create/destroyed", "%s was changed: %v %.30q", had[0], err, b)
				}
			}
		} else {
			// what there is can be used completely or not at all
			d.t.Count(fmt.Sprintf("create/killed/%d files", len(d.files())))
			r := d.run(p, "wallet", "pubkey")
			d.note("wallet pubkey -> %v", r)
			if r.err == nil {
				f := strings.Fields(r.out)
				b, _ := base64.StdEncoding.DecodeString(f[len(f)-1])
				if len(b) != 32 || bytes.Equal(b, make([]byte, 32)) {
					d.violation("create/halfway", "a client which died in %q goes on with the wallet key %q", args, r.out)
				}
				d.t.Count("create/killed/used")
			}
		}
		for _, n := range dbNames {
			os.Remove(filepath.Join(d.home, n))
		}
	}
	var w [32]byte
	b, _ := base64.StdEncoding.DecodeString(d.key)
	copy(w[:], b)
	d.m.wallet = w
	d.w.g.mu.Lock()
	d.w.g.wallets[w] = &walletAcc{replies: make(map[string]map[string]interface{})}
	d.w.g.mu.Unlock()
	d.is("create", "", d.pass+"x")
}

// usable checks that all tools can use the databases.
func (d *databases) usable(key string) {
	r := d.run(d.pass, "wallet", "pubkey")
	if r.err != nil || !strings.Contains(r.out, d.key) {
		d.violation("usable/"+key, "wallet pubkey: %v %q", r, r.out)
	}
	r = d.run(d.pass, "db", "version")
	if r.err != nil || strings.Count(r.out, "version=") != 2 || !strings.Contains(r.out, "msgdb:\nversion="+msgdb.Version+"\n") || !strings.Contains(r.out, "keydb:\nversion="+keydb.Version+"\n") {
		d.violation("usable/"+key, "db version: %v %q", r, r.out)
	}
}

func runE07(t *mon.T) {
	parallel(t, t.N(24, 170), func(i int) {
		rng := t.Rand("db", i)
		d := newDatabases(t, rng)
		defer d.close()
		d.create(i)
		d.mark()
		d.usable("create")
		for step := 0; step < 12; step++ {
			d.step(i*5+step, step)
		}
	})
}

func newDatabases(t *mon.T, rng *mrand.Rand) *databases {
	d := &databases{config: newConfig(t, rng), marks: map[string]string{}}
	d.home = d.m.home
	t.Must(os.RemoveAll(d.home), "home")
	t.Must(os.MkdirAll(d.home, 0700), "home")
	d.m.log = filepath.Join(d.w.dir, "tools.log")
	d.m.env.Log = d.m.log
	return d
}

var rekeyDist = []string{"", "fail/before", "mismatch", "write", "fail/after", "wrong", "kill/before", "write", "kill/after", "truncated", "write", "same"}

func (d *databases) step(k, step int) {
	if d.rng.Intn(4) == 0 {
		d.vacuum()
		return
	}
	kind := rekeyDist[k%len(rekeyDist)]
	old, next := d.pass, d.passphrase()
	again := next
	given := old
	fails := false
	switch kind {
	case "mismatch":
		again = []string{next + "x", "", old}[d.rng.Intn(3)]
		fails = true
	case "truncated":
		again = ""
		fails = true
	case "wrong":
		given = []string{"", old + "x", old[:len(old)-1], next + "y"}[d.rng.Intn(4)]
		fails = true
	case "same":
		next, again = old, old
	case "fail/before", "fail/after", "kill/before", "kill/after":
		fails = true
	}
	args := []string{"db", "rekey", "--iterations", fmt.Sprint(d.rng.Intn(100) + 1)}
	d.disturb(kind, "db rekey", 1+d.rng.Intn(16))
	lines := given + "\n" + next + "\n" + again
	if kind == "truncated" {
		lines = given + "\n" + next
	}
	r := d.run(lines, args...)
	d.disturb("", "", 0)
	d.note("%q (%s) from %q to %q -> %v", args, kind, given, next, r)
	d.t.Eval(fmt.Sprint("rekey", k, step, d.rng.Int()))
	d.t.Count("rekey/" + kind)
	switch {
	case r.err == nil && fails:
		d.violation("rekey/accepted/"+kind, "%q succeeds (%s)", args, kind)
	case r.err != nil && (kind == "" || kind == "same"):
		d.violation("rekey/fails", "%v", r)
	}
	if r.err == nil {
		d.pass = next
		d.is("rekey", old)
		d.iterations("rekey", args)
	} else if kind == "mismatch" || kind == "wrong" || kind == "truncated" {
		d.is("rekey/"+kind, next, given+"\x01")
	} else {
		// it can be repeated
		a, ok1 := d.passOf("rekey/"+kind, "msgs", old, next)
		b, ok2 := d.passOf("rekey/"+kind, "keys", old, next)
		if !ok1 || !ok2 {
			d.violation("rekey/lost/"+kind, "neither passphrase opens the databases: %v %v", ok1, ok2)
			panic(mon.Failed{})
		}
		if a != b {
			d.t.Count("rekey/split")
		}
		if a == b && d.rng.Intn(2) == 0 {
			d.pass = a
		} else {
			r := d.run(old+"\n"+next+"\n"+next, "db", "rekey", "--iterations", "64")
			d.note("again -> %v", r)
			if r.err != nil && a != next {
				d.violation("rekey/again/"+kind, "it cannot be repeated: %v", r)
				panic(mon.Failed{})
			}
			if r.err != nil && a == next {
				d.violation("rekey/again/"+kind, "it cannot be completed: %v (msgs has the new passphrase: %v, keys %v)", r, a == next, b == next)
				panic(mon.Failed{})
			}
			d.pass = next
		}
		d.is("rekey/"+kind, map[bool]string{true: next, false: old}[d.pass == old])
	}
	if d.rng.Intn(2) == 0 {
		r := d.run(map[bool]string{true: old + "z", false: old}[old == d.pass], "wallet", "pubkey")
		if r.err == nil && old+"z" != d.pass {
			d.violation("open/wrong", "the client runs with the passphrase %q", old)
		}
	}
	if d.rng.Intn(2) == 0 {
		d.usable("rekey")
	}
	d.mark()
}

// vacuum rebuilds the databases.
func (d *databases) vacuum() {
	kind := []string{"", "fail/before", "", "kill/before", "write", "kill/after", "fail/after", "write"}[d.rng.Intn(8)]
	d.disturb(kind, "db vacuum", 1+d.rng.Intn(200))
	r := d.run(d.pass, "db", "vacuum")
	d.disturb("", "", 0)
	d.note("db vacuum (%s) -> %v", kind, r)
	d.t.Eval(fmt.Sprint("vacuum", d.rng.Int()))
	d.t.Count("vacuum/" + kind)
	if kind == "" && r.err != nil {
		d.violation("vacuum/fails", "%v", r)
	} else if (strings.HasPrefix(kind, "fail") || strings.HasPrefix(kind, "kill")) && r.err == nil {
		d.violation("vacuum/accepted/"+kind, "db vacuum succeeds (%s)", kind)
	}
	d.is("vacuum/" + kind)
	if r := d.run(d.pass, "db", "vacuum"); r.err != nil {
		d.violation("vacuum/again/"+kind, "%v", r)
	}
	d.is("vacuum/" + kind)
	d.mark()
}
