package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/pbkdf2"
	"crypto/sha256"
	"database/sql"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/mutecomm/mute/encdb"
	"verif/harness/engkit"
	"verif/harness/mon"
)

var s06 = &mon.Prop{
	Level: "exploration",
	Rule: "databases created with random names, passphrases, iterations and contents, opened with right and slightly wrong passphrases, with damaged, truncated, missing and swapped files, and created over existing files; all files are searched for contents and keys and tested for randomness; the key file is decoded independently; " +
		"one evaluation is one opening, creation or file inspection which was judged",
	MinEvents: 1000,
	Run:       runS06,
}

var createT = []string{"CREATE TABLE T (ID INTEGER PRIMARY KEY, V TEXT NOT NULL);"}

func passphrase(rng *rand.Rand) []byte {
	n := 1 + rng.Intn(40)
	switch rng.Intn(6) {
	case 0:
		n = rng.Intn(4)
	case 1:
		n = 50 + rng.Intn(200)
	}
	b := make([]byte, n)
	for i := range b {
		if rng.Intn(6) == 0 {
			b[i] = byte(1 + rng.Intn(255))
		} else {
			b[i] = "abcdefgh ABCDEFGH0123456789"[rng.Intn(27)]
		}
	}
	return b
}

// wrong returns a passphrase which differs (not only in NULs at the end or by
// hashing, which HMAC cannot tell apart).
func wrong(rng *rand.Rand, p []byte) []byte {
	o := append([]byte{}, p...)
	switch k := rng.Intn(7); {
	case k == 0 && len(p) > 0:
		o = o[:len(o)-1]
	case k == 1:
		o = append(o, byte(1+rng.Intn(255)))
	case k == 2 && len(p) > 0:
		o[rng.Intn(len(o))] ^= 0x20
	case k == 3:
		o = append([]byte{' '}, o...)
	case k == 4:
		o = append(o, '\n')
	case k == 5 && len(p) > 0:
		o = nil
	default:
		o = passphrase(rng)
	}
	if bytes.Equal(bytes.TrimRight(o, "\x00"), bytes.TrimRight(p, "\x00")) {
		return append(o, 'x')
	}
	return o
}

type encDB struct {
	name string
	pass []byte
	iter int
	vals []string
}

func (e *encDB) files() []string { return []string{e.name + ".db", e.name + ".key"} }

func readFile(t *mon.T, n string) []byte {
	b, err := os.ReadFile(n)
	t.Must(err, "read file")
	return b
}

func (e *encDB) snapshot(t *mon.T) [2][]byte {
	return [2][]byte{readFile(t, e.name+".db"), readFile(t, e.name+".key")}
}

func (e *encDB) restore(t *mon.T, s [2][]byte) {
	t.Must(os.WriteFile(e.name+".db", s[0], 0600), "write file")
	t.Must(os.WriteFile(e.name+".key", s[1], 0600), "write file")
}

func contents(db *sql.DB) (vals []string, err error) {
	rows, err := db.Query("SELECT V FROM T ORDER BY ID")
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	for rows.Next() {
		var v string
		if err := rows.Scan(&v); err != nil {
			return nil, err
		}
		vals = append(vals, v)
	}
	return vals, rows.Err()
}

// open opens the database and compares its contents, if it can be opened.
func (e *encDB) open(pass []byte) (opened, same bool, err error) {
	db, err := encdb.Open(e.name, pass)
	if err != nil {
		return false, false, err
	}
	defer db.Close()
	v, err := contents(db)
	if err != nil {
		return true, false, err
	}
	return true, strings.Join(v, "\x01") == strings.Join(e.vals, "\x01"), nil
}

func makeDB(t *mon.T, rng *rand.Rand, name string) *encDB {
	e := &encDB{name: name, pass: passphrase(rng), iter: 1 + rng.Intn(20)}
	t.Must(encdb.Create(e.name, e.pass, e.iter, createT), "create")
	db, err := encdb.Open(e.name, e.pass)
	t.Must(err, "open")
	for i := 0; i < 1+rng.Intn(20); i++ {
		v := fmt.Sprintf("VERYSECRETMARKER%d-%s", i, strings.Repeat("secretsecret", rng.Intn(200)))
		e.vals = append(e.vals, v)
		_, err := db.Exec("INSERT INTO T (V) VALUES (?)", v)
		t.Must(err, "insert")
	}
	t.Must(db.Close(), "close")
	return e
}

// rawKey decodes a key file independently.
func rawKey(keyfile, pass []byte) (key []byte, iter uint64) {
	if len(keyfile) < 88 {
		return
	}
	iter = binary.LittleEndian.Uint64(keyfile)
	dk, err := pbkdf2.Key(sha256.New, string(pass), keyfile[8:40], int(iter), 32)
	if err != nil {
		return
	}
	b, _ := aes.NewCipher(dk)
	key = make([]byte, 32)
	stdcipher.NewCBCDecrypter(b, keyfile[40:56]).CryptBlocks(key, keyfile[56:88])
	return
}

func runS06(t *mon.T) {
	salts := map[string]bool{}
	var prev *encDB
	for c := 0; c < t.N(50, 1500) && t.Violations() < 8; c++ {
		rng := t.Rand("c", c)
		dir := t.TempDir(fmt.Sprintf("e%d", c))
		e := makeDB(t, rng, filepath.Join(dir, []string{"keys", "a b", "ü", "x.y", "msgs"}[rng.Intn(5)]))
		t.Case(map[string]interface{}{"database": e.name, "passphrase": string(e.pass), "iterations": e.iter})
		orig := e.snapshot(t)
		unchanged := func(key string) {
			now := e.snapshot(t)
			if !bytes.Equal(now[0], orig[0]) || !bytes.Equal(now[1], orig[1]) {
				t.Violation("files-changed/"+key, map[string]interface{}{"passphrase": string(e.pass)})
				e.restore(t, orig)
			}
		}
		ev := func(kind string, i interface{}) { t.Eval(fmt.Sprint(c, kind, i)); t.Count(kind) }
		// right
		op, same, err := e.open(e.pass)
		if !op || !same || err != nil {
			t.Violation("right-passphrase", map[string]interface{}{"passphrase": string(e.pass), "error": fmt.Sprint(err), "opened": op})
		}
		ev("right", 0)
		// wrong
		for i := 0; i < 8; i++ {
			w := wrong(rng, e.pass)
			if op, _, _ := e.open(w); op {
				t.Violation("wrong-passphrase", map[string]interface{}{"passphrase": string(e.pass), "opened with": string(w)})
			}
			ev("wrong", i)
			unchanged("wrong-passphrase")
		}
		// the files
		key, iter := rawKey(orig[1], e.pass)
		if len(orig[1]) != 88 || iter != uint64(e.iter) {
			t.Violation("keyfile/format", map[string]interface{}{"length": len(orig[1]), "iterations": iter, "wanted": e.iter})
		} else if k, err := encdb.ReadKeyfile(e.name+".key", e.pass); err != nil || !bytes.Equal(k, key) {
			t.Violation("keyfile/key", map[string]interface{}{"error": fmt.Sprint(err)})
		} else {
			// the key of the key file is the key of the database
			db, err := sql.Open("sqlite3", e.name+".db"+fmt.Sprintf("?_pragma_key=x'%x'&_pragma_cipher_page_size=4096", key))
			t.Must(err, "open with key")
			v, err := contents(db)
			if err != nil || strings.Join(v, "\x01") != strings.Join(e.vals, "\x01") {
				t.Violation("keyfile/database-key", map[string]interface{}{"error": fmt.Sprint(err)})
			}
			db.Close()
		}
		ev("keyfile", 0)
		for _, s := range []string{string(orig[1][8:40]), string(orig[1][40:56]), string(key), string(orig[0][:16])} {
			if salts[s] {
				t.Violation("repeated-randomness", map[string]interface{}{"value": hex.EncodeToString([]byte(s))})
			}
			salts[s] = true
		}
		// nothing readable, also during a transaction
		db, err := encdb.Open(e.name, e.pass)
		t.Must(err, "open")
		tx, err := db.Begin()
		t.Must(err, "begin")
		for i := 0; i < 60; i++ {
			_, err := tx.Exec("INSERT INTO T (V) VALUES (?)", strings.Repeat("VERYSECRETMARKER", 500))
			t.Must(err, "insert")
		}
		_, err = tx.Exec("UPDATE T SET V=V||'x'")
		t.Must(err, "update")
		l, err := os.ReadDir(dir)
		t.Must(err, "list")
		for _, f := range l {
			inspect(t, filepath.Join(dir, f.Name()), key, e.pass)
			ev("inspected", f.Name())
			if strings.HasSuffix(f.Name(), "-journal") {
				t.Count("journal-inspected")
			}
		}
		tx.Rollback()
		t.Must(db.Close(), "close")
		inspect(t, e.name+".db", key, e.pass)
		orig = e.snapshot(t)
		// damaged files
		for i := 0; i < 14; i++ {
			s := [2][]byte{append([]byte{}, orig[0]...), append([]byte{}, orig[1]...)}
			kind := ""
			switch i % 7 {
			case 0:
				kind = "key-bit"
				j := 8 + rng.Intn(80)
				s[1][j] ^= 1 << uint(rng.Intn(8))
			case 1:
				kind = "key-iterations"
				s[1][[]int{0, 1, 3, 4, 5, 7}[rng.Intn(6)]] ^= 0x80
			case 2:
				kind = "key-cut"
				s[1] = s[1][:rng.Intn(len(s[1]))]
			case 3:
				kind = "db-bit"
				s[0][rng.Intn(len(s[0]))] ^= 1 << uint(rng.Intn(8))
			case 4:
				kind = "db-page"
				// a page replaced by another one
				n := len(s[0]) / 4096
				if n < 3 {
					continue
				}
				a, b := 1+rng.Intn(n-1), 1+rng.Intn(n-1)
				if a == b || bytes.Equal(s[0][a*4096:a*4096+4096], s[0][b*4096:b*4096+4096]) {
					continue
				}
				copy(s[0][a*4096:a*4096+4096], orig[0][b*4096:b*4096+4096])
			case 5:
				kind = "db-zeros"
				p := rng.Intn(len(s[0]))
				for j := p; j < len(s[0]) && j < p+rng.Intn(300); j++ {
					s[0][j] = 0
				}
			case 6:
				kind = "db-cut"
				s[0] = s[0][:rng.Intn(len(s[0]))]
			}
			e.restore(t, s)
			var op, same bool
			var err error
			t.NoPanic("damaged-crash", map[string]interface{}{"kind": kind}, func() { op, same, err = e.open(e.pass) })
			if strings.HasPrefix(kind, "key") && op {
				t.Violation("damaged/"+kind, map[string]interface{}{"what": "database opened with a damaged key file"})
			}
			if op && err == nil && !same {
				t.Violation("damaged/"+kind, map[string]interface{}{"what": "changed contents were read from a damaged database"})
			}
			ev("damaged/"+kind, i)
			e.restore(t, orig)
		}
		// files of two databases mixed, also with the same passphrase
		if prev != nil {
			ps := prev.snapshot(t)
			for i, s := range [][2][]byte{{orig[0], ps[1]}, {ps[0], orig[1]}} {
				e.restore(t, s)
				for _, p := range [][]byte{e.pass, prev.pass} {
					if op, _, _ := e.open(p); op {
						t.Violation("mixed-files", map[string]interface{}{"case": i})
					}
					ev("mixed", fmt.Sprint(i, string(p)))
				}
			}
			e.restore(t, orig)
		}
		// existing files are not overwritten
		for i := 0; i < 3; i++ {
			s := orig
			miss := -1
			if i > 0 {
				miss = i - 1
				os.Remove(e.files()[miss])
			}
			if err := encdb.Create(e.name, e.pass, 1, createT); err == nil {
				t.Violation("overwritten", map[string]interface{}{"missing file": miss})
			}
			for j, f := range e.files() {
				b, err := os.ReadFile(f)
				if j == miss {
					if err == nil {
						t.Violation("overwritten/created", map[string]interface{}{"missing file": miss, "created": f})
					}
				} else if !bytes.Equal(b, s[j]) {
					t.Violation("overwritten/changed", map[string]interface{}{"missing file": miss, "changed": f})
				}
			}
			if i > 0 {
				// and a database with a missing file is not opened
				if op, _, _ := e.open(e.pass); op {
					t.Violation("opened-incomplete", map[string]interface{}{"missing file": miss})
				}
				if _, err := os.Stat(e.files()[miss]); err == nil {
					t.Violation("open-creates", map[string]interface{}{"missing file": miss})
				}
			}
			ev("overwrite", i)
			e.restore(t, orig)
		}
		// a database which is not encrypted
		plain := filepath.Join(dir, "plain")
		pdb, err := sql.Open("sqlite3", plain+".db")
		t.Must(err, "plain database")
		_, err = pdb.Exec(createT[0])
		t.Must(err, "plain database")
		pdb.Close()
		t.Must(os.WriteFile(plain+".key", orig[1], 0600), "write")
		if db, err := encdb.Open(plain, e.pass); err == nil {
			db.Close()
			t.Violation("opened-plain", nil)
		}
		ev("plain", 0)
		prev = e
	}
	enginePassphrases(t)
}

// inspect searches a file for contents and keys and tests its randomness.
func inspect(t *mon.T, name string, key, pass []byte) {
	b := readFile(t, name)
	find := [][]byte{[]byte("SECRETMARKER"), []byte("secretsecret"), []byte("CREATE TABLE"), []byte("SQLite format"), key, []byte(hex.EncodeToString(key))}
	if len(pass) > 7 {
		find = append(find, pass)
	}
	for _, f := range find {
		if bytes.Contains(b, f) {
			t.Violation("readable", map[string]interface{}{"file": filepath.Base(name), "found": fmt.Sprintf("%.20q", f)})
		}
	}
	if !strings.HasSuffix(name, ".db") || len(b) < 8192 {
		return
	}
	// Every byte of a page is encrypted, random or a MAC, except for the end
	// of a page, which is not used completely.
	var n [256]int
	for p := 0; p+4096 <= len(b); p += 4096 {
		for _, x := range b[p : p+4000] {
			n[x]++
		}
	}
	e := float64(len(b)/4096*4000) / 256
	chi := 0.0
	for _, x := range n {
		chi += (float64(x) - e) * (float64(x) - e) / e
	}
	t.Count("chi-square-tests")
	if chi > 255+15*22.6 {
		t.Violation("not-random", map[string]interface{}{"file": filepath.Base(name), "chi square": chi})
	}
}

// enginePassphrases creates and rekeys databases through the engine.
func enginePassphrases(t *mon.T) {
	for c := 0; c < t.N(24, 200) && t.Violations() < 12; c++ {
		rng := t.Rand("engine", c)
		n := []int{1, 8, 100, 1500, 2040, 2100, 3000, 4000, 5000, 9000}[c%10]
		line := func() string {
			b := make([]byte, n)
			for i := range b {
				b[i] = "abcdefghijklmnop"[rng.Intn(16)]
			}
			return string(b)
		}
		a, b := line(), line()
		for b == a {
			b = line()
		}
		u := &engkit.User{Home: t.TempDir(fmt.Sprintf("u%d", c)), Pass: a}
		t.Must(engkit.WriteConfig(u.Home, engkit.Config(nil)), "config")
		r := u.Run(nil, a+"\n"+b+"\n", "db", "create", "--iterations", "1")
		if r.Err == nil {
			t.Violation("engine/create-differing", map[string]interface{}{"length": n, "what": "two differing passphrases accepted"})
			continue
		}
		t.Eval(fmt.Sprint("engine", c, n))
		t.Count("engine/differing")
		if err := u.Run(nil, a+"\n"+a+"\n", "db", "create", "--iterations", "1").Err; err != nil {
			t.Violation("engine/create", map[string]interface{}{"length": n, "error": err.Error()})
			continue
		}
		if err := u.Run(nil, a+"\n", "db", "version").Err; err != nil {
			t.Violation("engine/open", map[string]interface{}{"length": n, "error": err.Error()})
		}
		if err := u.Run(nil, b+"\n", "db", "version").Err; err == nil {
			t.Violation("engine/open-wrong", map[string]interface{}{"length": n})
		}
		d := line() + "x"
		if err := u.Run(nil, a+"\n"+b+"\n"+d+"\n", "db", "rekey", "--iterations", "1").Err; err == nil {
			t.Violation("engine/rekey-differing", map[string]interface{}{"length": n, "what": "two differing passphrases accepted"})
			continue
		}
		if err := u.Run(nil, b+"\n"+b+"\n"+b+"\n", "db", "rekey", "--iterations", "1").Err; err == nil {
			t.Violation("engine/rekey-wrong", map[string]interface{}{"length": n})
			continue
		}
		if err := u.Run(nil, a+"\n"+b+"\n"+b+"\n", "db", "rekey", "--iterations", "1").Err; err != nil {
			t.Violation("engine/rekey", map[string]interface{}{"length": n, "error": err.Error()})
			continue
		}
		if err := u.Run(nil, b+"\n", "db", "version").Err; err != nil {
			t.Violation("engine/open-new", map[string]interface{}{"length": n, "error": err.Error()})
		}
		if err := u.Run(nil, a+"\n", "db", "version").Err; err == nil {
			t.Violation("engine/open-old", map[string]interface{}{"length": n})
		}
		t.Count("engine/lifes")
	}
}
