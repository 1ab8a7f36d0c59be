package main

import (
	"bytes"
	"crypto/elliptic"
	crand "crypto/rand"
	"database/sql"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"time"

	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydir"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/ronperry/cryptoedge/eccutil"
	"verif/harness/mon"
)

var g05 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "key pools with directories and databases as storage, given good, expired, foreign and altered keys, stopped, damaged and reloaded; generators watched over several lives of their keys; " +
		"one evaluation is one load, lookup, reload or current key which was judged",
	MinEvents: 3000,
	Run:       runG05,
}

func runG05(t *mon.T) {
	for c := 0; c < t.N(24, 240); c++ {
		poolStorage(t, c)
	}
	damaged(t)
	writeFaults(t)
	rollover(t)
}

func newGenerator() *signkeys.KeyGenerator {
	return signkeys.New(elliptic.P256, crand.Reader, eccutil.Sha1Hash)
}

// backend is a storage which can be opened again.
type backend struct {
	name string
	add  func(kp *keypool.KeyPool) error
	db   *sql.DB
	dir  string
}

func newBackend(t *mon.T, kind string) *backend {
	if kind == "dir" {
		dir := filepath.Join(t.TempDir("keys"), "sub", "keys")
		return &backend{name: kind, dir: dir, add: func(kp *keypool.KeyPool) error { return keydir.Add(kp, dir) }}
	}
	db := openDB(t, filepath.Join(t.TempDir("keydb"), "keys.db"))
	return &backend{name: kind, db: db, add: func(kp *keypool.KeyPool) error { return keydb.Add(kp, db) }}
}

func (b *backend) close() {
	if b.db != nil {
		b.db.Close()
	}
}

// sameKey compares a key of the pool with an issued one.
func sameKey(p *signkeys.PublicKey, k *keyPair) bool {
	return p != nil && bytes.Equal(p.KeyID[:], k.KeyID) && p.PublicKey.X.Cmp(k.x) == 0 && p.PublicKey.Y.Cmp(k.y) == 0 &&
		p.Expire == k.Expire && p.Usage == k.Usage && bytes.Equal(p.Signer[:], k.Signer) && bytes.Equal(p.Signature[:], k.Signature)
}

func priv64(k []byte) *[64]byte {
	p := new([64]byte)
	copy(p[:], k)
	return p
}

func id32(b []byte) (id [32]byte) {
	copy(id[:], b)
	return
}

func poolStorage(t *mon.T, c int) {
	rng := t.Rand("g05", c)
	now := time.Now().Unix()
	kinds := [][]string{{}, {"dir"}, {"db"}, {"dir", "db"}, {"db", "db"}, {"dir", "dir"}}[c%6]
	var bs []*backend
	for _, k := range kinds {
		b := newBackend(t, k)
		defer b.close()
		bs = append(bs, b)
	}
	usage := []string{"", "UID"}[c/6%2]
	good, second, bad := newIssuer(t), newIssuer(t), newIssuer(t)
	open := func(trust ...*issuer) *keypool.KeyPool {
		g := newGenerator()
		g.Usage = usage
		kp := keypool.New(g)
		for _, i := range trust {
			p := i.pub
			kp.AddVerifyKey(&p)
		}
		for _, b := range bs {
			if err := b.add(kp); err != nil {
				t.Violation("add", fmt.Sprint(b.name, err))
				panic(mon.Failed{})
			}
		}
		return kp
	}
	kp := open(good, second)
	type kk struct {
		k    *keyPair
		why  string // why it has to be refused
		kept bool
	}
	var keys []*kk
	check := func(what string, ok bool, detail interface{}) {
		t.Eval("pool/" + what)
		if !ok {
			t.Violation("pool/"+what, fmt.Sprintf("%v", detail))
		}
	}
	for n := 0; n < 14; n++ {
		k := &kk{}
		by := []*issuer{good, second}[rng.Intn(2)]
		use := []string{"UID", "UID", "Message"}[rng.Intn(3)]
		exp := now + 3600 + int64(rng.Intn(86400))
		kind := n
		switch kind {
		case 0:
			by, k.why = bad, "signer"
		case 1:
			exp, k.why = now-10, "expired"
		}
		k.k = by.key(use, exp)
		if usage != "" && use != usage {
			k.why = "usage"
		}
		alter := func(why string, f func()) {
			f()
			if k.why == "" {
				k.why = why
			}
		}
		switch kind {
		case 2:
			alter("signature", func() { k.k.Signature[rng.Intn(64)] ^= 1 << uint(rng.Intn(8)) })
		case 3:
			alter("expiry altered", func() { k.k.Expire += 86400 })
		case 4:
			if usage == "" {
				alter("usage altered", func() { k.k.Usage += "x" })
			}
		case 5:
			alter("id", func() { k.k.KeyID[rng.Intn(32)] ^= 1 })
		case 6:
			alter("false signer", func() {
				k.k.Signer = append([]byte{}, map[bool]*issuer{true: good, false: second}[by == second].pub[:]...)
			})
		case 7:
			alter("point", func() { k.k.x, k.k.y = good.key("UID", exp).x, k.k.y })
		}
		p := &signkeys.PublicKey{KeyID: id32(k.k.KeyID), PublicKey: *k.k.point(), Expire: k.k.Expire, Usage: k.k.Usage, Signer: id32(k.k.Signer)}
		copy(p.Signature[:], k.k.Signature)
		keys = append(keys, k)
		t.Case(map[string]interface{}{"backends": kinds, "why": k.why})
		id, err := kp.LoadKey(p)
		if k.why != "" {
			check("refused", err != nil && err != keypool.ErrExists, k.why)
			check("refused-save", kp.SaveKey(p.KeyID) != nil, k.why)
			check("refused-lookup", func() bool { x, err := kp.Lookup(p.KeyID); return x == nil && err != nil }(), k.why)
			continue
		}
		check("loaded", err == nil && id != nil && bytes.Equal(id[:], k.k.KeyID), err)
		_, err = kp.LoadKey(p)
		check("again", err == keypool.ErrExists, err)
		x, err := kp.Lookup(p.KeyID)
		check("lookup", err == nil && sameKey(x, k.k), err)
		if rng.Intn(3) > 0 {
			err := kp.SaveKey(p.KeyID)
			check("save", err == nil, err)
			k.kept = true
			if rng.Intn(3) == 0 {
				check("save-again", kp.SaveKey(p.KeyID) == nil, "")
			}
			t.Count("saved")
		}
	}
	// after a restart
	hasDB := false
	for _, b := range bs {
		hasDB = hasDB || b.db != nil
	}
	for round, trust := range [][]*issuer{{good, second}, {second}, {}} {
		for _, load := range []bool{true, false} {
			kp := open(trust...)
			if load {
				t.Eval("pool/load")
				if err := kp.Load(); err != nil {
					t.Violation("pool/load", fmt.Sprint(err))
					return
				}
			}
			for _, k := range keys {
				trusted := false
				for _, i := range trust {
					trusted = trusted || bytes.Equal(i.pub[:], k.k.Signer)
				}
				want := k.why == "" && k.kept && trusted && len(bs) > 0 && (load || hasDB)
				x, err := kp.Lookup(id32(k.k.KeyID))
				if want {
					check("reloaded", err == nil && sameKey(x, k.k), fmt.Sprintf("%d %v: %v", round, kinds, err))
				} else {
					check("not-reloaded", err != nil && x == nil, fmt.Sprintf("%d %v: %v", round, kinds, k.why))
				}
			}
			t.Count("reloads")
		}
	}
}

// damaged checks that a storage which was damaged still gives the other keys.
func damaged(t *mon.T) {
	rng := t.Rand("g05d")
	for c := 0; c < t.N(40, 400); c++ {
		is := newIssuer(t)
		b := newBackend(t, []string{"dir", "db"}[c%2])
		kp := keypool.New(newGenerator())
		p := is.pub
		kp.AddVerifyKey(&p)
		t.Must(b.add(kp), "add")
		var keys []*keyPair
		for i := 0; i < 3; i++ {
			k := is.key("UID", time.Now().Unix()+3600)
			keys = append(keys, k)
			_, err := kp.LoadKey(k.pubKey())
			t.Must(err, "load")
			t.Must(kp.SaveKey(id32(k.KeyID)), "save")
		}
		hit := keys[c/2%3]
		kind := ""
		if b.dir != "" {
			files, err := ioutil.ReadDir(b.dir)
			t.Must(err, "read dir")
			name := ""
			for _, f := range files {
				d, _ := ioutil.ReadFile(filepath.Join(b.dir, f.Name()))
				if bytes.Equal(d, hit.enc) {
					name = filepath.Join(b.dir, f.Name())
				}
			}
			if name == "" || len(files) != 3 {
				t.Violation("dir/files", fmt.Sprint(files))
				return
			}
			switch c / 6 % 4 {
			case 0: // the write was cut
				kind = "cut"
				n := rng.Intn(len(hit.enc))
				if rng.Intn(4) == 0 {
					n = 0
				}
				t.Must(os.Truncate(name, int64(n)), "truncate")
			case 1:
				kind = "bit"
				d := append([]byte{}, hit.enc...)
				d[rng.Intn(len(d))] ^= 1 << uint(rng.Intn(8))
				t.Must(ioutil.WriteFile(name, d, 0600), "write")
			case 2:
				kind = "other file"
				t.Must(ioutil.WriteFile(filepath.Join(b.dir, "README"), []byte("keys"), 0600), "write")
				hit = nil
			case 3:
				kind = "directory"
				t.Must(os.Mkdir(filepath.Join(b.dir, ".snapshot"), 0700), "mkdir")
				hit = nil
			}
		} else {
			kind = "row"
			var tab string
			t.Must(b.db.QueryRow("SELECT name FROM sqlite_master WHERE type='table'").Scan(&tab), "table")
			_, err := b.db.Exec("UPDATE "+tab+" SET KeyData=? WHERE KeyData=?", []string{"", "AA==", "%%", b64(hit.enc[:rng.Intn(len(hit.enc))])}[c/6%4], b64(hit.enc))
			t.Must(err, "damage")
		}
		t.Case(map[string]interface{}{"storage": b.name, "damage": kind})
		kp = keypool.New(newGenerator())
		kp.AddVerifyKey(&p)
		t.Must(b.add(kp), "add")
		t.NoPanic("damaged-panic/"+b.name, kind, func() { kp.Load() })
		for _, k := range keys {
			t.Eval("damaged/" + b.name + "/" + kind)
			x, err := kp.Lookup(id32(k.KeyID))
			if k == hit {
				if err == nil && !sameKey(x, k) {
					t.Violation("damaged/accepted", fmt.Sprintf("%s %+v", kind, x))
				}
			} else if err != nil || !sameKey(x, k) {
				t.Violation("damaged/others/"+b.name, fmt.Sprintf("%s: %v", kind, err))
			}
		}
		// the key can be stored again
		if hit != nil {
			kp.LoadKey(hit.pubKey())
			kp.SaveKey(id32(hit.KeyID))
			x, err := kp.Lookup(id32(hit.KeyID))
			if err != nil || !sameKey(x, hit) {
				t.Violation("damaged/again", fmt.Sprint(err))
			}
		}
		b.close()
		t.Count("damaged")
	}
}

// writeFaults checks that keys which could not be stored are not reported as stored.
func writeFaults(t *mon.T) {
	for c := 0; c < t.N(8, 40); c++ {
		is := newIssuer(t)
		b := newBackend(t, []string{"dir", "db"}[c%2])
		g := newGenerator()
		p, s := is.pub, priv64(is.priv)
		g.PublicKey, g.PrivateKey = &p, s
		kp := keypool.New(g)
		kp.AddVerifyKey(&p)
		t.Must(b.add(kp), "add")
		k := is.key("", time.Now().Unix()+3600)
		_, err := kp.LoadKey(k.pubKey())
		t.Must(err, "load")
		var undo func()
		if b.dir != "" {
			t.Must(os.Rename(b.dir, b.dir+"x"), "rename")
			undo = func() { t.Must(os.Rename(b.dir+"x", b.dir), "rename") }
		} else {
			undo = faults(t, b.db, "INSERT")
		}
		t.Case(map[string]interface{}{"storage": b.name})
		t.Eval("write/save")
		if err := kp.SaveKey(id32(k.KeyID)); err == nil {
			t.Violation("write/save/"+b.name, "a key which was not stored is reported as stored")
		}
		t.Eval("write/current")
		if k, _, err := kp.Current(); err == nil {
			t.Violation("write/current/"+b.name, fmt.Sprintf("%x in use but not stored", k.PublicKey.KeyID))
		}
		undo()
		t.Eval("write/after")
		cur, _, err := kp.Current()
		if err != nil {
			t.Violation("write/after/"+b.name, fmt.Sprint(err))
			continue
		}
		fresh := keypool.New(newGenerator())
		fresh.AddVerifyKey(&p)
		t.Must(b.add(fresh), "add")
		fresh.Load()
		if x, err := fresh.Lookup(cur.PublicKey.KeyID); err != nil || x.Signature != cur.PublicKey.Signature {
			t.Violation("write/stored/"+b.name, fmt.Sprint(err))
		}
		t.Count("write faults")
		b.close()
	}
}

// rollover watches generators over the lives of their keys.
func rollover(t *mon.T) {
	const life = 4
	type gen struct {
		is   *issuer
		kp   *keypool.KeyPool
		cur  *signkeys.KeyPair
		all  []*signkeys.KeyPair
		seen time.Time
	}
	var gs []*gen
	for i := 0; i < t.N(6, 20); i++ {
		is := newIssuer(t)
		g := newGenerator()
		p, s := is.pub, priv64(is.priv)
		g.PublicKey, g.PrivateKey = &p, s
		g.Usage, g.ExpireTime = "UID", life
		kp := keypool.New(g)
		kp.AddVerifyKey(&p)
		gs = append(gs, &gen{is: is, kp: kp})
	}
	if _, _, err := keypool.New(newGenerator()).Current(); err != keypool.ErrNoGenerator {
		t.Violation("rollover/no-generator", fmt.Sprint(err))
	}
	rng := rand.New(rand.NewSource(t.Seed))
	for end := time.Now().Add(time.Duration(t.N(13, 40)) * time.Second); time.Now().Before(end); time.Sleep(40 * time.Millisecond) {
		for i, g := range gs {
			if i > 0 && rng.Intn(i*8) > 0 {
				continue // used at times only
			}
			before := time.Now().Unix()
			cur, prev, err := g.kp.Current()
			after := time.Now().Unix()
			t.Eval("rollover/current")
			if err != nil {
				t.Violation("rollover/error", fmt.Sprint(err))
				return
			}
			p := &cur.PublicKey
			if p.Expire <= before {
				t.Violation("rollover/expired", fmt.Sprintf("the current key expired %d s ago", before-p.Expire))
				return
			}
			if left := p.Expire - before; left < life/2 {
				t.Violation("rollover/short", fmt.Sprintf("%d s left", left))
				return
			}
			if g.cur != nil && cur.PublicKey.KeyID != g.cur.PublicKey.KeyID {
				if prev == nil || prev.PublicKey.KeyID != g.cur.PublicKey.KeyID {
					t.Violation("rollover/previous", fmt.Sprintf("%+v", prev))
				}
				if left := g.cur.PublicKey.Expire - after; left > life/2+1 {
					t.Violation("rollover/early", fmt.Sprintf("%d s left", left))
				}
				t.Count("rolled over")
			}
			if g.cur == nil || cur.PublicKey.KeyID != g.cur.PublicKey.KeyID {
				// a key which others accept
				other := keypool.New(newGenerator())
				q := g.is.pub
				other.AddVerifyKey(&q)
				if _, err := other.LoadKey(p); err != nil {
					t.Violation("rollover/unusable", fmt.Sprint(err))
				}
				x, y := curve.Curve.ScalarBaseMult(cur.PrivateKey)
				if x.Cmp(p.PublicKey.X) != 0 || y.Cmp(p.PublicKey.Y) != 0 {
					t.Violation("rollover/private", "")
				}
				if p.Usage != "UID" || p.Signer != g.is.pub || p.Expire < before+life || p.Expire > after+life {
					t.Violation("rollover/fields", fmt.Sprintf("%+v", p))
				}
				g.all = append(g.all, cur)
			}
			g.cur = cur
			for _, k := range g.all {
				now := time.Now().Unix()
				x, err := g.kp.Lookup(k.PublicKey.KeyID)
				later := time.Now().Unix()
				t.Eval("rollover/lookup")
				if k.PublicKey.Expire > later && (err != nil || x.KeyID != k.PublicKey.KeyID) {
					t.Violation("rollover/forgotten", fmt.Sprint(err))
				}
				if k.PublicKey.Expire <= now-1 && err == nil {
					t.Violation("rollover/outlived", fmt.Sprint(k.PublicKey.Expire))
				}
			}
		}
	}
}
