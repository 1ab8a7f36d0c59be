package main

import (
	"bytes"
	"crypto/ed25519"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mutecomm/mute/mix/mixaddr"
	"verif/harness/mon"
)

var x04 = &mon.Prop{
	Level: "exploration",
	Rule: "random lists of mix keys signed, sent, altered in every field, and merged, with expired, almost expired and valid entries; key lists of mixes which make, store, reload and expire keys, also from many goroutines at once under the race detector; " +
		"one evaluation is one statement, list operation or key which was judged",
	MinEvents: 1500,
	Run:       runX04,
}

func adrEq(a, b mixaddr.Address) bool {
	return bytes.Equal(a.Pubkey, b.Pubkey) && a.Expire == b.Expire && a.Address == b.Address && bytes.Equal(a.TokenKey, b.TokenKey)
}

func listEq(a, b mixaddr.AddressList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !adrEq(a[i], b[i]) {
			return false
		}
	}
	return true
}

func signKey(rng *rand.Rand) *[64]byte {
	var p [64]byte
	copy(p[:], ed25519.NewKeyFromSeed(bs(rng, 32)))
	return &p
}

func randList(rng *rand.Rand, now int64) mixaddr.AddressList {
	var l mixaddr.AddressList
	for i := 0; i < rng.Intn(6); i++ {
		e := now + int64(rng.Intn(400000)) - 200000
		if e > now-10 && e < now+60 {
			e += 100
		}
		l = append(l, newMix(rng, i, e).adr)
	}
	return l
}

func valid(l mixaddr.AddressList, now int64) mixaddr.AddressList {
	o := mixaddr.AddressList{}
	for _, a := range l {
		if a.Expire > now {
			o = append(o, a)
		}
	}
	return o
}

func clone(l mixaddr.AddressList) mixaddr.AddressList {
	var o mixaddr.AddressList
	for _, a := range l {
		a.Pubkey = append([]byte{}, a.Pubkey...)
		a.TokenKey = append([]byte{}, a.TokenKey...)
		o = append(o, a)
	}
	return o
}

func runX04(t *mon.T) {
	defer maintained(t)()
	now := time.Now().Unix()
	for c := 0; c < t.N(120, 4000) && t.Violations() < 8; c++ {
		rng := t.Rand("x04", c)
		statements(t, rng, c, now)
	}
	for c := 0; c < t.N(12, 100) && t.Violations() < 10; c++ {
		keyList(t, t.Rand("keys", c), c)
	}
	for c := 0; c < t.N(3, 30) && t.Violations() < 12; c++ {
		concurrent(t, t.Rand("conc", c), c)
	}
}

func statements(t *mon.T, rng *rand.Rand, c int, now int64) {
	l := randList(rng, now)
	if len(l) == 0 {
		l = mixaddr.AddressList{newMix(rng, 0, now+1000).adr}
	}
	saved := clone(l)
	d := map[string]interface{}{"list": fmt.Sprintf("%+v", l)}
	t.Case(d)
	key := signKey(rng)
	st := l.Statement(key)
	if !listEq(saved, l) {
		t.Violation("list-changed", d)
	}
	if !st.Verify() || !bytes.Equal(st.PublicKey, key[32:]) || !listEq(st.Addresses, l) {
		t.Violation("statement/own", d)
	}
	// over the wire
	b, err := json.Marshal(st)
	t.Must(err, "encode")
	var st2 mixaddr.AddressStatement
	t.Must(json.Unmarshal(b, &st2), "decode")
	if !st2.Verify() || !listEq(st2.Addresses, l) {
		t.Violation("statement/sent", d)
	}
	t.Eval(fmt.Sprint(c, "statement"))
	t.Count("statements")
	base := randList(rng, now)
	got := clone(base).AddStatement(st2)
	if want := append(clone(base), valid(l, now)...); !listEq(got, want) {
		d["got"] = fmt.Sprintf("%+v", got)
		t.Violation("statement/added", d)
	}
	// altered in any way
	for k := 0; k < 14; k++ {
		s := mixaddr.AddressStatement{Addresses: clone(l), Signature: append([]byte{}, st.Signature...), PublicKey: append([]byte{}, st.PublicKey...)}
		i := rng.Intn(len(l))
		a := &s.Addresses[i]
		kind := ""
		switch k {
		case 0:
			kind = "key"
			a.Pubkey[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
		case 1:
			kind = "expire"
			a.Expire += []int64{1, -1, 3600, 1 << 40, -1 << 62}[rng.Intn(5)]
		case 2:
			kind = "address"
			x := []byte(a.Address)
			x[rng.Intn(len(x))] ^= 1
			a.Address = string(x)
		case 3:
			kind = "token-key"
			a.TokenKey[rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
		case 4:
			kind = "added"
			s.Addresses = append(s.Addresses, newMix(rng, 8, now+1000).adr)
		case 5:
			kind = "removed"
			s.Addresses = append(s.Addresses[:i], s.Addresses[i+1:]...)
		case 6:
			kind = "repeated"
			s.Addresses = append(s.Addresses, s.Addresses[i])
		case 7:
			kind = "exchanged"
			j := rng.Intn(len(l))
			if i == j {
				continue
			}
			s.Addresses[i], s.Addresses[j] = s.Addresses[j], s.Addresses[i]
		case 8:
			kind = "swapped-keys"
			j := rng.Intn(len(l))
			if i == j {
				continue
			}
			s.Addresses[i].Pubkey, s.Addresses[j].Pubkey = s.Addresses[j].Pubkey, s.Addresses[i].Pubkey
		case 9:
			kind = "signature"
			s.Signature[rng.Intn(64)] ^= 1 << uint(rng.Intn(8))
		case 10:
			kind = "public-key"
			s.PublicKey = signKey(rng)[32:]
		case 11:
			kind = "short-signature"
			s.Signature = s.Signature[:rng.Intn(60)]
		case 12:
			kind = "no-public-key"
			s.PublicKey = nil
		case 13:
			// Where one field ends and the next one starts matters, too.
			kind = "shifted"
			a.Address, a.TokenKey = a.Address+string(a.TokenKey[:1]), a.TokenKey[1:]
		}
		d["altered"] = kind
		ok := false
		t.NoPanic("statement-crash/"+kind, d, func() { ok = s.Verify() })
		if ok {
			t.Violation("statement-altered/"+kind, d)
		}
		if got := clone(base).AddStatement(s); ok == false && !listEq(got, base) {
			t.Violation("statement-altered-added/"+kind, d)
		}
		t.Eval(fmt.Sprint(c, kind))
		t.Count("altered/" + kind)
	}
	// lists
	if got := l.Expire(0); !listEq(got, valid(l, now)) {
		t.Violation("expire", map[string]interface{}{"got": fmt.Sprintf("%+v", got)})
	}
	at := l[rng.Intn(len(l))].Expire + int64(rng.Intn(3)-1)
	if got := l.Expire(at); !listEq(got, valid(l, at)) {
		t.Violation("expire-at", map[string]interface{}{"at": at, "got": fmt.Sprintf("%+v", got)})
	}
	if got := clone(base).Append(l...); !listEq(got, append(clone(base), valid(l, now)...)) {
		t.Violation("append", map[string]interface{}{"got": fmt.Sprintf("%+v", got)})
	}
	if got := mixaddr.AddressList(nil).Append(l...); !listEq(got, valid(l, now)) {
		t.Violation("append-nil", nil)
	}
	if got, err := (mixaddr.AddressList{}).Unmarshal(l.Marshal()); err != nil || !listEq(got, valid(l, now)) {
		t.Violation("marshal", map[string]interface{}{"error": fmt.Sprint(err), "got": fmt.Sprintf("%+v", got)})
	}
	if r := l.Rand(); r == nil {
		t.Violation("rand", nil)
	} else {
		found := false
		for _, a := range l {
			found = found || adrEq(a, *r)
		}
		t.Checkf(found, "rand", "%+v", r)
	}
	if mixaddr.AddressList(nil).Rand() != nil || (mixaddr.AddressList{}).Rand() != nil {
		t.Violation("rand-empty", nil)
	}
	if !listEq(saved, l) {
		t.Violation("list-changed", d)
	}
	t.Eval(fmt.Sprint(c, "list"))
	t.Count("lists")
}

// usable checks that all keys of a statement can be used, and only those.
func usable(t *mon.T, kl *mixaddr.KeyList, st *mixaddr.AddressStatement, key string) {
	now := time.Now().Unix()
	for _, a := range st.Addresses {
		p := kl.GetPrivateKey(arr(a.Pubkey))
		e := kl.GetKeyEntry(arr(a.Pubkey))
		switch {
		case a.Expire > now+2 && (p == nil || e == nil):
			t.Violation(key+"/key-missing", map[string]interface{}{"what": "a key which was published does not work before it expires", "expire in": a.Expire - now})
		case a.Expire < now && (p != nil || e != nil):
			t.Violation(key+"/key-expired", map[string]interface{}{"what": "a key works after it has expired", "expired since": now - a.Expire})
		case p != nil && !bytes.Equal(pubOf(p[:]), a.Pubkey), e != nil && (!bytes.Equal(e.Pubkey, a.Pubkey) || e.Expire != a.Expire || e.Address != a.Address || !bytes.Equal(e.TokenKey, a.TokenKey)):
			t.Violation(key+"/key-wrong", map[string]interface{}{"entry": fmt.Sprintf("%+v", e)})
		}
		t.Count("keys-used")
	}
	if kl.GetPrivateKey(new([32]byte)) != nil || kl.GetKeyEntry(new([32]byte)) != nil {
		t.Violation(key+"/unknown-key", nil)
	}
}

func keyList(t *mon.T, rng *rand.Rand, c int) {
	dir := filepath.Join(t.TempDir(fmt.Sprintf("k%d", c)), "keys")
	sk := signKey(rng)
	dur := int64(1000 + rng.Intn(100000))
	kl := mixaddr.New(sk, "mix@mute.berlin", dur, 100, dir)
	published := map[string]mixaddr.Address{}
	for i := 0; i < 2+rng.Intn(8); i++ {
		before := time.Now().Unix()
		kl.AddKey()
		after := time.Now().Unix()
		st := kl.GetStatement()
		if st == nil || !st.Verify() || !bytes.Equal(st.PublicKey, sk[32:]) || len(st.Addresses) != i+1 {
			t.Violation("keys/statement", map[string]interface{}{"keys": i + 1, "statement": fmt.Sprintf("%+v", st)})
			return
		}
		for _, a := range st.Addresses {
			if _, ok := published[string(a.Pubkey)]; !ok {
				if a.Expire < before+dur || a.Expire > after+dur || a.Address != "mix@mute.berlin" || !bytes.Equal(a.TokenKey, sk[32:]) {
					t.Violation("keys/new", map[string]interface{}{"key": fmt.Sprintf("%+v", a)})
				}
				published[string(a.Pubkey)] = a
			}
		}
		if len(published) != i+1 {
			t.Violation("keys/lost", map[string]interface{}{"published": len(published), "wanted": i + 1})
		}
		usable(t, kl, st, "keys")
		t.Eval(fmt.Sprint(c, "key", i))
	}
	lo, hi := kl.GetBoundaryTime()
	for _, a := range published {
		if a.Expire < lo || a.Expire > hi {
			t.Violation("keys/boundary", nil)
		}
	}
	kl.Expire()
	usable(t, kl, kl.GetStatement(), "keys")
	// the mix is started again
	fs, err := os.ReadDir(dir)
	t.Must(err, "list keys")
	last := ""
	for _, f := range fs {
		if i, _ := f.Info(); i.Mode().Perm()&077 != 0 {
			t.Violation("keys/readable-file", map[string]interface{}{"mode": i.Mode().String()})
		}
		if f.Name() > last {
			last = f.Name()
		}
	}
	saved, err := os.ReadFile(filepath.Join(dir, last))
	t.Must(err, "read keys")
	for i, data := range [][]byte{saved, kl.Marshal()} {
		kl2 := mixaddr.New(sk, "mix@mute.berlin", dur, 100, dir)
		if err := kl2.Unmarshal(data); err != nil {
			t.Violation("keys/reload", map[string]interface{}{"error": err.Error()})
			return
		}
		st := kl2.GetStatement()
		if st == nil || !st.Verify() || len(st.Addresses) != len(published) {
			t.Violation("keys/reload-statement", map[string]interface{}{"statement": fmt.Sprintf("%+v", st), "source": i})
			return
		}
		for _, a := range published {
			usable(t, kl2, &mixaddr.AddressStatement{Addresses: mixaddr.AddressList{a}}, "reloaded")
		}
		t.Eval(fmt.Sprint(c, "reload", i))
		t.Count("reloads")
	}
	// with keys of different ages
	var es []mixaddr.KeyEntry
	all := mixaddr.AddressStatement{}
	now := time.Now().Unix()
	for i := 0; i < 10; i++ {
		m := newMix(rng, i, now+int64(rng.Intn(2000)-1000))
		if m.adr.Expire > now-5 && m.adr.Expire < now+30 {
			m.adr.Expire += 100
		}
		es = append(es, mixaddr.KeyEntry{Pubkey: m.adr.Pubkey, Privkey: m.priv, Expire: m.adr.Expire, Address: m.adr.Address, TokenKey: m.adr.TokenKey})
		all.Addresses = append(all.Addresses, m.adr)
	}
	b, _ := json.Marshal(es)
	t.Must(kl.Unmarshal(b), "unmarshal")
	usable(t, kl, &all, "aged")
	if st := kl.GetStatement(); !st.Verify() || len(st.Addresses) != len(valid(all.Addresses, now)) {
		t.Violation("aged/statement", map[string]interface{}{"statement": fmt.Sprintf("%+v", st)})
	}
	for _, bad := range []string{"", "x", "{}", "[1]", "[{\"Pubkey\":5}]"} {
		t.NoPanic("keys/crash", map[string]interface{}{"data": bad}, func() {
			if err := kl.Unmarshal([]byte(bad)); err == nil && bad != "" {
				t.Violation("keys/accepts", map[string]interface{}{"data": bad})
			}
		})
		usable(t, kl, &all, "after-error")
	}
	// one which ends while it is used
	m := newMix(rng, 0, time.Now().Unix()+1)
	b, _ = json.Marshal([]mixaddr.KeyEntry{{Pubkey: m.adr.Pubkey, Privkey: m.priv, Expire: m.adr.Expire}})
	t.Must(kl.Unmarshal(b), "unmarshal")
	if c%4 == 0 {
		time.Sleep(2200 * time.Millisecond)
		if kl.GetPrivateKey(arr(m.adr.Pubkey)) != nil || kl.GetKeyEntry(arr(m.adr.Pubkey)) != nil {
			t.Violation("ended/key", nil)
		}
		kl.Expire()
		if bytes.Contains(kl.Marshal(), []byte(hex.EncodeToString(m.adr.Pubkey))) || len(kl.Keys) != 0 {
			t.Violation("ended/kept", nil)
		}
		t.Eval(fmt.Sprint(c, "ended"))
		t.Count("keys-ended")
	}
	t.Eval(fmt.Sprint(c, "aged"))
}

func concurrent(t *mon.T, rng *rand.Rand, c int) {
	kl := mixaddr.New(signKey(rng), "mix@mute.berlin", 5000, 100, t.TempDir(fmt.Sprintf("c%d", c)))
	kl.AddKey()
	var wg sync.WaitGroup
	var ops int64
	stop := make(chan bool)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; ; i++ {
				select {
				case <-stop:
					return
				default:
				}
				switch g {
				case 0, 1:
					if i < 40 {
						kl.AddKey()
					}
				case 2:
					kl.Expire()
				case 3:
					kl.GetBoundaryTime()
				case 4:
					var l []mixaddr.KeyEntry
					if err := json.Unmarshal(kl.Marshal(), &l); err != nil || len(l) == 0 {
						t.Violation("concurrent/marshal", map[string]interface{}{"error": fmt.Sprint(err)})
						return
					}
				default:
					st := kl.GetStatement()
					if !st.Verify() {
						t.Violation("concurrent/statement", nil)
						return
					}
					usable(t, kl, st, "concurrent")
				}
				atomic.AddInt64(&ops, 1)
			}
		}(g)
	}
	time.Sleep(time.Duration(t.N(1500, 5000)) * time.Millisecond)
	close(stop)
	wg.Wait()
	if n := len(kl.GetStatement().Addresses); n != 81 {
		t.Violation("concurrent/keys", map[string]interface{}{"keys": n})
	}
	t.Eval(fmt.Sprint("concurrent", c))
	t.CountN("concurrent-operations", ops)
}

// maintained starts key lists which maintain themselves; the returned function
// judges them later. Other lists of the process do the same at the same time.
func maintained(t *mon.T) func() {
	often := mixaddr.New(signKey(t.Rand("often")), "mix@mute.one", 3600, 1, t.TempDir("often"))
	once := mixaddr.New(signKey(t.Rand("once")), "mix@mute.one", 3600, 100000, t.TempDir("once"))
	start := time.Now()
	often.Maintain()
	once.Maintain()
	return func() {
		if t.Violations() > 0 {
			return
		}
		want := t.N(1, 3)
		for _, kl := range []*mixaddr.KeyList{often, once} {
			n := want
			if kl == once {
				n = 1
			}
			for {
				st := kl.GetStatement()
				if st != nil && len(st.Addresses) >= n {
					break
				}
				if time.Since(start) > 120*time.Second {
					t.Violation("maintain/keys", map[string]interface{}{"what": "a maintained key list has no new key after two minutes (every second one is due, checked every ten)"})
					return
				}
				kl.GetBoundaryTime()
				time.Sleep(20 * time.Millisecond)
			}
		}
		ticks := int(time.Since(start)/(10*time.Second)) + 1
		for name, kl := range map[string]*mixaddr.KeyList{"often": often, "once": once} {
			st := kl.GetStatement()
			if !st.Verify() || len(st.Addresses) > ticks || name == "once" && len(st.Addresses) != 1 {
				t.Violation("maintain/"+name, map[string]interface{}{"what": "statement of a maintained list", "keys": len(st.Addresses), "ticks": ticks})
			}
			usable(t, kl, st, "maintain")
			t.Count("maintained-" + name)
			t.Eval("maintained-" + name)
		}
	}
}
