package main

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/rand"
	"path/filepath"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/client/walletstore"
	"github.com/mutecomm/mute/serviceguard/common/keypool"
	"github.com/mutecomm/mute/serviceguard/common/keypool/keydb"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"verif/harness/mon"
)

var g04 = &mon.Prop{
	Level: "exploration",
	Rule: "wallet stores and key pools used by many goroutines (with the race detector) and wallet stores by two stores on one file; holders of tokens are recorded outside of the store; " +
		"one evaluation is one operation under concurrency",
	MinEvents: 1200,
	Run:       runG04,
}

func runG04(t *mon.T) {
	for c := 0; c < t.N(6, 60); c++ {
		takers(t, c)
	}
	for c := 0; c < t.N(3, 30); c++ {
		caches(t, c)
	}
	for c := 0; c < t.N(4, 40); c++ {
		pools(t, c)
	}
}

// takers lets goroutines take tokens.
func takers(t *mon.T, c int) {
	rng := t.Rand("g04", c)
	g := newTokGen(t, rng)
	file := filepath.Join(t.TempDir("wallet"), "wallet.db")
	db, first := openWallet(t, file)
	defer db.Close()
	stores := []*walletstore.Storage{first}
	if c%2 == 1 { // a second store on the same database
		ws, err := walletstore.New(db)
		t.Must(err, "second store")
		stores = append(stores, ws)
	}
	owner := &g.owners[0].pub
	// the store gives up an operation if the database is busy for 5 s, and
	// not all of them can tell: nothing can be said about the tokens then
	var starved int32
	timed := func(f func() bool) {
		start := time.Now()
		if failed := f(); failed && time.Since(start) > 4800*time.Millisecond {
			atomic.StoreInt32(&starved, 1)
		}
	}
	bad := func(key, detail string) {
		if atomic.LoadInt32(&starved) == 0 {
			t.Violation(key, detail)
		}
	}
	var mu sync.Mutex
	content := map[string]client.TokenEntry{}
	holder := map[string]*int32{}
	add := func(ws *walletstore.Storage, exp int64) string {
		h := make([]byte, 32)
		crand.Read(h)
		e := client.TokenEntry{Hash: h, Token: append([]byte("token"), h...), OwnerPubKey: owner, Usage: "UID", Expire: exp}
		if exp%2 == 0 {
			e.Params = append([]byte("params"), h...)
		}
		mu.Lock()
		holder[string(h)] = new(int32)
		content[string(h)] = e
		mu.Unlock()
		var err error
		timed(func() bool { err = ws.SetToken(e); return err != nil })
		if err != nil {
			bad("takers/set", fmt.Sprint(err))
		}
		return string(h)
	}
	now := time.Now().Unix()
	var hashes []string
	for i := 0; i < 5; i++ {
		hashes = append(hashes, add(first, now+86400+int64(i)))
	}
	var wg sync.WaitGroup
	var taken, refused, spent int64
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			rng := rand.New(rand.NewSource(t.Seed*1000 + int64(c*10+w)))
			ws := stores[w%len(stores)]
			for i := 0; i < t.N(30, 60); i++ {
				var h string
				mode := rng.Intn(3)
				if mode == 0 { // a certain token
					h = hashes[rng.Intn(len(hashes))]
					id := ws.LockToken([]byte(h))
					if id <= 0 {
						if id == 0 {
							bad("takers/zero", "lock ID 0")
						}
						atomic.AddInt64(&refused, 1)
						continue
					}
				} else {
					var o *[32]byte
					if mode == 1 {
						o = owner
					}
					var e *client.TokenEntry
					var err error
					timed(func() bool { e, err = ws.GetAndLockToken("UID", o); return err != nil && err != client.ErrNoToken })
					if err == client.ErrNoToken {
						atomic.AddInt64(&refused, 1)
						runtime.Gosched()
						continue
					}
					if err != nil || e == nil {
						bad("takers/error", fmt.Sprintf("%v %v", e, err))
						return
					}
					h = string(e.Hash)
					mu.Lock()
					want := content[h]
					mu.Unlock()
					if !sameEntry(e, &want) {
						bad("takers/content", fmt.Sprintf("%+v", e))
					}
				}
				mu.Lock()
				p := holder[h]
				mu.Unlock()
				if p == nil {
					bad("takers/unknown", fmt.Sprintf("%x", h))
					return
				}
				if !atomic.CompareAndSwapInt32(p, 0, int32(w+1)) {
					bad("takers/twice", fmt.Sprintf("token %x given to %d while %d has it", h, w+1, atomic.LoadInt32(p)))
					return
				}
				atomic.AddInt64(&taken, 1)
				if rng.Intn(3) == 0 {
					time.Sleep(time.Duration(rng.Intn(2000)) * time.Microsecond)
				} else {
					runtime.Gosched()
				}
				if !atomic.CompareAndSwapInt32(p, int32(w+1), 0) {
					bad("takers/stolen", fmt.Sprintf("%x", h))
					return
				}
				if mode > 0 && rng.Intn(4) == 0 {
					atomic.StoreInt32(p, -1) // spent, it must not be given out again
					timed(func() bool { ws.DelToken([]byte(h)); return true })
					mu.Lock()
					delete(content, h)
					mu.Unlock()
					atomic.AddInt64(&spent, 1)
					add(ws, now+86400+int64(rng.Intn(100)))
				} else {
					timed(func() bool { ws.UnlockToken([]byte(h)); return true })
				}
			}
		}(w)
	}
	done := make(chan bool)
	go func() {
		wg.Wait()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(240 * time.Second):
		t.Violation("takers/hang", "the goroutines do not come to an end")
		panic(mon.Failed{})
	}
	t.Case(map[string]interface{}{"stores": len(stores), "taken": taken})
	for i := int64(0); i < taken+refused; i++ {
		t.Eval(fmt.Sprintf("take/%d", len(stores)))
	}
	t.CountN("starved", int64(atomic.LoadInt32(&starved)))
	t.CountN("taken", taken)
	t.CountN("refused", refused)
	t.CountN("spent", spent)
	for h, want := range content {
		w := want
		e, err := first.GetToken([]byte(h), 1<<40)
		if err != nil || !sameEntry(e, &w) {
			bad("takers/left", fmt.Sprintf("%x: %v", h, err))
		}
	}
	if n := first.GetBalance("UID", owner); n != int64(len(content)) {
		bad("takers/balance", fmt.Sprintf("%d instead of %d", n, len(content)))
	}
}

// caches lets goroutines use the cache.
func caches(t *mon.T, c int) {
	file := filepath.Join(t.TempDir("wallet"), "wallet.db")
	db, ws := openWallet(t, file)
	defer db.Close()
	token := func(n int) []byte { return bytes.Repeat([]byte{byte(n)}, n+1) }
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 25; i++ {
				switch w % 3 {
				case 0:
					n := w*25 + i
					if err := ws.SetAuthToken(token(n), n); err != nil {
						t.Violation("caches/set", fmt.Sprint(err))
					}
				case 1:
					a, n := ws.GetAuthToken()
					if a != nil && !bytes.Equal(a, token(n)) {
						t.Violation("caches/torn", fmt.Sprintf("%x %d", a, n))
					}
				case 2:
					var k [32]byte
					k[0], k[1] = byte(w), byte(i)
					ws.SetVerifyKeys([][32]byte{k, k})
					if l := ws.GetVerifyKeys(); len(l) != 2 || l[0] != l[1] {
						t.Violation("caches/keys", fmt.Sprint(l))
					}
				}
			}
		}(w)
	}
	wg.Wait()
	for i := 0; i < 150; i++ {
		t.Eval("caches")
	}
	a, n := ws.GetAuthToken()
	k := ws.GetVerifyKeys()
	ws2, err := walletstore.New(db)
	t.Must(err, "reopen")
	b, m := ws2.GetAuthToken()
	if !bytes.Equal(a, b) || n != m || fmt.Sprint(k) != fmt.Sprint(ws2.GetVerifyKeys()) {
		t.Violation("caches/stored", fmt.Sprintf("%x %d, stored %x %d", a, n, b, m))
	}
}

// pools lets goroutines use a key pool.
func pools(t *mon.T, c int) {
	is, other := newIssuer(t), newIssuer(t)
	g := newGenerator()
	p, q := is.pub, other.pub
	if c%2 == 0 {
		g.PublicKey, g.PrivateKey = &p, priv64(is.priv)
		g.ExpireTime = 3600
	}
	kp := keypool.New(g)
	kp.AddVerifyKey(&p)
	db := openDB(t, filepath.Join(t.TempDir("keydb"), "keys.db"))
	defer db.Close()
	t.Must(keydb.Add(kp, db), "add")
	// keys which have to be fetched
	writer := keypool.New(newGenerator())
	writer.AddVerifyKey(&p)
	t.Must(keydb.Add(writer, db), "add")
	var stored, fresh []*keyPair
	for i := 0; i < 24; i++ {
		k := is.key("UID", time.Now().Unix()+7200)
		if i%2 == 0 {
			_, err := writer.LoadKey(k.pubKey())
			t.Must(err, "load")
			t.Must(writer.SaveKey(id32(k.KeyID)), "save")
			stored = append(stored, k)
		} else {
			fresh = append(fresh, k)
		}
	}
	var wg sync.WaitGroup
	var cur sync.Map
	var ops int64
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for i := 0; i < 12; i++ {
				atomic.AddInt64(&ops, 1)
				switch w % 4 {
				case 0, 1: // keys of the storage
					k := stored[(i*(w+1))%len(stored)]
					x, err := kp.Lookup(id32(k.KeyID))
					if err != nil || !sameKey(x, k) {
						t.Violation("pools/fetch", fmt.Sprint(err))
					}
				case 2: // new keys
					k := fresh[(i+w)%len(fresh)]
					if _, err := kp.LoadKey(k.pubKey()); err != nil && err != keypool.ErrExists {
						t.Violation("pools/load", fmt.Sprint(err))
					}
					x, err := kp.Lookup(id32(k.KeyID))
					if err != nil || !sameKey(x, k) {
						t.Violation("pools/lookup", fmt.Sprint(err))
					}
					kp.SaveKey(id32(k.KeyID))
				case 3:
					kp.AddVerifyKey(&q)
					if !kp.HasVerifyKey(&q, false) || len(kp.ListVerifyKeys()) < 1 {
						t.Violation("pools/verify", "")
					}
					if g.PrivateKey != nil {
						k, _, err := kp.Current()
						if err != nil {
							t.Violation("pools/current", fmt.Sprint(err))
							continue
						}
						cur.Store(k.PublicKey.KeyID, true)
					}
				}
			}
		}(w)
	}
	wg.Wait()
	// the first key is made while the pool is used
	for i := 0; i < 10; i++ {
		np := keypool.New(newGenerator())
		np.AddVerifyKey(&q)
		if g.PrivateKey != nil {
			np.Generator = g
		}
		start := make(chan bool)
		var ids sync.Map
		for _, f := range []func(){
			func() {
				if g.PrivateKey != nil {
					if k, _, err := np.Current(); err == nil {
						ids.Store(k.PublicKey.KeyID, true)
					}
				}
			},
			func() { np.ListVerifyKeys() },
			func() { np.SaveKey(id32(stored[0].KeyID)) },
			func() { np.LoadKey(stored[0].pubKey()) },
			func() { np.Lookup(id32(stored[1].KeyID)) },
			func() { np.Lookup(id32(stored[1].KeyID)) },
			func() { np.HasVerifyKey(&q, false) },
		} {
			for n := 0; n < 2; n++ {
				wg.Add(1)
				go func(f func()) {
					defer wg.Done()
					<-start
					for j := 0; j < 3; j++ {
						f()
					}
				}(f)
			}
		}
		close(start)
		wg.Wait()
		ops += 42
		n := 0
		ids.Range(func(a, b interface{}) bool { n++; return true })
		if n > 1 {
			t.Violation("pools/current-keys", fmt.Sprintf("%d current keys", n))
		}
	}
	for i := int64(0); i < ops; i++ {
		t.Eval("pools")
	}
	n := 0
	cur.Range(func(k, v interface{}) bool { n++; return true })
	if g.PrivateKey != nil && n != 1 {
		t.Violation("pools/current-keys", fmt.Sprintf("%d current keys", n))
	}
	after := keypool.New(newGenerator())
	after.AddVerifyKey(&p)
	t.Must(keydb.Add(after, db), "add")
	for _, k := range append(append([]*keyPair{}, stored...), fresh...) {
		if x, err := after.Lookup(id32(k.KeyID)); err != nil || !sameKey(x, k) {
			t.Violation("pools/saved", fmt.Sprint(err))
		}
	}
	_ = signkeys.KeyIDSize
}
