package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"verif/harness/engkit"
	"verif/harness/kit"
	"verif/harness/mon"
)

var s01 = &mon.Prop{
	Level: "exploration",
	Rule: "random sequences of session store operations (store and extend sessions with 1-60 keys, look up and delete message keys inside and outside of the range, root key hashes, chain keys, session states with all combinations of refresh keys, session keys, reopening the database with and without the right passphrase) " +
		"on the real engine with its encrypted database and on the reference store used by M01-M08; one evaluation is one operation whose results were compared; finally real conversations run on two engine stores",
	MinEvents: 1500,
	Run:       runS01,
}

func newUser(t *mon.T, name string) *engkit.User {
	u := &engkit.User{Home: t.TempDir(name), Pass: "secret-" + name}
	t.Must(engkit.WriteConfig(u.Home, engkit.Config(nil)), "config")
	t.Must(u.Create(), "create key database")
	return u
}

func b64(rng *rand.Rand, n int) string {
	b := make([]byte, n)
	rng.Read(b)
	return base64.Encode(b)
}

func runS01(t *mon.T) {
	for c := 0; c < t.N(8, 120) && t.Violations() < 15; c++ {
		rng := t.Rand("c", c)
		kit.Seed(rng.Int63())
		u := newUser(t, fmt.Sprint("c", c))
		l, err := u.Loop()
		t.Must(err, "open")
		ref := kit.NewStore()
		var st session.Store = l.CE
		var hist []string
		var sessions, hashes []string
		for i := 0; i < 6; i++ {
			sessions = append(sessions, b64(rng, 64))
		}
		states := []string{b64(rng, 64), b64(rng, 64), b64(rng, 64)}
		newKE := func() *uid.KeyEntry {
			var ke uid.KeyEntry
			t.Must(ke.InitDHKey(cipher.RandReader), "key")
			return &ke
		}
		bad := func(what string, got, want interface{}) {
			h := hist
			if len(h) > 40 {
				h = h[len(h)-40:]
			}
			t.Violation(what, map[string]interface{}{"case": c, "history": h, "got": fmt.Sprint(got), "want": fmt.Sprint(want)})
		}
		same := func(op string, g, w interface{}, ge, we error) {
			t.Eval(fmt.Sprintf("%d/%d", c, len(hist)))
			t.Count(op)
			if (ge == nil) != (we == nil) {
				bad(op+"/error", ge, we)
				return
			}
			if we == session.ErrNoKeyEntry && ge != session.ErrNoKeyEntry {
				bad(op+"/error-kind", ge, we)
			}
			if ge == nil && !reflect.DeepEqual(g, w) {
				bad(op, g, w)
			}
		}
		checkSession := func(k string) {
			same("HasSession", st.HasSession(k), ref.HasSession(k), nil, nil)
			gn, ge := st.NumMessageKeys(k)
			wn, we := ref.NumMessageKeys(k)
			same("NumMessageKeys", gn, wn, ge, we)
			gr, ge := st.GetRootKeyHash(k)
			wr, we := ref.GetRootKeyHash(k)
			same("GetRootKeyHash", gr, wr, ge, we)
			gc, ge := st.GetChainKey(k)
			wc, we := ref.GetChainKey(k)
			same("GetChainKey", gc, wc, ge, we)
		}
		checkAll := func() {
			for _, k := range sessions {
				checkSession(k)
				n, err := ref.NumMessageKeys(k)
				if err != nil {
					continue
				}
				for i := uint64(0); i <= n; i++ {
					for _, s := range []bool{true, false} {
						g, ge := st.GetMessageKey(k, s, i)
						w, we := ref.GetMessageKey(k, s, i)
						same("GetMessageKey", g, w, ge, we)
					}
				}
			}
			for _, k := range states {
				g, ge := st.GetSessionState(k)
				w, we := ref.GetSessionState(k)
				same("GetSessionState", session.StateEqual(g, w), true, ge, we)
			}
			for _, h := range hashes {
				gj, gp, ge := st.GetSessionKey(h)
				wj, wp, we := ref.GetSessionKey(h)
				same("GetSessionKey", gj+"|"+gp, wj+"|"+wp, ge, we)
			}
		}
		for s := 0; s < 120 && t.Violations() < 15; s++ {
			k := sessions[rng.Intn(len(sessions))]
			switch op := rng.Intn(20); {
			case op < 5:
				n := 1 + rng.Intn(8)
				if rng.Intn(8) == 0 {
					n = 50 + rng.Intn(10)
				}
				var send, recv []string
				for i := 0; i < n; i++ {
					send = append(send, b64(rng, 64))
					recv = append(recv, b64(rng, 64))
				}
				rk, ck := b64(rng, 64), b64(rng, 32)
				if rng.Intn(15) == 0 {
					send = send[1:] // must be refused
				}
				hist = append(hist, fmt.Sprintf("StoreSession %.4s %d %d", k, len(send), len(recv)))
				same("StoreSession", 0, 0, st.StoreSession(k, rk, ck, send, recv), ref.StoreSession(k, rk, ck, send, recv))
				checkSession(k)
			case op < 9:
				n, _ := ref.NumMessageKeys(k)
				i, snd := uint64(rng.Intn(int(n)+3)), rng.Intn(2) == 0
				hist = append(hist, fmt.Sprintf("GetMessageKey %.4s %v %d", k, snd, i))
				g, ge := st.GetMessageKey(k, snd, i)
				w, we := ref.GetMessageKey(k, snd, i)
				same("GetMessageKey", g, w, ge, we)
			case op < 12:
				n, _ := ref.NumMessageKeys(k)
				if n == 0 {
					continue
				}
				i, snd := uint64(rng.Intn(int(n))), rng.Intn(2) == 0
				hist = append(hist, fmt.Sprintf("DelMessageKey %.4s %v %d", k, snd, i))
				same("DelMessageKey", 0, 0, st.DelMessageKey(k, snd, i), ref.DelMessageKey(k, snd, i))
				_, err := st.GetMessageKey(k, snd, i)
				t.Checkf(err != nil, "deleted-key-available", "case %d: message key %d is still there", c, i)
			case op < 15:
				ss := &session.State{SenderSessionCount: uint64(rng.Intn(1000)), SenderMessageCount: uint64(rng.Intn(1000)),
					MaxRecipientCount: uint64(rng.Intn(100)), RecipientTemp: *newKE(), SenderSessionPub: *newKE(),
					NymAddress: strings.Repeat("n'\"", rng.Intn(4)), KeyInitSession: rng.Intn(2) == 0}
				if rng.Intn(2) == 0 {
					ss.NextSenderSessionPub = newKE()
				}
				if rng.Intn(2) == 0 {
					ss.NextRecipientSessionPubSeen = newKE()
				}
				sk := states[rng.Intn(3)]
				hist = append(hist, fmt.Sprintf("SetSessionState %.4s", sk))
				same("SetSessionState", 0, 0, st.SetSessionState(sk, ss), ref.SetSessionState(sk, ss))
				g, ge := st.GetSessionState(sk)
				eq := ge == nil && g != nil && g.SenderSessionCount == ss.SenderSessionCount && g.SenderMessageCount == ss.SenderMessageCount &&
					g.MaxRecipientCount == ss.MaxRecipientCount && g.NymAddress == ss.NymAddress && g.KeyInitSession == ss.KeyInitSession &&
					keq(&g.RecipientTemp, &ss.RecipientTemp) && keq(&g.SenderSessionPub, &ss.SenderSessionPub) &&
					keq(g.NextSenderSessionPub, ss.NextSenderSessionPub) && keq(g.NextRecipientSessionPubSeen, ss.NextRecipientSessionPubSeen)
				if !eq {
					bad("GetSessionState", g, ss)
				}
			case op < 17:
				ke := newKE()
				priv := base64.Encode(ke.PrivateKey32()[:])
				hist = append(hist, fmt.Sprintf("AddSessionKey %.4s", ke.HASH))
				hashes = append(hashes, ke.HASH)
				same("AddSessionKey", 0, 0, st.AddSessionKey(ke.HASH, string(ke.JSON()), priv, 1000), ref.AddSessionKey(ke.HASH, string(ke.JSON()), priv, 1000))
			case op < 19:
				h := b64(rng, 64)
				if len(hashes) > 0 && rng.Intn(5) > 0 {
					h = hashes[rng.Intn(len(hashes))]
				}
				hist = append(hist, fmt.Sprintf("DelPrivSessionKey %.4s", h))
				if rng.Intn(2) == 0 {
					same("DelPrivSessionKey", 0, 0, st.DelPrivSessionKey(h), ref.DelPrivSessionKey(h))
				}
				gj, gp, ge := st.GetSessionKey(h)
				wj, wp, we := ref.GetSessionKey(h)
				same("GetSessionKey", gj+"|"+gp, wj+"|"+wp, ge, we)
			default:
				if s%4 != 0 {
					continue
				}
				hist = append(hist, "reopen")
				t.Must(l.Quit(), "quit")
				w := *u
				w.Pass = "wrong"
				t.Checkf(w.Cmd(nil, "db", "version").Err != nil, "wrong-passphrase", "case %d: the database opens with a wrong passphrase", c)
				l, err = u.Loop()
				t.Must(err, "reopen")
				st = l.CE
				t.Count("reopened")
				checkAll()
			}
		}
		checkAll()
		t.Sample("history", hist)
		t.Must(l.Quit(), "quit")
	}
	// real conversations on real stores
	for c := 0; c < t.N(2, 20) && t.Violations() < 15; c++ {
		rng := t.Rand("conv", c)
		kit.Seed(rng.Int63())
		var ps []*kit.Party
		var us []*engkit.User
		var ls []*engkit.Loop
		for _, n := range []string{"alice", "bob"} {
			p, err := kit.NewParty(n + "@mute.berlin")
			t.Must(err, "party")
			ps = append(ps, p)
			us = append(us, newUser(t, n))
			l, err := us[len(us)-1].Loop()
			t.Must(err, "loop")
			ls = append(ls, l)
		}
		ps[0].Knows(ps[1])
		ps[1].Knows(ps[0])
		hybrid := func(i int) session.Store { return &keyInitStore{ls[i].CE, ps[i].Ref} }
		for i := range ps {
			ps[i].Sessions = hybrid(i)
		}
		var flight []*kit.Msg
		deliver := func(m *kit.Msg) bool {
			got, sender, _, err := m.To.Decrypt(m.Wire, 0)
			t.Eval(fmt.Sprintf("conv %d/%d", c, m.N))
			t.Count("conversation-message")
			if err != nil || string(got) != string(m.Content) || sender != m.From.ID {
				t.Violation("conversation", map[string]interface{}{"case": c, "message": m.N, "err": fmt.Sprint(err)})
				return false
			}
			return true
		}
		ok := true
		for s := 0; s < 150 && ok; s++ {
			i := 0
			if c%2 == 0 && s > 10 { // long one-way part
				i = c % 4 / 2
			} else {
				i = rng.Intn(2)
			}
			m, err := ps[i].Encrypt(ps[1-i], []byte(fmt.Sprint("message ", s)), kit.Opts{AvgSize: uint(1 + rng.Intn(200)), Nym: "n"})
			if err != nil {
				t.Violation("conversation", map[string]interface{}{"case": c, "message": s, "err": err.Error()})
				break
			}
			m.N = s
			flight = append(flight, m)
			if rng.Intn(5) > 0 {
				j := rng.Intn(len(flight))
				m := flight[j]
				flight = append(flight[:j:j], flight[j+1:]...)
				ok = deliver(m)
			}
			if s%50 == 49 {
				for i := range ls {
					t.Must(ls[i].Quit(), "quit")
					ls[i], err = us[i].Loop()
					t.Must(err, "reopen")
					ps[i].Sessions = hybrid(i)
				}
			}
		}
		for _, m := range flight {
			if ok {
				ok = deliver(m)
			}
		}
		for _, l := range ls {
			l.Quit()
		}
	}
}

func keq(a, b *uid.KeyEntry) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.HASH == b.HASH && a.PUBKEY == b.PUBKEY && a.FUNCTION == b.FUNCTION && a.CIPHERSUITE == b.CIPHERSUITE
}

// keyInitStore takes KeyInits from the reference store and everything else
// from the engine.
type keyInitStore struct {
	session.Store
	ref *kit.Store
}

func (s *keyInitStore) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	return s.ref.GetPrivateKeyEntry(h)
}

func (s *keyInitStore) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	return s.ref.GetPublicKeyEntry(m)
}
