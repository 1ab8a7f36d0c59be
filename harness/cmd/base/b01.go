package main

import (
	"bytes"
	crand "crypto/rand"
	"crypto/ed25519"
	"crypto/elliptic"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/cipher/aes256"
	"github.com/mutecomm/mute/encdb"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msg/msgid"
	"github.com/mutecomm/mute/msg/padding"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/token"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
	"golang.org/x/crypto/curve25519"

	"verif/harness/keyserv"
	"verif/harness/mon"
)

var b01 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "every maker of keys, nonces, initialisation vectors, padding, identifiers, tokens, addresses, envelopes, records and key files is run with a recorded source of randomness: complete, piecemeal (one byte at a time, random pieces, the last piece with the end of the source), failing after every number of bytes (end of source and other errors), and with every byte it consumed changed in turn; " +
		"one evaluation is one run which was judged",
	MinEvents: 10000,
	Run:       runB01,
}

// maker makes something from the source of randomness which is in use.
type maker struct {
	name string
	need int // so many bytes of the source must have an influence
	f    func(r io.Reader) ([]byte, error)
}

var errSource = errors.New("injected failure of the source of randomness")

// source is a recorded source of randomness.
type source struct {
	data  []byte
	pos   int
	piece func(want int) int // size of the next piece
	fail  int                // fails after so many bytes, if >= 0
	err   error
	early bool // the error comes with the last bytes
}

func (s *source) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if s.piece != nil {
		if n = s.piece(n); n < 1 {
			n = 1
		}
		if n > len(p) {
			n = len(p)
		}
	}
	if s.fail >= 0 {
		if s.pos >= s.fail {
			return 0, s.err
		}
		if n > s.fail-s.pos {
			n = s.fail - s.pos
		}
	}
	if s.pos+n > len(s.data) {
		return 0, io.ErrNoProgress // never happens: there is plenty
	}
	copy(p, s.data[s.pos:s.pos+n])
	s.pos += n
	if s.early && s.fail >= 0 && s.pos >= s.fail {
		return n, s.err
	}
	return n, nil
}

// run makes something from the source.
func (m maker) run(s *source) (out []byte, err error) {
	old := []io.Reader{cipher.RandReader, mixcrypt.Rand, mixaddr.Rand, nymaddr.Rand, walletauth.Rand, token.Rand, crand.Reader}
	cipher.RandReader, mixcrypt.Rand, mixaddr.Rand, nymaddr.Rand, walletauth.Rand, token.Rand, crand.Reader = s, s, s, s, s, s, s
	defer func() {
		cipher.RandReader, mixcrypt.Rand, mixaddr.Rand, nymaddr.Rand, walletauth.Rand, token.Rand, crand.Reader = old[0], old[1], old[2], old[3], old[4], old[5], old[6]
		if e := recover(); e != nil {
			out, err = nil, fmt.Errorf("panic: %v", e)
		}
	}()
	return m.f(s)
}

func runB01(t *mon.T) {
	for c := 0; c < t.N(2, 14) && t.Violations() < 12; c++ {
		rng := t.Rand("c", c)
		for _, m := range makers(t, rng, c) {
			judge(t, rng, c, m)
		}
	}
}

func judge(t *mon.T, rng *rand.Rand, c int, m maker) {
	stream := make([]byte, 1<<17)
	rng.Read(stream)
	fresh := func() *source { return &source{data: stream, fail: -1} }
	bad := func(what, format string, a ...interface{}) {
		t.Violation(m.name+"/"+what, fmt.Sprintf(format, a...))
	}
	eval := func(what string) {
		t.Eval(m.name + "/" + what)
		t.Count("run/" + what)
	}
	s := fresh()
	want, err := m.run(s)
	n := s.pos
	eval("complete")
	if err != nil || want == nil {
		bad("refused", "%v", err)
		return
	}
	if n < m.need {
		bad("consumed", "only %d bytes of randomness are used, %d are needed", n, m.need)
		return
	}
	// some makers use the time: try again if it went on
	same := func(mk func() *source) ([]byte, bool, error) {
		var out []byte
		for i := 0; i < 4; i++ {
			var err error
			s := mk()
			if out, err = m.run(s); err != nil || out == nil {
				return nil, false, err
			}
			if bytes.Equal(out, want) {
				return out, true, nil
			}
			ref, err := m.run(fresh())
			if err != nil {
				return nil, false, err
			}
			if !bytes.Equal(ref, want) {
				want = ref
				continue
			}
		}
		return out, false, nil
	}
	if _, ok, err := same(fresh); !ok {
		bad("not-a-function", "the same source yields something else (%v)", err)
		return
	}
	t.Sample(m.name, map[string]int{"bytes consumed": n, "bytes made": len(want)})
	for mode := 0; mode < 5; mode++ {
		mk := func() *source {
			s := fresh()
			r := rand.New(rand.NewSource(int64(mode)))
			switch mode {
			case 0:
				s.piece = func(int) int { return 1 }
			case 1:
				s.piece = func(w int) int { return 1 + r.Intn(w) }
			case 2:
				s.piece = func(w int) int { return w - 1 }
			case 3:
				s.fail, s.err, s.early = n, io.EOF, true
			case 4:
				s.fail, s.err, s.early = n, errSource, true
				s.piece = func(w int) int { return (w + 1) / 2 }
			}
			return s
		}
		_, ok, err := same(mk)
		eval("piecemeal")
		if err != nil {
			bad("piecemeal-refused", "mode %d: %v", mode, err)
		} else if !ok {
			bad("piecemeal", "mode %d: a source which delivers the same bytes in pieces yields something else", mode)
		}
	}
	// all positions, or all at both ends and some others
	var at []int
	for k := 0; k < n; k++ {
		if k < 150 || k >= n-50 || rng.Intn(n) < 50 {
			at = append(at, k)
		}
	}
	for _, k := range at {
		for mode := 0; mode < 3; mode++ {
			s := fresh()
			s.fail, s.err = k, io.EOF
			switch mode {
			case 1:
				s.err, s.early = errSource, true
			case 2:
				s.piece = func(int) int { return 1 }
				s.err = errSource
			}
			out, err := m.run(s)
			eval("failing")
			if err == nil && out != nil {
				bad("failure-ignored", "the source fails after %d of %d bytes, but something is made", k, n)
				break
			}
		}
	}
	influence := 0
	var without []int
	for _, k := range at {
		mk := func() *source {
			d := append([]byte{}, stream[:n+4096]...)
			d[k] ^= 0xff
			return &source{data: d, fail: -1}
		}
		_, ok, err := same(mk)
		eval("changed")
		if err == nil && !ok {
			influence++
		} else {
			without = append(without, k)
		}
	}
	t.CountN("bytes-with-influence", int64(influence))
	if len(at) == n && influence < m.need {
		if len(without) > 20 {
			without = without[:20]
		}
		bad("influence", "only %d of %d bytes of randomness have an influence, %d are needed (not: %v)", influence, n, m.need, without)
	}
}

func toJSON(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// makers returns everything that uses randomness.
func makers(t *mon.T, rng *rand.Rand, c int) []maker {
	key := make([]byte, 32)
	rng.Read(key)
	block := make([]byte, 16*(1+rng.Intn(20)))
	rng.Read(block)
	text := make([]byte, 1+rng.Intn(300))
	rng.Read(text)
	var l []maker
	add := func(name string, need int, f func(r io.Reader) ([]byte, error)) {
		l = append(l, maker{name, need, f})
	}
	// primitives
	add("curve25519", 32, func(r io.Reader) ([]byte, error) {
		k, err := cipher.Curve25519Generate(r)
		if err != nil {
			return nil, err
		}
		return append(k.PublicKey()[:], k.PrivateKey()[:]...), nil
	})
	add("ed25519", 32, func(r io.Reader) ([]byte, error) {
		k, err := cipher.Ed25519Generate(r)
		if err != nil {
			return nil, err
		}
		return append(k.PublicKey()[:], k.PrivateKey()[:]...), nil
	})
	add("naclbox", 32, func(r io.Reader) ([]byte, error) {
		k, err := cipher.NaClBoxGenerate(r)
		if err != nil {
			return nil, err
		}
		return append(append([]byte{}, k.PublicKey()...), k.PrivateKey()...), nil
	})
	add("nonce", 8, func(r io.Reader) ([]byte, error) { return cipher.Nonce(r), nil })
	add("randpass", 32, func(r io.Reader) ([]byte, error) { return []byte(cipher.RandPass(r)), nil })
	add("cbc", 16, func(r io.Reader) ([]byte, error) { return aes256.CBCEncrypt(key, block, r), nil })
	add("ctr", 16, func(r io.Reader) ([]byte, error) { return aes256.CTREncrypt(key, text, r), nil })
	add("msgid", 16, func(r io.Reader) ([]byte, error) {
		id, err := msgid.Generate("alice@mute.berlin", r)
		if id == "" {
			return nil, err
		}
		return []byte(id), err
	})
	for _, n := range []int{16, 31, 32, 33, 48, 64 + rng.Intn(4096)} {
		n := n
		need := n
		if need > 32 {
			need = 32
		}
		add(fmt.Sprintf("padding-%d", n), need, func(r io.Reader) ([]byte, error) {
			p, err := padding.Generate(n, r)
			if err == nil && len(p) != n {
				return nil, fmt.Errorf("%d bytes of padding instead of %d", len(p), n)
			}
			return p, err
		})
	}
	// identity records
	last := keyserv.Entry(make([]byte, 8), key, make([]byte, 48), key, "")
	pref := []uid.PFSPreference{uid.Strict, uid.Optional}[c%2]
	record := func(m *uid.Message, err error) ([]byte, error) {
		if err != nil || m == nil {
			return nil, err
		}
		out := append(m.JSON(), m.PrivateSigKey()...)
		return append(out, m.PrivateEncKey()...), nil
	}
	for _, escrow := range []bool{false, true} {
		escrow := escrow
		need := 64
		if escrow {
			need = 96
		}
		add(fmt.Sprintf("record-%v", escrow), need, func(r io.Reader) ([]byte, error) {
			return record(uid.Create("alice@mute.berlin", escrow, "mix@mute.berlin", "nym", pref, last, r))
		})
	}
	own, err := uid.Create("alice@mute.berlin", c%2 == 1, "", "", uid.Strict, last, rng)
	t.Must(err, "uid.Create")
	add("update", 32, func(r io.Reader) ([]byte, error) { return record(own.Update(r)) })
	add("keyinit", 48, func(r io.Reader) ([]byte, error) {
		ki, h, p, err := own.KeyInit(0, uint64(times.NinetyDaysLater()), 0, c%2 == 0, "mute.berlin", "mix", "nym", r)
		if err != nil || ki == nil || p == "" {
			return nil, err
		}
		return append(ki.JSON(), h+p...), nil
	})
	add("record-encrypted", 16, func(io.Reader) ([]byte, error) {
		_, _, enc := own.Encrypt()
		if enc == "" {
			return nil, nil
		}
		return []byte(enc), nil
	})
	add("keyentry", 32, func(r io.Reader) ([]byte, error) {
		var ke uid.KeyEntry
		if err := ke.InitDHKey(r); err != nil {
			return nil, err
		}
		return append(ke.PrivateKey32()[:], ke.PublicKey32()[:]...), nil
	})
	// addresses and envelopes of the mixes
	var mixPriv, mixPub [32]byte
	rng.Read(mixPriv[:])
	curve25519.ScalarBaseMult(&mixPub, &mixPriv)
	expire := times.Now() + 30*24*3600
	tmpl := nymaddr.AddressTemplate{
		Secret: key, System: 0, Expire: expire, SingleUse: c%2 == 0, MinDelay: 2, MaxDelay: 10,
		MixCandidates: mixaddr.AddressList{{Pubkey: mixPub[:], Expire: expire + 100, Address: "mix@mute.one", TokenKey: key}},
	}
	add("nymaddress", 64, func(io.Reader) ([]byte, error) { return tmpl.NewAddress([]byte("box@mute.one"), key) })
	add("mixkey", 32, func(io.Reader) ([]byte, error) {
		_, sk, err := ed25519.GenerateKey(rand.New(rand.NewSource(1)))
		if err != nil {
			panic(err)
		}
		var k [64]byte
		copy(k[:], sk)
		dir := t.TempDir("mixkeys")
		defer os.RemoveAll(dir)
		kl := mixaddr.New(&k, "mix@mute.one", 3600, 600, dir)
		kl.AddKey()
		var out []byte
		for p, e := range kl.Keys {
			out = append(append(out, p[:]...), e.Privkey...)
		}
		return out, nil
	})
	addr, err := tmpl.NewAddress([]byte("box@mute.one"), key)
	t.Must(err, "NewAddress")
	body := make([]byte, 4096+rng.Intn(1000))
	rng.Read(body)
	add("envelope", 64, func(io.Reader) ([]byte, error) { return mixcrypt.Encrypt(&mixPub, nil, text) })
	add("envelope-own-key", 32, func(io.Reader) ([]byte, error) { return mixcrypt.Encrypt(&mixPub, &mixPriv, text) })
	add("relay", 96, func(io.Reader) ([]byte, error) {
		h := mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: key}
		m, _, err := h.NewRelayMessage(addr, body)
		return m, err
	})
	add("forward", 64, func(io.Reader) ([]byte, error) {
		h := mixcrypt.ClientMixHeader{SenderMinDelay: 1, SenderMaxDelay: 2, Token: key}
		m, _, err := h.NewForwardMessage("mix@mute.one", &mixPub, body)
		return m, err
	})
	// tokens
	for _, owned := range []bool{false, true} {
		owned := owned
		need := token.NonceSize
		if !owned {
			need += token.OwnerSize
		}
		add(fmt.Sprintf("token-%v", owned), need, func(io.Reader) ([]byte, error) {
			var id [signkeys.KeyIDSize]byte
			copy(id[:], key)
			var owner *[32]byte
			if owned {
				owner = &mixPub
			}
			tok := token.New(&id, owner)
			if tok == nil {
				return nil, nil
			}
			return append(append([]byte{}, tok.Nonce...), tok.Owner...), nil
		})
	}
	_, sk, err := ed25519.GenerateKey(rng)
	t.Must(err, "GenerateKey")
	var spriv [64]byte
	var spub [32]byte
	copy(spriv[:], sk)
	copy(spub[:], sk[32:])
	add("authtoken", 32, func(io.Reader) ([]byte, error) { return walletauth.CreateToken(&spub, &spriv, 5), nil })
	add("issuerkey", 31, func(r io.Reader) ([]byte, error) {
		g := signkeys.New(elliptic.P256, r, func(b []byte) []byte { return cipher.SHA256(b) })
		g.PublicKey, g.PrivateKey, g.Usage = &spub, &spriv, "Message"
		k, err := g.GenKey()
		if err != nil || k == nil {
			return nil, err
		}
		return append(append([]byte{}, k.PrivateKey...), k.PublicKey.PublicKey.X.Bytes()...), nil
	})
	// databases
	pass := []byte("a passphrase")
	add("database", 80, func(io.Reader) ([]byte, error) {
		dir := t.TempDir("db")
		defer os.RemoveAll(dir)
		name := filepath.Join(dir, "x")
		if err := encdb.Create(name, pass, 3, []string{"CREATE TABLE a (b INTEGER)"}); err != nil {
			return nil, err
		}
		out, err := os.ReadFile(name + encdb.KeySuffix)
		if err != nil {
			return nil, err
		}
		k, err := encdb.ReadKeyfile(name+encdb.KeySuffix, pass)
		return append(out, k...), err
	})
	base := filepath.Join(t.TempDir("rekey"), "x")
	t.Must(encdb.Create(base, pass, 3, []string{"CREATE TABLE a (b INTEGER)"}), "Create")
	before, err := os.ReadFile(base + encdb.KeySuffix)
	t.Must(err, "ReadFile")
	add("rekey", 48, func(io.Reader) ([]byte, error) {
		t.Must(os.WriteFile(base+encdb.KeySuffix, before, 0600), "WriteFile")
		defer func() {
			if e := recover(); e != nil {
				now, err := os.ReadFile(base + encdb.KeySuffix)
				t.Checkf(err == nil && bytes.Equal(now, before), "rekey/key-file", "key file changed by a failed change of the passphrase")
				panic(e)
			}
		}()
		err := encdb.Rekey(base, pass, []byte("another one"), 4)
		out, rerr := os.ReadFile(base + encdb.KeySuffix)
		if err != nil {
			t.Checkf(rerr == nil && bytes.Equal(out, before), "rekey/key-file", "key file changed by a failed change of the passphrase")
			return nil, err
		}
		return out, rerr
	})
	return l
}
