package main

import (
	"bytes"
	"crypto/ecdh"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/rand"
	"time"

	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/nymaddr"
	"verif/harness/mon"
)

var x01 = &mon.Prop{
	Level: "exploration",
	Rule: "nym addresses made from random secrets, mailboxes, pseudonyms and lists of mixes, parsed, opened by the mix and by other mixes, and their relay headers opened by the recipient and by others; every byte of addresses and headers is altered, fields are shifted into each other, and expiry is extended; " +
		"one evaluation is one address or header which was judged",
	MinEvents: 2500,
	Run:       runX01,
}

func bs(rng *rand.Rand, n int) []byte {
	b := make([]byte, n)
	rng.Read(b)
	return b
}

func arr(b []byte) *[32]byte { var a [32]byte; copy(a[:], b); return &a }

// dh is X25519 by the standard library.
func dh(priv, pub []byte) []byte {
	k, err := ecdh.X25519().NewPrivateKey(priv)
	if err != nil {
		return nil
	}
	p, err := ecdh.X25519().NewPublicKey(pub)
	if err != nil {
		return nil
	}
	s, err := k.ECDH(p)
	if err != nil {
		return make([]byte, 32)
	}
	return s
}

func pubOf(priv []byte) []byte {
	k, _ := ecdh.X25519().NewPrivateKey(priv)
	return k.PublicKey().Bytes()
}

// aMix is one mix with its key.
type aMix struct {
	priv []byte
	adr  mixaddr.Address
}

func newMix(rng *rand.Rand, i int, expire int64) *aMix {
	m := &aMix{priv: bs(rng, 32)}
	m.adr = mixaddr.Address{Pubkey: pubOf(m.priv), Expire: expire, Address: fmt.Sprintf("mix%d-%x@mute.berlin", i, rng.Intn(1<<16)), TokenKey: bs(rng, 32)}
	return m
}

// keys returns the lookup function of a mix.
func (m *aMix) keys(p *[32]byte) *[32]byte {
	if bytes.Equal(p[:], m.adr.Pubkey) {
		return arr(m.priv)
	}
	return nil
}

func shared(a, b []byte, n int) bool {
	seen := map[string]bool{}
	for i := 0; i+n <= len(a); i++ {
		seen[string(a[i:i+n])] = true
	}
	for i := 0; i+n <= len(b); i++ {
		if seen[string(b[i:i+n])] {
			return true
		}
	}
	return false
}

func runX01(t *mon.T) {
	now := time.Now().Unix()
	used := map[string]bool{}
	for c := 0; c < t.N(60, 2500) && t.Violations() < 8; c++ {
		rng := t.Rand("x01", c)
		var mixes []*aMix
		var list mixaddr.AddressList
		expire := now + 1000 + int64(rng.Intn(1000000))
		for i := 0; i < 1+rng.Intn(5); i++ {
			e := expire + int64(rng.Intn(3)-1)
			switch rng.Intn(4) {
			case 0:
				e = expire - 1 - int64(rng.Intn(100000))
			case 1:
				e = expire + int64(rng.Intn(100000))
			}
			m := newMix(rng, i, e)
			mixes = append(mixes, m)
			list = append(list, m.adr)
		}
		valid := map[string]*aMix{}
		for _, m := range mixes {
			if m.adr.Expire > expire {
				valid[string(m.adr.Pubkey)] = m
			}
		}
		tmp := nymaddr.AddressTemplate{Secret: bs(rng, []int{64, 32, 1, 0}[rng.Intn(4)]), MixCandidates: list, Expire: expire,
			SingleUse: rng.Intn(2) == 0, MinDelay: int32(rng.Intn(1000)), MaxDelay: int32(rng.Intn(100000))}
		if rng.Intn(8) == 0 {
			tmp.MinDelay, tmp.MaxDelay = -int32(rng.Uint32()>>1), int32(rng.Uint32()>>1)
		}
		mailbox := []byte(hex.EncodeToString(bs(rng, 32)) + "@00" + fmt.Sprint(rng.Intn(9)) + ".")
		nym := bs(rng, 32)
		if c%5 == 4 {
			nym = bs(rng, rng.Intn(40))
		}
		var wantNym [32]byte
		copy(wantNym[:], nym)
		t.Case(map[string]interface{}{"mixes": len(mixes), "usable": len(valid), "single use": tmp.SingleUse, "mailbox": string(mailbox), "nym": hex.EncodeToString(nym)})
		saved := append([]byte{}, nym...)
		a1, err := tmp.NewAddress(mailbox, nym)
		if len(valid) == 0 {
			if err == nil {
				t.Violation("no-mix", map[string]interface{}{"what": "address made although no mix has a key which is valid until it expires"})
			}
			t.Eval(fmt.Sprint(c, "none"))
			t.Count("no-mix")
			continue
		}
		if err != nil {
			t.Violation("new", map[string]interface{}{"error": err.Error()})
			continue
		}
		a2, err := tmp.NewAddress(mailbox, nym)
		t.Must(err, "second address")
		if !bytes.Equal(saved, nym) {
			t.Violation("nym-changed", nil)
		}
		p1 := judgeAddress(t, rng, c, &tmp, a1, valid, mailbox, wantNym[:], used)
		p2 := judgeAddress(t, rng, c, &tmp, a2, valid, mailbox, wantNym[:], used)
		if p1 == nil || p2 == nil {
			continue
		}
		// nothing of it can be read or linked without the key of the mix
		for _, s := range [][]byte{mailbox, mailbox[:20], wantNym[:], tmp.Secret, p1.ReceiverPubKey, p1.Nonce, p1.EncNym, p1.HMACHead} {
			if len(s) > 8 && bytes.Contains(a1, s) {
				t.Violation("readable", map[string]interface{}{"what": fmt.Sprintf("%.20q", s)})
			}
		}
		var u1, u2 nymaddr.Address
		asn1.Unmarshal(a1, &u1)
		asn1.Unmarshal(a2, &u2)
		if shared(append(append([]byte{}, u1.AddressKey...), u1.PrivateData...), append(append([]byte{}, u2.AddressKey...), u2.PrivateData...), 8) {
			t.Violation("linkable", map[string]interface{}{"what": "two addresses for the same nym have bytes in common"})
		}
		if shared(bytes.Join([][]byte{p1.Nonce, p1.ReceiverPubKey, p1.EncNym, p1.HMACHead}, nil), bytes.Join([][]byte{p2.Nonce, p2.ReceiverPubKey, p2.EncNym, p2.HMACHead}, nil), 8) {
			t.Violation("linkable-for-mix", map[string]interface{}{"what": "the headers of two addresses have bytes in common"})
		}
		if len(tmp.Secret) > 8 && bytes.Contains(p1.EncNym, wantNym[:8]) {
			t.Violation("nym-readable-for-mix", nil)
		}
		t.Eval(fmt.Sprint(c, "unlinkable"))
		t.Count("pairs-compared")
		damageAddress(t, rng, c, a1, &u1, p1, valid[string(u1.MixPubKey)], mixes)
	}
	expiry(t, now)
	distribution(t, now)
}

// judgeAddress follows an address to the recipient.
func judgeAddress(t *mon.T, rng *rand.Rand, c int, tmp *nymaddr.AddressTemplate, a []byte, valid map[string]*aMix, mailbox, nym []byte, used map[string]bool) *nymaddr.AddressPrivate {
	bad := func(key string, d map[string]interface{}) *nymaddr.AddressPrivate {
		t.Violation(key, d)
		return nil
	}
	ad, err := nymaddr.ParseAddress(append([]byte{}, a...))
	if err != nil {
		return bad("parse", map[string]interface{}{"error": err.Error()})
	}
	m := valid[string(ad.MixPubKey)]
	if m == nil {
		return bad("mix", map[string]interface{}{"what": "the address names no mix with a key which is valid until it expires", "mix": string(ad.MixAddress)})
	}
	if string(ad.MixAddress) != m.adr.Address || !bytes.Equal(ad.TokenPubKey, m.adr.TokenKey) || ad.Expire != tmp.Expire || ad.SingleUse != tmp.SingleUse {
		return bad("public", map[string]interface{}{"mix": string(ad.MixAddress), "expire": ad.Expire, "single use": ad.SingleUse})
	}
	p, err := ad.GetMixData(m.keys)
	if err != nil {
		return bad("mix-data", map[string]interface{}{"error": err.Error()})
	}
	if p.System != tmp.System || !bytes.Equal(p.Address, mailbox) || p.Expire != tmp.Expire || p.SingleUse != tmp.SingleUse || p.MinDelay != tmp.MinDelay || p.MaxDelay != tmp.MaxDelay {
		return bad("private", map[string]interface{}{"got": fmt.Sprintf("%+v", p)})
	}
	if u := p.GetUnique(); tmp.SingleUse != (u != nil) || u != nil && !bytes.Equal(u, p.ReceiverPubKey) {
		return bad("unique", map[string]interface{}{"single use": tmp.SingleUse, "unique": hex.EncodeToString(u)})
	}
	for _, s := range [][]byte{p.Nonce, p.ReceiverPubKey, ad.AddressKey} {
		if len(s) != 32 || used[string(s)] {
			return bad("not-fresh", map[string]interface{}{"value": hex.EncodeToString(s)})
		}
		used[string(s)] = true
	}
	// the recipient's keys come from the secret, the nonce, the nym and the
	// mailbox, as for every address made before
	mac := func(key []byte, data ...[]byte) []byte {
		h := hmac.New(sha256.New, key)
		h.Write(bytes.Join(data, nil))
		return h.Sum(nil)
	}
	sym := mac(tmp.Secret, p.Nonce, p.ReceiverPubKey, mailbox)
	if !bytes.Equal(p.ReceiverPubKey, pubOf(mac(tmp.Secret, p.Nonce, nym))) || !bytes.Equal(p.HMACHead, mac(sym, p.Nonce, p.ReceiverPubKey, p.EncNym)) ||
		bytes.Equal(ad.AddressKey, pubOf(p.Nonce)) {
		return bad("derivation", map[string]interface{}{"nonce": hex.EncodeToString(p.Nonce), "nym": hex.EncodeToString(nym)})
	}
	var hs [][]byte
	for i := 0; i < 2; i++ {
		h, secret, err := p.GetHeader()
		if err != nil {
			return bad("header", map[string]interface{}{"error": err.Error()})
		}
		n, s, err := tmp.GetPrivate(append([]byte{}, h...), mailbox)
		if err != nil || !bytes.Equal(n, nym) || !bytes.Equal(s, secret) {
			return bad("recipient", map[string]interface{}{"error": fmt.Sprint(err), "nym": hex.EncodeToString(n), "wanted": hex.EncodeToString(nym)})
		}
		if used[string(secret)] || len(secret) != 32 {
			return bad("secret-not-fresh", nil)
		}
		used[string(secret)] = true
		hs = append(hs, h)
		t.Eval(fmt.Sprintf("%d header %x", c, h[:8]))
		t.Count("headers")
	}
	t.Eval(fmt.Sprintf("%d address %x", c, ad.AddressKey[:8]))
	t.Count("addresses")
	damageHeader(t, rng, c, tmp, hs[0], mailbox, nym)
	return p
}

func damageHeader(t *mon.T, rng *rand.Rand, c int, tmp *nymaddr.AddressTemplate, h, mailbox, nym []byte) {
	_, secret, err := tmp.GetPrivate(append([]byte{}, h...), mailbox)
	t.Must(err, "header")
	try := func(kind string, tm *nymaddr.AddressTemplate, h, mb []byte) {
		var s []byte
		var err error
		t.NoPanic("header-crash/"+kind, map[string]interface{}{"header": hex.EncodeToString(h)}, func() { _, s, err = tm.GetPrivate(append([]byte{}, h...), mb) })
		if err == nil && bytes.Equal(s, secret) {
			t.Violation("header-accepted/"+kind, map[string]interface{}{"header": hex.EncodeToString(h)})
		}
		t.Eval(fmt.Sprintf("%d%s%x%x", c, kind, sha256.Sum256(h), mb))
		t.Count("header/" + kind)
	}
	other := *tmp
	other.Secret = append(append([]byte{}, tmp.Secret...), 1)
	try("other-secret", &other, h, mailbox)
	try("other-mailbox", tmp, h, append([]byte("x"), mailbox...))
	try("other-mailbox", tmp, h, mailbox[:len(mailbox)-1])
	var rh nymaddr.RelayHeader
	if _, err := asn1.Unmarshal(h, &rh); err != nil {
		t.Fatalf("relay header: %s", err)
	}
	enc := func(r nymaddr.RelayHeader) []byte {
		b, err := asn1.Marshal(r)
		t.Must(err, "relay header")
		return b
	}
	for i := 0; i < 10; i++ {
		r := rh
		flip := func(b []byte) []byte {
			o := append([]byte{}, b...)
			o[rng.Intn(len(o))] ^= byte(1 << uint(rng.Intn(8)))
			return o
		}
		// Only bit 255 of a public key has no meaning, so it is not the sender key
		// which is flipped here.
		kind := ""
		switch i {
		case 0:
			kind, r.Nonce = "nonce", flip(rh.Nonce)
		case 1:
			kind, r.ReceiverPubKey = "receiver-key", flip(rh.ReceiverPubKey)
		case 2:
			kind, r.EncNym = "nym", flip(rh.EncNym)
		case 3:
			kind, r.HMACHead = "mac", flip(rh.HMACHead)
		case 4:
			kind, r.SenderKey = "sender-key", pubOf(bs(rng, 32))
		case 5: // fields shifted into each other
			k := 1 + rng.Intn(31)
			all := append(append([]byte{}, rh.Nonce...), rh.ReceiverPubKey...)
			kind, r.Nonce, r.ReceiverPubKey = "shift-nonce", all[:k], all[k:]
		case 6:
			k := 33 + rng.Intn(30)
			all := append(append([]byte{}, rh.Nonce...), rh.ReceiverPubKey...)
			kind, r.Nonce, r.ReceiverPubKey = "shift-nonce", all[:k], all[k:]
		case 7:
			k := 1 + rng.Intn(31)
			all := append(append([]byte{}, rh.ReceiverPubKey...), rh.EncNym...)
			kind, r.ReceiverPubKey, r.EncNym = "shift-nym", all[:k], all[k:]
		case 8:
			kind, r.EncNym = "no-nym", nil
		case 9:
			kind, r.HMACHead = "short-mac", rh.HMACHead[:rng.Intn(32)]
		}
		try(kind, tmp, enc(r), mailbox)
	}
	for i := 0; i < 4; i++ {
		b := append([]byte{}, h...)
		try("cut", tmp, b[:rng.Intn(len(b))], mailbox)
		b[rng.Intn(12)] ^= byte(1 + rng.Intn(255))
		try("encoding", tmp, b, mailbox)
	}
}

func damageAddress(t *mon.T, rng *rand.Rand, c int, a []byte, u *nymaddr.Address, p *nymaddr.AddressPrivate, m *aMix, mixes []*aMix) {
	same := func(q *nymaddr.AddressPrivate) bool {
		return q != nil && (bytes.Equal(q.Address, p.Address) || bytes.Equal(q.ReceiverPubKey, p.ReceiverPubKey))
	}
	open := func(kind string, b []byte, k nymaddr.KeyFunc, legal bool) {
		t.NoPanic("address-crash/"+kind, map[string]interface{}{"address": hex.EncodeToString(b)}, func() {
			ad, err := nymaddr.ParseAddress(append([]byte{}, b...))
			if err != nil {
				return
			}
			q, err := ad.GetMixData(k)
			if err == nil && same(q) && !legal {
				t.Violation("address-accepted/"+kind, map[string]interface{}{"address": hex.EncodeToString(b)})
			}
		})
		t.Eval(fmt.Sprintf("%d%s%x", c, kind, sha256.Sum256(b)))
		t.Count("address/" + kind)
	}
	enc := func(x nymaddr.Address) []byte {
		b, err := asn1.Marshal(x)
		t.Must(err, "address")
		return b
	}
	for _, o := range mixes {
		if o != m {
			open("other-mix", a, o.keys, false)
			// a mix which uses its key for others' messages
			open("other-key", a, func(*[32]byte) *[32]byte { return arr(o.priv) }, false)
		}
	}
	for i := 0; i < 8; i++ {
		x := *u
		x.PrivateData = append([]byte{}, u.PrivateData...)
		kind := "private-bit"
		switch i {
		case 0, 1, 2:
			x.PrivateData[rng.Intn(len(x.PrivateData))] ^= 1 << uint(rng.Intn(8))
		case 3:
			kind, x.PrivateData = "private-cut", x.PrivateData[:rng.Intn(len(x.PrivateData))]
		case 4:
			kind, x.PrivateData = "private-longer", append(x.PrivateData, bs(rng, 1+rng.Intn(40))...)
		case 5:
			kind, x.AddressKey = "address-key", pubOf(bs(rng, 32))
		case 6:
			kind, x.AddressKey = "address-key-short", u.AddressKey[:rng.Intn(24)]
		case 7:
			kind, x.AddressKey = "address-key-zero", make([]byte, 32)
		}
		open(kind, enc(x), m.keys, false)
	}
	for i := 0; i < 6; i++ {
		b := append([]byte{}, a...)
		open("cut", b[:rng.Intn(len(b))], m.keys, false)
		b[rng.Intn(16)] ^= byte(1 + rng.Intn(255))
		open("encoding", b, m.keys, true)
		open("random", bs(rng, rng.Intn(300)), m.keys, false)
	}
}

// expiry: an address does not work after its end, whatever its public part says.
func expiry(t *mon.T, now int64) {
	for c := 0; c < t.N(40, 1000) && t.Violations() < 8; c++ {
		rng := t.Rand("expiry", c)
		m := newMix(rng, 0, now+1000000)
		ago := int64(10 + rng.Intn(100000))
		tmp := nymaddr.AddressTemplate{Secret: bs(rng, 64), MixCandidates: mixaddr.AddressList{m.adr}, Expire: now - ago, SingleUse: c%2 == 0}
		a, err := tmp.NewAddress([]byte("mailbox@001."), bs(rng, 32))
		if err != nil {
			t.Violation("expiry/new", map[string]interface{}{"error": err.Error()})
			return
		}
		if _, err := nymaddr.ParseAddress(a); err == nil {
			t.Violation("expired/parsed", map[string]interface{}{"seconds ago": ago})
		}
		var u nymaddr.Address
		asn1.Unmarshal(a, &u)
		if q, err := u.GetMixData(m.keys); err == nil {
			t.Violation("expired/opened", map[string]interface{}{"seconds ago": ago, "mailbox": string(q.Address), "what": "a mix opens an address which has expired"})
		}
		u.Expire = now + 100000
		b, _ := asn1.Marshal(u)
		if ad, err := nymaddr.ParseAddress(b); err == nil {
			if q, err := ad.GetMixData(m.keys); err == nil {
				t.Violation("expired/extended", map[string]interface{}{"seconds ago": ago, "mailbox": string(q.Address), "single use": q.SingleUse, "what": "a sender has extended an expired address"})
			}
		}
		t.Eval(fmt.Sprint("expiry", c))
		t.Count("expired")
	}
}

// distribution: all usable mixes are used.
func distribution(t *mon.T, now int64) {
	rng := t.Rand("dist")
	var list mixaddr.AddressList
	for i := 0; i < 5; i++ {
		list = append(list, newMix(rng, i, now+int64(i)*100000-100).adr)
	}
	n := map[string]int{}
	const runs = 400
	for i := 0; i < runs; i++ {
		tmp := nymaddr.AddressTemplate{Secret: []byte("s"), MixCandidates: list, Expire: now + 1000}
		a, err := tmp.NewAddress([]byte("mailbox@001."), []byte("nym"))
		t.Must(err, "address")
		ad, err := nymaddr.ParseAddress(a)
		t.Must(err, "address")
		n[string(ad.MixAddress)]++
		t.Count("mixes-drawn")
	}
	for i, m := range list {
		if i == 0 && n[m.Address] > 0 || i > 0 && n[m.Address] < runs/16 {
			t.Violation("distribution", map[string]interface{}{"mix": i, "of": runs, "chosen": n[m.Address]})
		}
	}
	t.Eval("distribution")
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}
