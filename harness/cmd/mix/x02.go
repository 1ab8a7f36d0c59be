package main

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math"
	"math/rand"
	"time"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/ronperry/cryptoedge/lioness"
	"verif/harness/mon"
)

var x02 = &mon.Prop{
	Level: "exploration",
	Rule: "messages of all sizes around the limits sent through chains of mixes to nym addresses, with every part compared at every hop; each encrypted message and relayed message altered, cut, given to other mixes and recipients; replays; encrypted messages with hostile headers; " +
		"one evaluation is one message which was judged at one hop",
	MinEvents: 3000,
	Run:       runX02,
}

// seal encrypts for a mix, like a client which is not the one tested.
func seal(rng *rand.Rand, mixPub, plain []byte) []byte {
	priv, nonce := bs(rng, 32), bs(rng, 32)
	mac := hmac.New(sha256.New, dh(priv, mixPub))
	mac.Write(nonce)
	b, _ := aes.NewCipher(mac.Sum(nil))
	g, _ := cipher.NewGCM(b)
	return bytes.Join([][]byte{mixPub, pubOf(priv), nonce, g.Seal(nil, nonce[:12], plain, nil)}, nil)
}

func hash(b []byte) []byte { h := sha256.Sum256(b); return h[:] }

func runX02(t *mon.T) {
	now := time.Now().Unix()
	for c := 0; c < t.N(80, 3000) && t.Violations() < 8; c++ {
		rng := t.Rand("x02", c)
		chain(t, rng, c, now)
	}
	for c := 0; c < t.N(1500, 60000) && t.Violations() < 12; c++ {
		hostileMix(t, t.Rand("hostile", c), c, now)
	}
}

// chain sends a message over some forwarding mixes to a relaying one and its
// recipient.
func chain(t *mon.T, rng *rand.Rand, c int, now int64) {
	hops := c % 4
	m := newMix(rng, 9, now+100000)
	mailbox := []byte(hex.EncodeToString(bs(rng, 32)) + "@001.")
	nym := bs(rng, 32)
	tmp := nymaddr.AddressTemplate{Secret: bs(rng, 64), MixCandidates: mixaddr.AddressList{m.adr}, Expire: now + 1000 + int64(rng.Intn(90000)),
		SingleUse: rng.Intn(2) == 0, MinDelay: int32(rng.Intn(100)), MaxDelay: int32(rng.Intn(10000))}
	na, err := tmp.NewAddress(mailbox, nym)
	t.Must(err, "address")
	size := []int{4096, 4097, 65536, 65535, 4095, 65537, 10000, 40960}[rng.Intn(8)]
	if hops > 0 && rng.Intn(3) == 0 {
		size = []int{4096, 30000}[rng.Intn(2)]
	}
	msg := bs(rng, size)
	legal := size >= 4096 && size <= 65536
	d := map[string]interface{}{"hops": hops, "size": size, "single use": tmp.SingleUse}
	t.Case(d)
	bad := func(key string, err interface{}) {
		d["detail"] = fmt.Sprint(err)
		t.Violation(key, d)
	}
	token := bs(rng, []int{0, 1, 2, 100, 3000}[rng.Intn(5)])
	if len(token) == 1 {
		token[0] |= 1 // a single zero stands for none
	}
	h := mixcrypt.ClientMixHeader{SenderMinDelay: int32(rng.Uint32()), SenderMaxDelay: int32(rng.Uint32()), Token: token}
	if rng.Intn(10) == 0 {
		h.SenderMinDelay, h.SenderMaxDelay = math.MinInt32, math.MaxInt32
	}
	savedMsg, savedNA := hash(msg), hash(na)
	enc, to, err := h.NewRelayMessage(na, msg)
	if err != nil || to != m.adr.Address {
		bad("new-relay", fmt.Sprint(to, err))
		return
	}
	if !bytes.Equal(savedMsg, hash(msg)) || !bytes.Equal(savedNA, hash(na)) {
		bad("arguments-changed", nil)
	}
	revoke := h.RevokeID
	if len(revoke) != 32 {
		bad("revoke-id", hex.EncodeToString(revoke))
	}
	if shared(enc[:200], msg[:200], 8) || bytes.Contains(enc, nym) || bytes.Contains(enc, mailbox) || len(token) > 8 && bytes.Contains(enc, token) || bytes.Contains(enc, na[:40]) || bytes.Contains(enc, revoke) {
		bad("readable", "the encrypted message contains readable parts")
	}
	// forwarding mixes in reverse order
	type hop struct {
		m   *aMix
		to  string
		tok []byte
		hd  mixcrypt.ClientMixHeader
		n   int
	}
	var via []hop
	out, next := enc, to
	for i := 0; i < hops; i++ {
		f := newMix(rng, i, now+100000)
		fh := mixcrypt.ClientMixHeader{SenderMinDelay: int32(rng.Uint32()), SenderMaxDelay: int32(rng.Uint32()), Token: bs(rng, rng.Intn(3)*50)}
		o, n, err := fh.NewForwardMessage(next, arr(f.adr.Pubkey), out)
		if err != nil || n != next {
			bad("new-forward", fmt.Sprint(n, err))
			return
		}
		via = append(via, hop{f, next, fh.Token, fh, len(out)})
		// the mix which is to be used first is the caller's business
		out, next = o, f.adr.Address
	}
	for i := hops - 1; i >= 0; i-- {
		v := via[i]
		in := out
		r, err := mixcrypt.ReceiveMessage(v.m.keys, append([]byte{}, in...))
		inner := out
		if fits := v.n >= 1024 && v.n <= 65536; fits != (err == nil) {
			bad("forward/receive", fmt.Sprint(v.n, err))
			return
		}
		if err != nil {
			t.Eval(fmt.Sprint(c, "forward", i, "refused"))
			t.Count("forward-refused")
			return
		}
		t.Eval(fmt.Sprint(c, "forward", i))
		t.Count("forwarded")
		o, n, err := r.Send()
		if err != nil || n != v.to || string(r.MixHeader.Address) != v.to {
			bad("forward/send", fmt.Sprint(n, err))
			return
		}
		if r.MixHeader.MessageType != mixcrypt.MessageTypeForward || !bytes.Equal(r.MixHeader.Token, v.tok) || r.MixHeader.SenderMinDelay != v.hd.SenderMinDelay || r.MixHeader.SenderMaxDelay != v.hd.SenderMaxDelay || len(r.MixHeader.RevokeID) != 0 {
			bad("forward/header", fmt.Sprintf("%+v", r.MixHeader))
		}
		if r.NymAddress != nil || r.NymAddressPrivate != nil || len(r.Message) > 65536 || len(r.Message) < 1024 {
			bad("forward/contents", nil)
		}
		if len(r.UniqueTest) != 1 || !bytes.Equal(r.UniqueTest[0].Hash, hash(r.Message[:256])) || r.UniqueTest[0].Expire < now+100000 {
			bad("forward/unique", fmt.Sprintf("%+v", r.UniqueTest))
		}
		tamper(t, rng, c, v.m, inner)
		out = o
	}
	if !bytes.Equal(out, enc) {
		bad("forward/message", "the message which arrives is another one")
		return
	}
	// the relaying mix
	r, err := mixcrypt.ReceiveMessage(m.keys, append([]byte{}, enc...))
	t.Eval(fmt.Sprint(c, "relay"))
	if !legal {
		if err == nil {
			bad("relay/size", "accepted")
		}
		t.Count("relay-refused")
		return
	}
	if err != nil {
		bad("relay/receive", err)
		return
	}
	t.Count("relayed")
	if !bytes.Equal(r.Message, msg) || r.MixHeader.MessageType != mixcrypt.MessageTypeRelay || !bytes.Equal(r.MixHeader.Token, token) || !bytes.Equal(r.MixHeader.RevokeID, revoke) ||
		r.MixHeader.SenderMinDelay != h.SenderMinDelay || r.MixHeader.SenderMaxDelay != h.SenderMaxDelay || !bytes.Equal(r.MixHeader.Address, na) {
		bad("relay/contents", fmt.Sprintf("%+v", r.MixHeader))
		return
	}
	// replays are recognisable, as long as the address works
	un := r.UniqueTest
	want := 1
	if tmp.SingleUse {
		want = 2
	}
	if len(un) != want || !bytes.Equal(un[0].Hash, hash(msg[:256])) {
		bad("relay/unique", fmt.Sprintf("%+v", un))
	}
	for _, u := range un {
		if u.Expire < tmp.Expire {
			bad("relay/unique-expire", fmt.Sprintf("%+v", un))
		}
	}
	h2 := mixcrypt.ClientMixHeader{Token: token}
	msg2 := bs(rng, 4096)
	enc2, _, err := h2.NewRelayMessage(na, msg2)
	t.Must(err, "second message")
	r2, err := mixcrypt.ReceiveMessage(m.keys, enc2)
	if err != nil {
		bad("relay/second", err)
		return
	}
	if bytes.Equal(r2.UniqueTest[0].Hash, un[0].Hash) {
		bad("relay/unique-same", "two different messages have the same test")
	}
	if tmp.SingleUse && (len(r2.UniqueTest) < 2 || !bytes.Equal(r2.UniqueTest[1].Hash, un[1].Hash)) {
		bad("relay/single-use", "the second use of an address is not recognised")
	}
	// also when the sender has changed the public part of the address
	var pub nymaddr.Address
	asn1.Unmarshal(na, &pub)
	pub.SingleUse, pub.Expire = !pub.SingleUse, pub.Expire+50000
	na3, _ := asn1.Marshal(pub)
	h3 := mixcrypt.ClientMixHeader{Token: token}
	enc3, _, err := h3.NewRelayMessage(na3, msg2)
	t.Must(err, "third message")
	if r3, err := mixcrypt.ReceiveMessage(m.keys, enc3); err == nil {
		if len(r3.UniqueTest) != want || tmp.SingleUse && (!bytes.Equal(r3.UniqueTest[1].Hash, un[1].Hash) || r3.UniqueTest[1].Expire < tmp.Expire) {
			bad("relay/single-use-changed", fmt.Sprintf("%+v", r3.UniqueTest))
		}
		t.Count("public-part-changed")
	}
	if bytes.Equal(h2.RevokeID, revoke) {
		bad("revoke-id-same", nil)
	}
	tamper(t, rng, c, m, enc)
	relayed, box, err := r.Send()
	if err != nil || box != string(mailbox)+mixcrypt.MuteSystemDomain {
		bad("relay/send", fmt.Sprint(box, err))
		return
	}
	if shared(relayed[:600], enc[:600], 12) || bytes.Contains(relayed, nym) || shared(relayed[300:600], msg[:300], 8) {
		bad("relay/linkable", "the relayed message has bytes in common with the one received")
	}
	relayed2, _, err := r.Send()
	if err != nil || shared(relayed[len(relayed)-300:], relayed2[len(relayed2)-300:], 8) {
		bad("relay/not-fresh", err)
	}
	// the recipient
	dec, n, err := mixcrypt.ReceiveFromMix(tmp, mailbox, append([]byte{}, relayed...))
	if err != nil || !bytes.Equal(dec, msg) || !bytes.Equal(n, nym) {
		bad("recipient", err)
		return
	}
	t.Eval(fmt.Sprint(c, "recipient"))
	t.Count("received")
	other := tmp
	other.Secret = bs(rng, 64)
	damaged := func(kind string, tm nymaddr.AddressTemplate, box, b []byte) {
		t.NoPanic("recipient-crash/"+kind, map[string]interface{}{"length": len(b), "start": hex.EncodeToString(b[:min(len(b), 300)])}, func() {
			if dec, _, err := mixcrypt.ReceiveFromMix(tm, box, append([]byte{}, b...)); err == nil {
				bad("recipient-accepts/"+kind, fmt.Sprint(bytes.Equal(dec, msg)))
			}
		})
		t.Eval(fmt.Sprintf("%d%s%x", c, kind, hash(b)))
		t.Count("recipient/" + kind)
	}
	damaged("other-secret", other, mailbox, relayed)
	damaged("other-mailbox", tmp, append([]byte("a"), mailbox...), relayed)
	hl := int(binary.BigEndian.Uint16(relayed))
	for i := 0; i < 12; i++ {
		b := append([]byte{}, relayed...)
		switch i % 6 {
		case 0:
			// The start of the header is its encoding; the sender key has a bit
			// without a meaning, but the header is the nonce.
			b[2+rng.Intn(hl)] ^= 1 << uint(rng.Intn(8))
			damaged("header-bit", tmp, mailbox, b)
		case 1:
			b[2+hl+rng.Intn(len(b)-2-hl)] ^= 1 << uint(rng.Intn(8))
			damaged("body-bit", tmp, mailbox, b)
		case 2:
			damaged("cut", tmp, mailbox, b[:rng.Intn(len(b))])
		case 3:
			damaged("longer", tmp, mailbox, append(b, bs(rng, 1+rng.Intn(30))...))
		case 4:
			binary.BigEndian.PutUint16(b, uint16([]int{0, 1, hl - 1, hl + 1, 65535, rng.Intn(65536)}[rng.Intn(6)]))
			if int(binary.BigEndian.Uint16(b)) != hl {
				damaged("length", tmp, mailbox, b)
			}
		case 5:
			damaged("short", tmp, mailbox, b[:rng.Intn(4)])
		}
	}
	// a message put into the header of another one
	if hl2 := int(binary.BigEndian.Uint16(relayed2)); hl2 == hl {
		damaged("exchanged", tmp, mailbox, append(append([]byte{}, relayed2[:2+hl]...), relayed[2+hl:]...))
	}
	// the same, as the programs do it
	in := mixclient.MessageInput{SenderMinDelay: h.SenderMinDelay, SenderMaxDelay: h.SenderMaxDelay, Token: token, NymAddress: na, Message: msg, SMTPPort: 25, SmartHost: "h", CACert: []byte("ca")}
	mo := in.Create()
	if mo.Error != nil || !mo.Resend || mo.To != m.adr.Address {
		bad("create", fmt.Sprintf("%+v", mo.Error))
		return
	}
	body, err := mixclient.ReadMail(mo.Message)
	if err != nil {
		bad("create/mail", err)
		return
	}
	r, err = mixcrypt.ReceiveMessage(m.keys, body)
	if err != nil || !bytes.Equal(r.Message, msg) || !bytes.Equal(r.MixHeader.RevokeID, mo.RevokeID) || len(mo.RevokeID) != 32 || !bytes.Equal(r.MixHeader.Token, token) {
		bad("create/receive", err)
		return
	}
	t.Eval(fmt.Sprint(c, "create"))
	t.Count("created")
}

// tamper: a mix accepts a message only as it was sent, and only with its key.
func tamper(t *mon.T, rng *rand.Rand, c int, m *aMix, enc []byte) {
	try := func(kind string, k mixcrypt.KeyFunc, b []byte) {
		t.NoPanic("mix-crash/"+kind, map[string]interface{}{"length": len(b)}, func() {
			if _, err := mixcrypt.ReceiveMessage(k, append([]byte{}, b...)); err == nil {
				t.Violation("mix-accepts/"+kind, map[string]interface{}{"length": len(b)})
			}
		})
		t.Eval(fmt.Sprintf("%d%s%x", c, kind, hash(b)))
		t.Count("mix/" + kind)
	}
	o := newMix(rng, 77, 0)
	try("other-mix", o.keys, enc)
	try("other-key", func(*[32]byte) *[32]byte { return arr(o.priv) }, enc)
	for i := 0; i < 8; i++ {
		b := append([]byte{}, enc...)
		switch i {
		case 0:
			b[rng.Intn(31)] ^= 1 << uint(rng.Intn(8))
			try("mix-key-bit", m.keys, b)
		case 1:
			b[32+rng.Intn(31)] ^= 1 << uint(rng.Intn(8))
			try("sender-key-bit", m.keys, b)
		case 2:
			b[64+rng.Intn(32)] ^= 1 << uint(rng.Intn(8))
			try("nonce-bit", m.keys, b)
		case 3, 4:
			b[96+rng.Intn(len(b)-96)] ^= 1 << uint(rng.Intn(8))
			try("body-bit", m.keys, b)
		case 5:
			try("cut", m.keys, b[:rng.Intn(len(b))])
		case 6:
			try("short", m.keys, b[:rng.Intn(130)])
		case 7:
			try("longer", m.keys, append(b, bs(rng, 1+rng.Intn(20))...))
		}
	}
}

type hdr struct {
	MessageType                    int32
	SenderMinDelay, SenderMaxDelay int32
	Token, Address, RevokeID       []byte
}

// hostileMix sends encrypted messages with unusual contents to a mix.
func hostileMix(t *mon.T, rng *rand.Rand, c int, now int64) {
	m := newMix(rng, 1, now+100000)
	tmp := nymaddr.AddressTemplate{Secret: bs(rng, 64), MixCandidates: mixaddr.AddressList{m.adr}, Expire: now + 1000, SingleUse: true}
	na, err := tmp.NewAddress([]byte("mailbox@001."), bs(rng, 32))
	t.Must(err, "address")
	body := bs(rng, []int{0, 1, 255, 256, 257, 1023, 1024, 4095, 4096, 65536, 65537}[rng.Intn(11)])
	h := hdr{MessageType: int32([]int{1, 2, 2, 0, 3, -1, 1 << 30}[rng.Intn(7)]), Token: bs(rng, 3), Address: na, RevokeID: bs(rng, 32)}
	kind := ""
	legal := false
	var plain []byte
	withLen := func(n int, d []byte) []byte {
		return append([]byte{byte(n >> 8), byte(n)}, d...)
	}
	enc := func() []byte {
		b, err := asn1.Marshal(h)
		t.Must(err, "header")
		return b
	}
	switch c % 12 {
	case 0:
		kind = "body-size"
		legal = true
	case 1:
		kind = "no-token"
		h.Token = nil
		legal = true
	case 2:
		kind = "no-revoke-id"
		h.RevokeID = nil
		legal = true
	case 3:
		kind = "length"
		n := []int{65535, 65534, 65533, 0, 1, 2, 32767, 32768, len(enc()) - 1, len(enc()) + 1}[rng.Intn(10)]
		plain = withLen(n, append(enc(), body...))
	case 4:
		kind = "long-length"
		// as long as the length says
		n := []int{65535, 65534, 65533, 65000}[rng.Intn(4)]
		plain = withLen(n, append(enc(), bs(rng, 70000)...))
	case 5:
		kind = "tiny"
		plain = bs(rng, 1+rng.Intn(5))
	case 6:
		kind = "random-header"
		d := bs(rng, rng.Intn(300))
		plain = append(withLen(len(d), d), body...)
	case 7:
		kind = "flipped-header"
		d := enc()
		for i := 0; i < 1+rng.Intn(3); i++ {
			d[rng.Intn(len(d))] ^= byte(1 + rng.Intn(255))
		}
		plain = append(withLen(len(d), d), body...)
		legal = true
	case 8:
		kind = "address-cut"
		h.Address = na[:rng.Intn(len(na))]
		h.MessageType = 2
	case 9:
		kind = "address-random"
		h.Address = bs(rng, rng.Intn(300))
		h.MessageType = 2
	case 10:
		kind = "address-fields"
		var u nymaddr.Address
		asn1.Unmarshal(na, &u)
		switch rng.Intn(5) {
		case 0:
			u.PrivateData = nil
		case 1:
			u.PrivateData = bs(rng, rng.Intn(70))
		case 2:
			u.AddressKey = nil
		case 3:
			u.MixPubKey = nil
		case 4:
			u.AddressKey = make([]byte, 32)
		}
		h.Address, _ = asn1.Marshal(u)
		h.MessageType = 2
	case 11:
		kind = "private-fields"
		// a nym address made by somebody who does not follow the rules
		p := nymaddr.AddressPrivate{Address: bs(rng, rng.Intn(50)), Expire: now + 1000, Nonce: bs(rng, rng.Intn(40)), ReceiverPubKey: bs(rng, rng.Intn(40)), EncNym: bs(rng, rng.Intn(40)), HMACHead: bs(rng, rng.Intn(40)), System: int32(rng.Intn(3)), SingleUse: rng.Intn(2) == 0}
		h.Address = forgeAddress(t, rng, m, p)
		h.MessageType = 2
		legal = true
	}
	if plain == nil {
		d := enc()
		plain = append(withLen(len(d), d), body...)
	}
	info := map[string]interface{}{"kind": kind, "type": h.MessageType, "body": len(body), "start": hex.EncodeToString(plain[:min(len(plain), 400)])}
	t.Case(info)
	t.NoPanic("hostile-crash/"+kind, info, func() {
		r, err := mixcrypt.ReceiveMessage(m.keys, seal(rng, m.adr.Pubkey, plain))
		if err != nil {
			t.Count("hostile-refused")
			if kind == "body-size" && (h.MessageType == 1 && len(body) >= 1024 && len(body) <= 65536 || h.MessageType == 2 && len(body) >= 4096 && len(body) <= 65536) {
				info["error"] = err.Error()
				t.Violation("hostile-refused/"+kind, info)
			}
			return
		}
		t.Count("hostile-accepted/" + kind)
		lo := 1024
		if r.MixHeader.MessageType == 2 {
			lo = 4096
		}
		if r.MixHeader.MessageType != 1 && r.MixHeader.MessageType != 2 || len(r.Message) < lo || len(r.Message) > 65536 || !legal && kind != "length" && kind != "random-header" && kind != "long-length" {
			info["accepted type"], info["length"] = r.MixHeader.MessageType, len(r.Message)
			t.Violation("hostile-accepted/"+kind, info)
		}
		if len(r.UniqueTest) == 0 || r.MixHeader.MessageType == 2 && r.NymAddressPrivate.SingleUse && len(r.UniqueTest) < 2 {
			t.Violation("hostile-unique/"+kind, info)
		}
		for i := 0; i < 2; i++ {
			r.Send()
		}
	})
	t.Eval(fmt.Sprint(kind, c))
	t.Count("hostile/" + kind)
}

// forgeAddress makes a nym address with any private part.
func forgeAddress(t *mon.T, rng *rand.Rand, m *aMix, p nymaddr.AddressPrivate) []byte {
	priv := bs(rng, 32)
	b, err := asn1.Marshal(p)
	t.Must(err, "private part")
	b = lionessEncrypt(t, dh(priv, m.adr.Pubkey), b)
	a, err := asn1.Marshal(nymaddr.Address{MixAddress: []byte(m.adr.Address), Expire: p.Expire, MixPubKey: m.adr.Pubkey, AddressKey: pubOf(priv), PrivateData: b})
	t.Must(err, "address")
	return a
}

func lionessEncrypt(t *mon.T, key, b []byte) []byte {
	l, err := lioness.New(key)
	t.Must(err, "lioness")
	b, err = l.Encrypt(b)
	if err != nil {
		return nil
	}
	return b
}

func mixReceive(m *aMix, b []byte) (*mixcrypt.ReceiveStruct, error) {
	return mixcrypt.ReceiveMessage(m.keys, b)
}
