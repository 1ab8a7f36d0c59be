package kit

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"io"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/uid"
	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/nacl/box"
)

// Packet is one packet of the wire format.
type Packet struct {
	Type  uint8
	PLen  int // -1: length of Inner
	Count uint32
	Inner []byte
}

func (p *Packet) head() []byte {
	var b bytes.Buffer
	b.WriteByte(p.Type)
	l := p.PLen
	if l < 0 {
		l = len(p.Inner)
	}
	binary.Write(&b, binary.BigEndian, uint16(l))
	binary.Write(&b, binary.BigEndian, p.Count)
	return b.Bytes()
}

// Split splits a raw message into packets, the rest is what remains.
func Split(raw []byte) (ps []*Packet, rest []byte) {
	for len(raw) >= 7 {
		l := int(binary.BigEndian.Uint16(raw[1:3]))
		if len(raw) < 7+l {
			break
		}
		ps = append(ps, &Packet{raw[0], -1, binary.BigEndian.Uint32(raw[3:7]), append([]byte(nil), raw[7:7+l]...)})
		raw = raw[7+l:]
	}
	return ps, raw
}

// Join encodes packets.
func Join(ps []*Packet) []byte {
	var b bytes.Buffer
	for _, p := range ps {
		b.Write(p.head())
		b.Write(p.Inner)
	}
	return b.Bytes()
}

// Forge is a hostile sender: it speaks the wire format but chooses every
// field.
type Forge struct {
	From      *uid.Message  // the keys the forger really has
	Session   *uid.KeyEntry // session key of the forger, with private key
	To        *uid.Message
	ToKI      *uid.KeyEntry // KeyInit entry of the recipient
	Identity  string        // sender identity used for key derivation
	Recipient string
	Content   []byte
	SigKey    ed25519.PrivateKey // nil: unsigned
	Sig       []byte             // overrides the signature
	Count     uint64
	Nym       string
	Header    func(h map[string]interface{})
	HeaderRaw []byte // replaces the header JSON
	Packets   func(ps []*Packet) []*Packet
	InnerType *uint8
	BadMAC    bool
}

// NewForge returns a forger which sends from from (with its private keys) to
// the party to and would be accepted.
func NewForge(from, to *Party) (*Forge, error) {
	f := &Forge{From: from.UID, To: to.UID, ToKI: to.KE, Identity: from.ID, Recipient: to.ID, Nym: "forged-nym"}
	var ke uid.KeyEntry
	if err := ke.InitDHKey(cipher.RandReader); err != nil {
		return nil, err
	}
	f.Session = &ke
	return f, nil
}

func x25519(priv, pub *[32]byte) []byte {
	var out [32]byte
	curve25519.ScalarMult(&out, priv, pub)
	return out[:]
}

func hmac512(key, b []byte) []byte {
	m := hmac.New(sha512.New, key)
	m.Write(b)
	return m.Sum(nil)
}

func sha(b []byte) []byte {
	s := sha512.Sum512(b)
	return s[:]
}

// messageKey derives the message key with the given index from the root key.
func (f *Forge) messageKey() []byte {
	idPriv := f.From.PubKey().PrivateKey32()
	sPriv := f.Session.PrivateKey32()
	kiPub := f.ToKI.PublicKey32()
	master := make([]byte, 32*3+64)
	copy(master, x25519(idPriv, kiPub))
	copy(master[32:], x25519(sPriv, kiPub))
	copy(master[64:], x25519(sPriv, f.To.PubKey().PublicKey32()))
	root := make([]byte, 32)
	io.ReadFull(hkdf.New(sha512.New, master, nil, nil), root)
	ids := f.Identity + f.Recipient
	if f.Recipient < f.Identity {
		ids = f.Recipient + f.Identity
	}
	fix := sha([]byte(ids))
	chain := root
	for i := uint64(0); i < f.Count && i < 5000; i++ {
		chain = hmac512(chain, []byte("CHAIN"))[:32]
	}
	b := append([]byte("MESSAGE"), sha(kiPub[:])...)
	return hmac512(chain, append(b, fix...))
}

// Build makes the message.
func (f *Forge) Build() ([]byte, error) {
	var eph struct{ pub, priv [32]byte }
	io.ReadFull(cipher.RandReader, eph.priv[:])
	curve25519.ScalarBaseMult(&eph.pub, &eph.priv)
	// pre-header
	var ph bytes.Buffer
	binary.Write(&ph, binary.BigEndian, uint16(msg.Version))
	binary.Write(&ph, binary.BigEndian, uint16(len(msg.DefaultCiphersuite)))
	ph.WriteString(msg.DefaultCiphersuite)
	binary.Write(&ph, binary.BigEndian, uint16(32))
	ph.Write(eph.pub[:])
	// header
	h := map[string]interface{}{
		"Ciphersuite":                 uid.DefaultCiphersuite,
		"RecipientPubHash":            f.To.PubHash(),
		"RecipientTempHash":           f.ToKI.HASH,
		"SenderIdentity":              f.Identity,
		"SenderSessionPub":            *f.Session,
		"SenderIdentityPubHash":       f.From.PubHash(),
		"SenderIdentityPub":           *f.From.PubKey(),
		"NextSenderSessionPub":        nil,
		"NextRecipientSessionPubSeen": nil,
		"NymAddress":                  f.Nym,
		"MaxDelay":                    0,
		"SenderSessionCount":          0,
		"SenderMessageCount":          f.Count,
		"SenderUID":                   string(f.From.JSON()),
		"SenderLastKeychainHash":      hashchain.TestEntry,
		"Status":                      0,
		"Padding":                     "",
	}
	if f.Header != nil {
		f.Header(h)
	}
	if h["Padding"] == "" {
		jsn, err := json.Marshal(h)
		if err != nil {
			return nil, err
		}
		if n := 7168 - box.Overhead - len(jsn); n > 0 {
			pad := make([]byte, n/2+1)
			io.ReadFull(cipher.RandReader, pad)
			h["Padding"] = hex.EncodeToString(pad)[:n]
		}
	}
	jsn, err := json.Marshal(h)
	if err != nil {
		return nil, err
	}
	if f.HeaderRaw != nil {
		jsn = f.HeaderRaw
	}
	var nonce [24]byte
	io.ReadFull(cipher.RandReader, nonce[:])
	var hp bytes.Buffer
	hp.Write(nonce[:])
	enc := box.Seal(nil, jsn, &nonce, f.To.PubKey().PublicKey32(), &eph.priv)
	binary.Write(&hp, binary.BigEndian, uint16(len(enc)))
	hp.Write(enc)
	// keys
	keys := make([]byte, 64)
	io.ReadFull(hkdf.New(sha512.New, f.messageKey(), nil, nil), keys)
	iv := make([]byte, 16)
	io.ReadFull(cipher.RandReader, iv)
	block, err := aes.NewCipher(keys[:32])
	if err != nil {
		return nil, err
	}
	stream := stdcipher.NewCTR(block, iv)
	inner := func(typ uint8, more uint8, c []byte) []byte {
		b := []byte{typ, byte(len(c) >> 8), byte(len(c)), more, 0}
		b = append(b, c...)
		stream.XORKeyStream(b, b)
		return b
	}
	ps := []*Packet{{1, -1, 0, ph.Bytes()}, {2, -1, 1, hp.Bytes()}, {4, -1, 2, iv}}
	typ := uint8(2)
	signed := f.SigKey != nil || f.Sig != nil
	if signed {
		typ = 6
	}
	if f.InnerType != nil {
		typ = *f.InnerType
	}
	ps = append(ps, &Packet{16, -1, 3, inner(typ, 0, f.Content)})
	if signed {
		sig := f.Sig
		if sig == nil {
			sig = ed25519.Sign(f.SigKey, sha(f.Content))
		}
		b := []byte{8, byte(len(sig) >> 8), byte(len(sig)), 1, 0}
		b = append(b, sig...)
		pad := make([]byte, msg.MaxContentLength-len(f.Content))
		b = append(b, 1, byte(len(pad)>>8), byte(len(pad)), 0, 0)
		b = append(b, pad...)
		stream.XORKeyStream(b, b)
		ps = append(ps, &Packet{16, -1, 4, b})
	} else {
		pad := make([]byte, msg.MaxContentLength+76-12+5-len(f.Content))
		ps = append(ps, &Packet{16, -1, 4, inner(1, 0, pad)})
	}
	mac := hmac.New(sha512.New, keys[32:])
	for _, p := range ps[2:] {
		mac.Write(p.head())
		mac.Write(p.Inner)
	}
	mp := &Packet{8, 64, 5, nil}
	mac.Write(mp.head())
	mp.Inner = mac.Sum(nil)
	if f.BadMAC {
		mp.Inner[0] ^= 1
	}
	ps = append(ps, mp)
	if f.Packets != nil {
		ps = f.Packets(ps)
	}
	return []byte(base64.Encode(Join(ps))), nil
}
