package kit

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"

	"golang.org/x/crypto/curve25519"
	"golang.org/x/crypto/hkdf"
	"golang.org/x/crypto/nacl/box"
)

// Knowing is an observer who knows all private keys which the parties ever had
// and derives the keys of messages as the protocol lays it down, with code of
// its own.
type Knowing struct {
	priv  map[string]*[32]byte // by public key
	ids   map[string]bool      // public keys of identities
	inits map[string]bool      // public keys of key init messages
	names map[string]string    // name by identity public key
	roots []root               // of the sessions seen
	// All is the number of root keys tried, Chained of sessions which follow
	// another one, First of those which do not.
	All, Chained, First int
}

type root struct {
	a, b string // session public keys
	ids  string
	key  []byte
}

// NewKnowing returns an observer of the parties.
func NewKnowing(parties []*Party) (*Knowing, error) {
	k := &Knowing{priv: map[string]*[32]byte{}, ids: map[string]bool{}, inits: map[string]bool{}, names: map[string]string{}}
	for _, p := range parties {
		id := p.UID.PubKey()
		k.add(id.PrivateKey32())
		k.ids[string(id.PublicKey32()[:])] = true
		k.names[string(id.PublicKey32()[:])] = p.ID
		ki, err := p.PrivKE()
		if err != nil {
			return nil, err
		}
		k.add(ki.PrivateKey32())
		k.inits[string(ki.PublicKey32()[:])] = true
	}
	return k, nil
}

func (k *Knowing) add(priv *[32]byte) {
	var pub [32]byte
	curve25519.ScalarBaseMult(&pub, priv)
	c := *priv
	k.priv[string(pub[:])] = &c
}

// Look takes the session keys which a party has.
func (k *Knowing) Look(p *Party) error {
	for _, s := range p.Ref.Keys {
		if s.Priv == "" {
			continue
		}
		b, err := base64.StdEncoding.DecodeString(s.Priv)
		if err != nil || len(b) != 32 {
			return fmt.Errorf("private session key %q", s.Priv)
		}
		var priv [32]byte
		copy(priv[:], b)
		k.add(&priv)
	}
	return nil
}

func pubOf(v interface{}) (string, error) {
	m, _ := v.(map[string]interface{})
	s, _ := m["PUBKEY"].(string)
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil || len(b) != 32 {
		return "", fmt.Errorf("public key %q", s)
	}
	return string(b), nil
}

func arr(s string) *[32]byte {
	var a [32]byte
	copy(a[:], s)
	return &a
}

// Read decrypts a message to the party to and tells whether its session
// follows another one.
func (k *Knowing) Read(wire []byte, to *Party) (content []byte, chained bool, err error) {
	raw, err := base64.StdEncoding.DecodeString(string(wire))
	if err != nil {
		return nil, false, err
	}
	ps, rest := Split(raw)
	if len(rest) != 0 || len(ps) != 6 {
		return nil, false, errors.New("not six packets")
	}
	// pre-header: version, ciphersuite, key
	ph := ps[0].Inner
	n := int(binary.BigEndian.Uint16(ph[2:]))
	eph := string(ph[4+n+2:])
	if len(eph) != 32 {
		return nil, false, errors.New("pre-header")
	}
	if _, known := k.priv[eph]; known {
		return nil, false, errors.New("the header key is a key which is used elsewhere")
	}
	// header
	id := to.UID.PubKey()
	var nonce [24]byte
	copy(nonce[:], ps[1].Inner)
	j, ok := box.Open(nil, ps[1].Inner[26:], &nonce, arr(eph), id.PrivateKey32())
	if !ok {
		return nil, false, errors.New("header does not open")
	}
	var h map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(j))
	d.UseNumber()
	if err := d.Decode(&h); err != nil {
		return nil, false, err
	}
	session, err := pubOf(h["SenderSessionPub"])
	if err != nil {
		return nil, false, err
	}
	sender, err := pubOf(h["SenderIdentityPub"])
	if err != nil {
		return nil, false, err
	}
	num, _ := h["SenderMessageCount"].(json.Number)
	count, err := num.Int64()
	if err != nil || count > 100000 {
		return nil, false, fmt.Errorf("message count %q", num)
	}
	if k.names[sender] == "" || h["SenderIdentity"] != k.names[sender] {
		return nil, false, errors.New("sender")
	}
	// the recipient's key
	temp := ""
	for pub := range k.priv {
		if base64.StdEncoding.EncodeToString(sha([]byte(pub))) == h["RecipientTempHash"] {
			temp = pub
		}
	}
	if temp == "" || k.priv[session] == nil {
		return nil, false, errors.New("session key which nobody has")
	}
	if k.ids[temp] || k.ids[session] {
		return nil, false, errors.New("session with the key of an identity")
	}
	from, rcpt := k.names[sender], to.ID
	ids := from + rcpt
	if rcpt < from {
		ids = rcpt + from
	}
	rid := string(id.PublicKey32()[:])
	try := func(rootKey []byte) bool {
		chain := rootKey
		for i := int64(0); i < count; i++ {
			chain = hmac512(chain, []byte("CHAIN"))[:32]
		}
		mk := hmac512(chain, append(append([]byte("MESSAGE"), sha([]byte(temp))...), sha([]byte(ids))...))
		keys := make([]byte, 64)
		io.ReadFull(hkdf.New(sha512.New, mk, nil, nil), keys)
		mac := hmac.New(sha512.New, keys[32:])
		for _, p := range ps[2:5] {
			mac.Write(p.head())
			mac.Write(p.Inner)
		}
		mac.Write(ps[5].head())
		if !bytes.Equal(mac.Sum(nil), ps[5].Inner) {
			return false
		}
		block, _ := aes.NewCipher(keys[:32])
		b := append(append([]byte(nil), ps[3].Inner...), ps[4].Inner...)
		stdcipher.NewCTR(block, ps[2].Inner).XORKeyStream(b, b)
		if len(b) < 5 {
			return false
		}
		l := int(binary.BigEndian.Uint16(b[1:]))
		if len(b) < 5+l {
			return false
		}
		content = append([]byte{}, b[5:5+l]...)
		return true
	}
	// sessions which are known
	for _, r := range k.roots {
		if r.ids == ids && (r.a == session && r.b == temp || r.a == temp && r.b == session) && try(r.key) {
			return content, false, nil
		}
	}
	derive := func(aID, aSession, bID, bSession string, prev []byte) []byte {
		master := make([]byte, 160)
		copy(master, x25519(k.priv[aID], arr(bSession)))
		copy(master[32:], x25519(k.priv[aSession], arr(bSession)))
		copy(master[64:], x25519(k.priv[aSession], arr(bID)))
		copy(master[96:], prev)
		key := make([]byte, 32)
		io.ReadFull(hkdf.New(sha512.New, master, nil, nil), key)
		k.All++
		return key
	}
	prevs := [][]byte{nil}
	for _, r := range k.roots {
		if r.ids == ids {
			prevs = append(prevs, sha(r.key))
		}
	}
	for i, prev := range prevs {
		for _, role := range [][4]string{{sender, session, rid, temp}, {rid, temp, sender, session}} {
			key := derive(role[0], role[1], role[2], role[3], prev)
			if !try(key) {
				continue
			}
			k.roots = append(k.roots, root{session, temp, ids, key})
			if i == 0 {
				k.First++
				if !k.inits[temp] && !k.inits[session] {
					return content, false, errors.New("a session which follows another one does not depend on it")
				}
				return content, false, nil
			}
			k.Chained++
			return content, true, nil
		}
	}
	return nil, false, errors.New("no key derived from the keys of the parties opens it")
}
