package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	"sync"
	"time"

	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/serviceguard/common/types"
	"github.com/ronperry/cryptoedge/eccutil"
	"github.com/ronperry/cryptoedge/jjm"
	"verif/harness/mon"
)

var p256 = elliptic.P256()

// tokenW is a token on the wire, as the verifier of the harness reads it.
type tokenW struct {
	KeyID []byte
	Flag  bool
	Nonce []byte
	Owner []byte

	PointRX []byte
	PointRY []byte
	ScalarS []byte
	ScalarR []byte
}

func parseToken(b []byte) (*tokenW, error) {
	w := new(tokenW)
	_, err := asn1.Unmarshal(b, w)
	return w, err
}

func (w *tokenW) enc(t *mon.T) []byte {
	b, err := asn1.Marshal(*w)
	t.Must(err, "marshal token")
	return b
}

func (w *tokenW) hash() []byte {
	var b []byte
	b = append(b, w.KeyID...)
	if w.Flag {
		b = append(b, 1)
	} else {
		b = append(b, 0)
	}
	b = append(b, w.Nonce...)
	b = append(b, w.Owner...)
	h := sha256.Sum256(b)
	return h[:]
}

// signed is the message which is signed.
func (w *tokenW) signed() []byte {
	h := sha256.Sum256(w.hash())
	return h[:]
}

func (w *tokenW) owner() *[32]byte {
	if !w.Flag {
		return nil
	}
	var o [32]byte
	copy(o[:], w.Owner)
	return &o
}

// wellFormed tells whether all fields have the lengths which they must have.
func (w *tokenW) wellFormed() bool {
	return len(w.KeyID) == 32 && len(w.Nonce) == 16 && len(w.Owner) == 32
}

// signedBy verifies the signature independently: m*P == s*G + r*R.
func (w *tokenW) signedBy(x, y *big.Int) bool {
	rx, ry := new(big.Int).SetBytes(w.PointRX), new(big.Int).SetBytes(w.PointRY)
	if !p256.IsOnCurve(rx, ry) || !p256.IsOnCurve(x, y) {
		return false
	}
	red := func(b []byte) []byte {
		v := new(big.Int).SetBytes(b)
		return v.Mod(v, p256.Params().N).Bytes()
	}
	lx, ly := p256.ScalarMult(x, y, red(w.signed()))
	ax, ay := p256.ScalarBaseMult(red(w.ScalarS))
	bx, by := p256.ScalarMult(rx, ry, red(w.ScalarR))
	sx, sy := p256.Add(ax, ay, bx, by)
	return lx.Cmp(sx) == 0 && ly.Cmp(sy) == 0
}

// pubW is a public key of an issuer on the wire.
type pubW struct {
	KeyID                  []byte
	PublicKeyX, PublicKeyY []byte
	Expire                 int64
	Usage                  string
	Signer                 []byte
	Signature              []byte
}

func (p *pubW) enc(t *mon.T) []byte {
	b, err := asn1.Marshal(*p)
	t.Must(err, "marshal key")
	return b
}

func (p *pubW) calcID() []byte {
	var b []byte
	b = append(b, p.PublicKeyX...)
	b = append(b, p.PublicKeyY...)
	e := make([]byte, 8)
	binary.BigEndian.PutUint64(e, uint64(p.Expire))
	b = append(b, e...)
	b = append(b, ":"+p.Usage+":"...)
	b = append(b, p.Signer...)
	h := sha256.Sum256(b)
	return h[:]
}

// keyPair is an issuer's key for tokens of one usage.
type keyPair struct {
	pubW
	id   [32]byte
	x, y *big.Int
	priv []byte
	enc  []byte // the marshalled public key
	by   *issuer
}

func (k *keyPair) point() *eccutil.Point { return eccutil.NewPoint(k.x, k.y) }

type paramRec struct {
	key    *keyPair
	server jjm.BlindingParamServer
	used   string // hash of the request which used it
}

// issuer is a service guard: it signs keys and issues tokens.
type issuer struct {
	t    *mon.T
	pub  [32]byte
	priv ed25519.PrivateKey

	mu      sync.Mutex
	keys    map[[32]byte]*keyPair
	current map[string]*keyPair // by usage
	params  map[string]*paramRec
	spent   map[string]string // token hash -> request hash
	replies map[string][2][]byte
	requests,
	repeats int
}

var curve = eccutil.SetCurve(elliptic.P256, crand.Reader, eccutil.Sha1Hash)

func newIssuer(t *mon.T) *issuer {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	t.Must(err, "issuer")
	i := &issuer{t: t, priv: priv, keys: make(map[[32]byte]*keyPair), current: make(map[string]*keyPair),
		params: make(map[string]*paramRec), spent: make(map[string]string), replies: make(map[string][2][]byte)}
	copy(i.pub[:], pub)
	return i
}

// key makes a new key of the issuer.
func (i *issuer) key(usage string, expire int64) *keyPair {
	priv, x, y, err := elliptic.GenerateKey(p256, crand.Reader)
	i.t.Must(err, "key")
	k := &keyPair{x: x, y: y, priv: priv, by: i}
	k.pubW = pubW{PublicKeyX: x.Bytes(), PublicKeyY: y.Bytes(), Expire: expire, Usage: usage, Signer: append([]byte{}, i.pub[:]...)}
	i.sign(k)
	i.mu.Lock()
	i.keys[k.id] = k
	i.current[usage] = k
	i.mu.Unlock()
	return k
}

func (i *issuer) sign(k *keyPair) {
	k.KeyID = k.calcID()
	copy(k.id[:], k.KeyID)
	k.Signature = ed25519.Sign(i.priv, k.KeyID)
	k.enc = k.pubW.enc(i.t)
}

// issue makes a token of the key.
func (i *issuer) issue(k *keyPair, owner *[32]byte) []byte {
	w := &tokenW{KeyID: append([]byte{}, k.id[:]...), Nonce: make([]byte, 16), Owner: make([]byte, 32)}
	crand.Read(w.Nonce)
	if owner != nil {
		w.Flag = true
		copy(w.Owner, owner[:])
	} else {
		crand.Read(w.Owner)
	}
	i.signToken(k, w)
	return w.enc(i.t)
}

// signToken signs with knowledge of the key: R = k*G, r = x(R), s = d*m - r*k.
func (i *issuer) signToken(k *keyPair, w *tokenW) {
	n := p256.Params().N
	e, err := crand.Int(crand.Reader, n)
	i.t.Must(err, "random")
	rx, ry := p256.ScalarBaseMult(e.Bytes())
	r := new(big.Int).Mod(rx, n)
	s := new(big.Int).Mul(new(big.Int).SetBytes(k.priv), new(big.Int).SetBytes(w.signed()))
	s.Sub(s, new(big.Int).Mul(r, e))
	s.Mod(s, n)
	w.PointRX, w.PointRY, w.ScalarR, w.ScalarS = rx.Bytes(), ry.Bytes(), r.Bytes(), s.Bytes()
	if !w.signedBy(k.x, k.y) {
		i.t.Fatalf("the harness signs wrongly")
	}
}

// newParams makes parameters for a blind signature.
func (i *issuer) newParams(k *keyPair, canReissue bool) []byte {
	srv := jjm.NewGenericBlindingServer(k.priv, k.point(), curve)
	c, s, err := srv.GetParams()
	i.t.Must(err, "parameters")
	id := make([]byte, 16)
	crand.Read(id)
	b, err := types.Params{PublicKey: k.enc, PublicParams: c.(jjm.BlindingParamClient), PrivateParams: id, CanReissue: canReissue}.Marshal()
	i.t.Must(err, "marshal parameters")
	i.mu.Lock()
	i.params[string(id)] = &paramRec{key: k, server: s.(jjm.BlindingParamServer)}
	i.mu.Unlock()
	return b
}

// reissueW is a reissue request on the wire.
type reissueW struct {
	CallType   int32
	Token      []byte
	BlindToken []byte
	Params     []byte
	Signature  []byte
}

func (r *reissueW) image() []byte {
	c := make([]byte, 8)
	binary.BigEndian.PutUint32(c, uint32(r.CallType))
	a := sha256.Sum256(append(c, r.Token...))
	b := sha256.Sum256(r.BlindToken)
	d := sha256.Sum256(r.Params)
	return append(append(a[:], b[:]...), d[:]...)
}

// reissue does what a service guard does with a request. All requirements on
// the request are checked without code of the repository.
func (i *issuer) reissue(packet []byte) (reply, pubkey []byte, err error) {
	i.mu.Lock()
	defer i.mu.Unlock()
	i.requests++
	h := sha256.Sum256(packet)
	if r, ok := i.replies[string(h[:])]; ok {
		i.repeats++
		return r[0], r[1], nil
	}
	r := new(reissueW)
	if rest, err := asn1.Unmarshal(packet, r); err != nil || len(rest) > 0 {
		return nil, nil, fmt.Errorf("issuer: bad package")
	}
	if r.CallType != types.CallTypeReissue {
		return nil, nil, fmt.Errorf("issuer: wrong calltype")
	}
	w, k, err := i.check(r.Token)
	if err != nil {
		return nil, nil, err
	}
	if o := w.owner(); o != nil {
		if len(r.Signature) != 64 || !ed25519.Verify(o[:], r.image(), r.Signature) {
			return nil, nil, fmt.Errorf("issuer: owner signature verification failed")
		}
	}
	p := new(types.Params)
	if _, err := asn1.Unmarshal(r.Params, p); err != nil {
		return nil, nil, fmt.Errorf("issuer: bad package")
	}
	rec := i.params[string(p.PrivateParams)]
	if rec == nil || rec.key.Expire < time.Now().Unix() {
		return nil, nil, fmt.Errorf("issuer: parameters have expired")
	}
	if rec.key.Usage != k.Usage {
		return nil, nil, fmt.Errorf("issuer: parameter and Token usage mismatch")
	}
	if rec.used != "" {
		return nil, nil, fmt.Errorf("issuer: parameter double spend")
	}
	if i.spent[string(w.hash())] != "" {
		return nil, nil, fmt.Errorf("issuer: token double spend")
	}
	bm, err := jjm.NewBlindMessage(rec.key.point()).Unmarshal(r.BlindToken)
	if err != nil {
		return nil, nil, fmt.Errorf("issuer: bad package")
	}
	sig, err := jjm.NewGenericBlindingServer(rec.key.priv, rec.key.point(), curve).Sign(rec.server, bm.(jjm.BlindMessage))
	if err != nil {
		return nil, nil, fmt.Errorf("issuer: bad package")
	}
	b, err := sig.Marshal()
	i.t.Must(err, "marshal signature")
	rec.used = string(h[:])
	i.spent[string(w.hash())] = string(h[:])
	i.replies[string(h[:])] = [2][]byte{b, rec.key.enc}
	return b, rec.key.enc, nil
}

// check checks a token which is presented.
func (i *issuer) check(b []byte) (*tokenW, *keyPair, error) {
	w, err := parseToken(b)
	if err != nil || !w.wellFormed() {
		return nil, nil, fmt.Errorf("issuer: bad package")
	}
	var id [32]byte
	copy(id[:], w.KeyID)
	k := i.keys[id]
	if k == nil {
		return nil, nil, fmt.Errorf("issuer: bad issuer")
	}
	if k.Expire < time.Now().Unix() {
		return nil, nil, fmt.Errorf("issuer: token expired")
	}
	if !w.signedBy(k.x, k.y) {
		return nil, nil, fmt.Errorf("issuer: bad signature in token")
	}
	return w, k, nil
}

// pubKey returns the key as the repository reads it.
func (k *keyPair) pubKey() *signkeys.PublicKey {
	p, err := new(signkeys.PublicKey).Unmarshal(k.enc)
	k.by.t.Must(err, "unmarshal key")
	if p.KeyID != k.id || !bytes.Equal(p.PublicKey.X.Bytes(), k.x.Bytes()) {
		k.by.t.Violation("key/read", "a key is read differently")
	}
	return p
}
