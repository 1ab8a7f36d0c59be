package kit

import (
	"bytes"
	"crypto/ed25519"
	"crypto/sha512"
	"fmt"
	"io"
	mrand "math/rand"
	"strings"
	"sync"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/keyserver/hashchain"
	"github.com/mutecomm/mute/log"
	"github.com/mutecomm/mute/msg"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
	"github.com/mutecomm/mute/util/times"
)

func init() {
	log.Init("critical", "mon  ", "", false)
}

type lockedRand struct {
	mu sync.Mutex
	r  *mrand.Rand
}

func (l *lockedRand) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Read(p)
}

// Seed makes all randomness of the code under test depend on seed.
func Seed(seed int64) io.Reader {
	r := &lockedRand{r: mrand.New(mrand.NewSource(seed))}
	cipher.RandReader = r
	return r
}

// Party is one communicating identity.
type Party struct {
	ID   string
	UID  *uid.Message
	KI   *uid.KeyInit
	KE   *uid.KeyEntry // public KeyInit entry
	Priv string        // private KeyInit key
	Nym  string
	// Sessions is the store in use, Ref is set if it is the reference store.
	Sessions session.Store
	Ref      *Store
}

// NewParty creates a party with fresh keys and a reference store.
func NewParty(id string) (*Party, error) {
	p := &Party{ID: id, Nym: "nym-of-" + id}
	var err error
	p.UID, err = uid.Create(id, false, "", "", uid.Strict, hashchain.TestEntry, cipher.RandReader)
	if err != nil {
		return nil, err
	}
	now := uint64(times.Now())
	p.KI, _, p.Priv, err = p.UID.KeyInit(1, now+times.Day, now-times.Day, false,
		id[strings.IndexByte(id, '@')+1:], "", "", cipher.RandReader)
	if err != nil {
		return nil, err
	}
	p.KE, err = p.KI.KeyEntryECDHE25519(p.UID.SigPubKey())
	if err != nil {
		return nil, err
	}
	p.Ref = NewStore()
	p.Sessions = p.Ref
	priv, err := p.PrivKE()
	if err != nil {
		return nil, err
	}
	p.Ref.AddPrivateKeyEntry(priv)
	return p, nil
}

// PrivKE returns the KeyInit entry with its private key.
func (p *Party) PrivKE() (*uid.KeyEntry, error) {
	ke, err := p.KI.KeyEntryECDHE25519(p.UID.SigPubKey())
	if err != nil {
		return nil, err
	}
	return ke, ke.SetPrivateKey(p.Priv)
}

// Knows lets p know the KeyInit of q.
func (p *Party) Knows(q *Party) { p.Ref.AddPublicKeyEntry(q.ID, q.KE, "ki-nym-"+q.ID) }

// Opts are the options of one encryption.
type Opts struct {
	Sign      bool
	NumOfKeys uint64
	AvgSize   uint
	Status    msg.StatusCode
	Nym       string
}

// Msg is a message in flight.
type Msg struct {
	N        int
	From, To *Party
	Content  []byte
	Signed   bool
	Status   msg.StatusCode
	Wire     []byte
	Nym      string // nym returned by Encrypt
	SentNym  string
}

// Encrypt encrypts content from p to q.
func (p *Party) Encrypt(q *Party, content []byte, o Opts) (*Msg, error) {
	var out bytes.Buffer
	a := &msg.EncryptArgs{
		Writer: &out, From: p.UID, To: q.UID, NymAddress: o.Nym,
		SenderLastKeychainHash: hashchain.TestEntry, Reader: bytes.NewReader(content),
		NumOfKeys: o.NumOfKeys, AvgSessionSize: o.AvgSize, Rand: cipher.RandReader,
		KeyStore: p.Sessions, StatusCode: o.Status,
	}
	if o.Sign {
		a.PrivateSigKey = p.UID.PrivateSigKey64()
	}
	nym, err := msg.Encrypt(a)
	m := &Msg{From: p, To: q, Content: content, Signed: o.Sign, Status: o.Status,
		Wire: out.Bytes(), Nym: nym, SentNym: o.Nym}
	if o.Status != msg.StatusOK {
		m.Content = nil
	}
	return m, err
}

// Decrypt decrypts wire for p.
func (p *Party) Decrypt(wire []byte, numOfKeys uint64, ids ...*uid.Message) (content []byte, sender, sig string, err error) {
	if len(ids) == 0 {
		ids = []*uid.Message{p.UID}
	}
	input := base64.NewDecoder(bytes.NewReader(wire))
	version, ph, err := msg.ReadFirstOuterHeader(input)
	if err != nil {
		return nil, "", "", err
	}
	if version != msg.Version {
		return nil, "", "", fmt.Errorf("version %d", version)
	}
	var out bytes.Buffer
	sender, sig, err = msg.Decrypt(&msg.DecryptArgs{
		Writer: &out, Identities: ids, PreHeader: ph, Reader: input,
		NumOfKeys: numOfKeys, Rand: cipher.RandReader, KeyStore: p.Sessions,
	})
	return out.Bytes(), sender, sig, err
}

// CheckSig verifies a reported signature independently.
func CheckSig(from *uid.Message, content []byte, sig string) bool {
	b, err := base64.Decode(sig)
	if err != nil || len(b) != ed25519.SignatureSize {
		return false
	}
	pub, err := base64.Decode(from.UIDContent.SIGKEY.PUBKEY)
	if err != nil || len(pub) != ed25519.PublicKeySize {
		return false
	}
	h := sha512.Sum512(content)
	return ed25519.Verify(ed25519.PublicKey(pub), h[:], b)
}
