// Package kit holds what several monitors share: a reference session store
// with value semantics which records and can fail every operation, parties
// which exchange messages, and a hostile sender with full control over the
// wire format.
package kit

import (
	"errors"
	"fmt"
	"reflect"
	"sort"

	"github.com/mutecomm/mute/encode/base64"
	"github.com/mutecomm/mute/msg/session"
	"github.com/mutecomm/mute/uid"
)

// Sess is one session of the reference store.
type Sess struct {
	RootKeyHash string
	ChainKey    string
	Send, Recv  []string
}

// SessKey is a session key of the reference store.
type SessKey struct {
	JSON, Priv string
	Cleanup    uint64
}

// Store is the reference implementation of session.Store. All values are
// copied in and out, so that only what is written explicitly is kept, as in a
// store on disk.
type Store struct {
	PrivKE   map[string]*uid.KeyEntry
	PubKE    map[string]*uid.KeyEntry
	PubNym   map[string]string
	States   map[string]*session.State
	Sessions map[string]*Sess
	Keys     map[string]*SessKey

	// Before is called before each operation, an error is returned to the
	// caller without effect. After is called when the operation took effect.
	Before func(op string, write bool) error
	After  func(op string, write bool) error
	// Used records every (session, direction, index) handed out by
	// GetMessageKey.
	OnGetMessageKey func(sessionKey string, sender bool, idx uint64, err error)
	OnDelMessageKey func(sessionKey string, sender bool, idx uint64, value string)
	Ops             int64
}

// ErrInjected is the error of injected faults.
var ErrInjected = errors.New("kit: injected store fault")

// NewStore returns an empty store.
func NewStore() *Store {
	return &Store{PrivKE: map[string]*uid.KeyEntry{}, PubKE: map[string]*uid.KeyEntry{},
		PubNym: map[string]string{}, States: map[string]*session.State{},
		Sessions: map[string]*Sess{}, Keys: map[string]*SessKey{}}
}

func copyKE(ke *uid.KeyEntry) *uid.KeyEntry {
	if ke == nil {
		return nil
	}
	c := *ke
	return &c
}

// pubKE returns a copy without private key: states are stored as JSON.
func pubKE(ke *uid.KeyEntry) *uid.KeyEntry {
	if ke == nil {
		return nil
	}
	return &uid.KeyEntry{CIPHERSUITE: ke.CIPHERSUITE, FUNCTION: ke.FUNCTION, HASH: ke.HASH, PUBKEY: ke.PUBKEY}
}

// CopyState returns a deep copy (without private keys, which are not part of
// a stored state).
func CopyState(s *session.State) *session.State {
	if s == nil {
		return nil
	}
	c := *s
	c.RecipientTemp = *pubKE(&s.RecipientTemp)
	c.SenderSessionPub = *pubKE(&s.SenderSessionPub)
	c.NextSenderSessionPub = pubKE(s.NextSenderSessionPub)
	c.NextRecipientSessionPubSeen = pubKE(s.NextRecipientSessionPubSeen)
	return &c
}

// Clone returns a deep copy of the contents.
func (s *Store) Clone() *Store {
	c := NewStore()
	for k, v := range s.PrivKE {
		c.PrivKE[k] = copyKE(v)
	}
	for k, v := range s.PubKE {
		c.PubKE[k] = copyKE(v)
	}
	for k, v := range s.PubNym {
		c.PubNym[k] = v
	}
	for k, v := range s.States {
		c.States[k] = CopyState(v)
	}
	for k, v := range s.Sessions {
		c.Sessions[k] = &Sess{v.RootKeyHash, v.ChainKey,
			append([]string(nil), v.Send...), append([]string(nil), v.Recv...)}
	}
	for k, v := range s.Keys {
		x := *v
		c.Keys[k] = &x
	}
	return c
}

// DiffStates compares the conversation states of two stores.
func DiffStates(a, b *Store) string {
	var keys []string
	for k := range a.States {
		keys = append(keys, k)
	}
	for k := range b.States {
		if a.States[k] == nil {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		if !reflect.DeepEqual(a.States[k], b.States[k]) {
			return fmt.Sprintf("session state %.8s: %+v != %+v", k, a.States[k], b.States[k])
		}
	}
	return ""
}

func (s *Store) before(op string, write bool) error {
	s.Ops++
	if s.Before != nil {
		return s.Before(op, write)
	}
	return nil
}

func (s *Store) after(op string, write bool) error {
	if s.After != nil {
		return s.After(op, write)
	}
	return nil
}

// AddPrivateKeyEntry adds the private part of a KeyInit.
func (s *Store) AddPrivateKeyEntry(ke *uid.KeyEntry) { s.PrivKE[ke.HASH] = copyKE(ke) }

// AddPublicKeyEntry adds the public part of a KeyInit of an identity.
func (s *Store) AddPublicKeyEntry(identity string, ke *uid.KeyEntry, nym string) {
	s.PubKE[identity] = copyKE(ke)
	s.PubNym[identity] = nym
}

// GetSessionState implements session.Store.
func (s *Store) GetSessionState(k string) (*session.State, error) {
	if err := s.before("GetSessionState", false); err != nil {
		return nil, err
	}
	return CopyState(s.States[k]), nil
}

// SetSessionState implements session.Store.
func (s *Store) SetSessionState(k string, st *session.State) error {
	if err := s.before("SetSessionState", true); err != nil {
		return err
	}
	s.States[k] = CopyState(st)
	return s.after("SetSessionState", true)
}

// StoreSession implements session.Store.
func (s *Store) StoreSession(k, rootKeyHash, chainKey string, send, recv []string) error {
	if err := s.before("StoreSession", true); err != nil {
		return err
	}
	if len(send) != len(recv) {
		return errors.New("kit: len(send) != len(recv)")
	}
	if x := s.Sessions[k]; x != nil {
		x.ChainKey = chainKey
		x.Send = append(x.Send, send...)
		x.Recv = append(x.Recv, recv...)
	} else {
		s.Sessions[k] = &Sess{rootKeyHash, chainKey,
			append([]string(nil), send...), append([]string(nil), recv...)}
	}
	return s.after("StoreSession", true)
}

// HasSession implements session.Store.
func (s *Store) HasSession(k string) bool {
	s.Ops++
	return s.Sessions[k] != nil
}

// GetPrivateKeyEntry implements session.Store.
func (s *Store) GetPrivateKeyEntry(h string) (*uid.KeyEntry, error) {
	if err := s.before("GetPrivateKeyEntry", false); err != nil {
		return nil, err
	}
	if ke := s.PrivKE[h]; ke != nil {
		return copyKE(ke), nil
	}
	return nil, session.ErrNoKeyEntry
}

// GetPublicKeyEntry implements session.Store.
func (s *Store) GetPublicKeyEntry(m *uid.Message) (*uid.KeyEntry, string, error) {
	if err := s.before("GetPublicKeyEntry", false); err != nil {
		return nil, "", err
	}
	if ke := s.PubKE[m.Identity()]; ke != nil {
		return copyKE(ke), s.PubNym[m.Identity()], nil
	}
	return nil, "", session.ErrNoKeyEntry
}

func (s *Store) sess(k string) (*Sess, error) {
	if x := s.Sessions[k]; x != nil {
		return x, nil
	}
	return nil, fmt.Errorf("kit: no session %s", k)
}

// GetMessageKey implements session.Store.
func (s *Store) GetMessageKey(k string, sender bool, idx uint64) (*[64]byte, error) {
	if err := s.before("GetMessageKey", false); err != nil {
		return nil, err
	}
	key, err := s.getMessageKey(k, sender, idx)
	if s.OnGetMessageKey != nil {
		s.OnGetMessageKey(k, sender, idx, err)
	}
	return key, err
}

func (s *Store) getMessageKey(k string, sender bool, idx uint64) (*[64]byte, error) {
	x, err := s.sess(k)
	if err != nil {
		return nil, err
	}
	l := x.Recv
	if sender {
		l = x.Send
	}
	if idx >= uint64(len(l)) {
		return nil, errors.New("kit: message index out of bounds")
	}
	if l[idx] == "" {
		return nil, session.ErrMessageKeyUsed
	}
	b, err := base64.Decode(l[idx])
	if err != nil {
		return nil, err
	}
	var r [64]byte
	if copy(r[:], b) != 64 {
		return nil, errors.New("kit: wrong key length")
	}
	return &r, nil
}

// NumMessageKeys implements session.Store.
func (s *Store) NumMessageKeys(k string) (uint64, error) {
	if err := s.before("NumMessageKeys", false); err != nil {
		return 0, err
	}
	x, err := s.sess(k)
	if err != nil {
		return 0, err
	}
	return uint64(len(x.Send)), nil
}

// GetRootKeyHash implements session.Store.
func (s *Store) GetRootKeyHash(k string) (*[64]byte, error) {
	if err := s.before("GetRootKeyHash", false); err != nil {
		return nil, err
	}
	x, err := s.sess(k)
	if err != nil {
		return nil, err
	}
	b, err := base64.Decode(x.RootKeyHash)
	if err != nil {
		return nil, err
	}
	var r [64]byte
	if copy(r[:], b) != 64 {
		return nil, errors.New("kit: wrong hash length")
	}
	return &r, nil
}

// GetChainKey implements session.Store.
func (s *Store) GetChainKey(k string) (*[32]byte, error) {
	if err := s.before("GetChainKey", false); err != nil {
		return nil, err
	}
	x, err := s.sess(k)
	if err != nil {
		return nil, err
	}
	b, err := base64.Decode(x.ChainKey)
	if err != nil {
		return nil, err
	}
	var r [32]byte
	if copy(r[:], b) != 32 {
		return nil, errors.New("kit: wrong chain key length")
	}
	return &r, nil
}

// DelMessageKey implements session.Store.
func (s *Store) DelMessageKey(k string, sender bool, idx uint64) error {
	if err := s.before("DelMessageKey", true); err != nil {
		return err
	}
	x, err := s.sess(k)
	if err != nil {
		return err
	}
	l := x.Recv
	if sender {
		l = x.Send
	}
	if idx >= uint64(len(l)) {
		return errors.New("kit: message index out of bounds")
	}
	old := l[idx]
	l[idx] = ""
	if s.OnDelMessageKey != nil {
		s.OnDelMessageKey(k, sender, idx, old)
	}
	return s.after("DelMessageKey", true)
}

// AddSessionKey implements session.Store.
func (s *Store) AddSessionKey(hash, json, priv string, cleanup uint64) error {
	if err := s.before("AddSessionKey", true); err != nil {
		return err
	}
	s.Keys[hash] = &SessKey{json, priv, cleanup}
	return s.after("AddSessionKey", true)
}

// GetSessionKey implements session.Store.
func (s *Store) GetSessionKey(hash string) (string, string, error) {
	if err := s.before("GetSessionKey", false); err != nil {
		return "", "", err
	}
	if k := s.Keys[hash]; k != nil {
		return k.JSON, k.Priv, nil
	}
	return "", "", session.ErrNoKeyEntry
}

// DelPrivSessionKey implements session.Store.
func (s *Store) DelPrivSessionKey(hash string) error {
	if err := s.before("DelPrivSessionKey", true); err != nil {
		return err
	}
	if k := s.Keys[hash]; k != nil {
		k.Priv = ""
	}
	return s.after("DelPrivSessionKey", true)
}

// CleanupSessionKeys implements session.Store.
func (s *Store) CleanupSessionKeys(t uint64) error {
	if err := s.before("CleanupSessionKeys", true); err != nil {
		return err
	}
	for h, k := range s.Keys {
		if k.Cleanup < t {
			delete(s.Keys, h)
		}
	}
	return s.after("CleanupSessionKeys", true)
}
