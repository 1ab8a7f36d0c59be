// Package keyserv is a key server for the monitors. It is honest unless told
// otherwise: hooks replace replies, and the chain can be built at will.
package keyserv

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/sha256"
	"crypto/sha512"
	stdb64 "encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"sync"

	"github.com/mutecomm/mute/cipher"
	"github.com/mutecomm/mute/uid"
)

// Server is a key server for one domain.
type Server struct {
	Domain   string
	ID       *uid.Message // the identity record of the server
	SK       *cipher.Ed25519Key
	URL      string
	Chain    []string
	Replies  map[string]*uid.MessageReply // by UID index
	Pos      map[string][]uint64          // by identity
	Inits    map[string][]string          // key inits by SIGKEYHASH
	Latest   map[string]*uid.Message
	Texts    [][]byte // all records as they were entered
	TokenKey string   // key of the owner of tokens, if any
	// Hook may replace a result (return non-nil); a Raw value is sent as it is.
	Hook func(method string, params map[string]interface{}, result map[string]interface{}) interface{}
	// Before may answer a call instead of the server.
	Before func(method string, params map[string]interface{}) interface{}
	// Seen is told about all calls which reach the server.
	Seen func(method string, params map[string]interface{})

	Calls map[string]int
	mu    sync.Mutex
	ts    *httptest.Server
	rng   *rand.Rand
}

// Raw is a complete HTTP response body, Status an HTTP status, Cut a reply
// that ends in the middle, RPCError an error reply.
type (
	Raw      string
	Status   int
	Cut      struct{}
	RPCError string
)

// B64 encodes.
func B64(b []byte) string { return stdb64.StdEncoding.EncodeToString(b) }

// Dec decodes.
func Dec(s string) []byte { b, _ := stdb64.StdEncoding.DecodeString(s); return b }

func sha(b ...[]byte) []byte { h := sha256.Sum256(bytes.Join(b, nil)); return h[:] }

func sha5(b ...[]byte) []byte { h := sha512.Sum512(bytes.Join(b, nil)); return h[:] }

func xor(b []byte, x byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[i] = b[i] ^ x
	}
	return o
}

// CKDF is the cheap key derivation function of the specification.
func CKDF(key []byte) (k1, k2 []byte) {
	a := sha5(key)
	a1 := append(append([]byte{}, a[:32]...), a[:32]...)
	a2 := append(append([]byte{}, a[32:]...), a[32:]...)
	return sha5(xor(a1, 0x5c), sha5(xor(a2, 0x36))), sha5(xor(a2, 0x5c), sha5(xor(a1, 0x36)))
}

// Methods a key server has.
var Methods = []string{"KeyRepository.Capabilities", "KeyRepository.CreateUID", "KeyRepository.UpdateUID", "KeyRepository.FetchUID",
	"KeyHashchain.FetchLastHashChain", "KeyHashchain.FetchHashChain", "KeyHashchain.LookupUID",
	"KeyInitRepository.AddKeyInit", "KeyInitRepository.FetchKeyInit", "KeyInitRepository.FlushKeyInit"}

// New starts a server whose chain begins with its own record.
func New(domain string, rng *rand.Rand) (*Server, error) {
	s := &Server{Domain: domain, rng: rng, Replies: map[string]*uid.MessageReply{}, Pos: map[string][]uint64{},
		Inits: map[string][]string{}, Latest: map[string]*uid.Message{}, Calls: map[string]int{}}
	var err error
	s.ID, err = uid.Create("keyserver@"+domain, false, "", "", uid.Strict, "", cipher.RandReader)
	if err != nil {
		return nil, err
	}
	s.SK = new(cipher.Ed25519Key)
	if err := s.SK.SetPrivateKey(s.ID.PrivateSigKey64()[:]); err != nil {
		return nil, err
	}
	s.Add(s.ID)
	s.ts = httptest.NewServer(http.HandlerFunc(s.serve))
	s.URL = s.ts.URL + "/"
	return s, nil
}

// Close stops the server.
func (s *Server) Close() { s.ts.CloseClientConnections(); s.ts.Close() }

// Lock protects changes while the server runs.
func (s *Server) Lock() func() { s.mu.Lock(); return s.mu.Unlock }

// Pub is the public signature key.
func (s *Server) Pub() string { return s.ID.SigPubKey() }

// Entry makes a hash chain entry with the hash set for the given predecessor.
func Entry(nonce, hashID, crUID, index []byte, prev string) string {
	ph := make([]byte, 32)
	if prev != "" {
		ph = Dec(prev)[:32]
	}
	body := bytes.Join([][]byte{{1}, nonce, hashID, crUID, index}, nil)
	return B64(append(sha(body, ph), body...))
}

// Relink recomputes the hashes of a chain from position i on.
func Relink(chain []string, i int) {
	for ; i < len(chain); i++ {
		ph := make([]byte, 32)
		if i > 0 {
			ph = Dec(chain[i-1])[:32]
		}
		e := Dec(chain[i])
		copy(e, sha(e[32:], ph))
		chain[i] = B64(e)
	}
}

// Add enters a record under its own identity.
func (s *Server) Add(m *uid.Message) uint64 { return s.AddAs(m, m.Identity(), s.SK) }

// AddAs enters a record so that a search for id finds it; the reply is signed
// with sk.
func (s *Server) AddAs(m *uid.Message, id string, sk *cipher.Ed25519Key) uint64 {
	return s.AddRaw(m.JSON(), id, sk)
}

// AddRaw enters any text as a record.
func (s *Server) AddRaw(msg []byte, id string, sk *cipher.Ed25519Key) uint64 {
	s.Texts = append(s.Texts, append([]byte{}, msg...))
	hash := sha(msg)
	index := sha(hash)
	iv := make([]byte, 16)
	s.rng.Read(iv)
	b, _ := aes.NewCipher(hash)
	c := make([]byte, len(msg))
	stdcipher.NewCTR(b, iv).XORKeyStream(c, msg)
	enc := B64(bytes.Join([][]byte{index, iv, c}, nil))
	nonce := make([]byte, 8)
	s.rng.Read(nonce)
	k1, k2 := CKDF(nonce)
	s.rng.Read(iv)
	b, _ = aes.NewCipher(sha(k2, []byte(id)))
	cr := make([]byte, 32)
	stdcipher.NewCBCEncrypter(b, iv).CryptBlocks(cr, hash)
	prev := ""
	if len(s.Chain) > 0 {
		prev = s.Chain[len(s.Chain)-1]
	}
	e := Entry(nonce, sha(k1, []byte(id)), append(append([]byte{}, iv...), cr...), index, prev)
	pos := uint64(len(s.Chain))
	s.Chain = append(s.Chain, e)
	if s.Replies[B64(index)] == nil {
		s.Replies[B64(index)] = uid.CreateReply(enc, e, pos, sk)
	}
	s.Pos[id] = append(s.Pos[id], pos)
	if m, err := uid.NewJSON(string(msg)); err == nil {
		s.Latest[id] = m
	}
	return pos
}

// CTR is the encryption of records and session anchors.
func CTR(key, iv, msg []byte) []byte {
	b, _ := aes.NewCipher(key)
	c := make([]byte, len(msg))
	stdcipher.NewCTR(b, iv).XORKeyStream(c, msg)
	return append(append([]byte{}, iv...), c...)
}

// Noise adds entries which belong to nobody.
func (s *Server) Noise(n int) {
	for ; n > 0; n-- {
		b := make([]byte, 8+32+48+32)
		s.rng.Read(b)
		prev := ""
		if len(s.Chain) > 0 {
			prev = s.Chain[len(s.Chain)-1]
		}
		s.Chain = append(s.Chain, Entry(b[:8], b[8:40], b[40:88], b[88:], prev))
	}
}

func toMap(v interface{}) map[string]interface{} {
	b, _ := json.Marshal(v)
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	return m
}

func (s *Server) call(method string, p map[string]interface{}) (map[string]interface{}, error) {
	num := func(k string) uint64 {
		n, _ := p[k].(json.Number)
		v, _ := n.Int64()
		return uint64(v)
	}
	str := func(k string) string { v, _ := p[k].(string); return v }
	switch method {
	case "KeyRepository.Capabilities":
		caps := map[string]interface{}{"METHODS": Methods, "DOMAINS": []string{s.Domain}, "SIGPUBKEYS": []string{s.Pub()}}
		if s.TokenKey != "" {
			caps["TKNPUBKEY"] = s.TokenKey
		}
		return map[string]interface{}{"CAPABILITIES": caps}, nil
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		b, _ := json.Marshal(p["UIDMessage"])
		m, err := uid.NewJSON(string(b))
		if err != nil {
			return nil, err
		}
		pos := s.Add(m)
		_, idx, _ := m.Encrypt()
		_ = pos
		return map[string]interface{}{"UIDMessageReply": toMap(s.Replies[B64(idx)])}, nil
	case "KeyRepository.FetchUID":
		r := s.Replies[str("UIDIndex")]
		if r == nil {
			return nil, fmt.Errorf("no such index")
		}
		return map[string]interface{}{"UIDMessageReply": toMap(r)}, nil
	case "KeyHashchain.FetchLastHashChain":
		if len(s.Chain) == 0 {
			return nil, fmt.Errorf("no entries")
		}
		return map[string]interface{}{"HCEntry": s.Chain[len(s.Chain)-1], "HCPos": len(s.Chain) - 1}, nil
	case "KeyHashchain.FetchHashChain":
		a, b := num("StartPosition"), num("EndPosition")
		if b >= uint64(len(s.Chain)) || a > b {
			return nil, fmt.Errorf("out of range")
		}
		return map[string]interface{}{"HCEntries": append([]string{}, s.Chain[a:b+1]...), "HCFirstPos": a}, nil
	case "KeyHashchain.LookupUID":
		ps := s.Pos[str("Identity")]
		if ps == nil {
			return map[string]interface{}{"HCPositions": nil}, nil
		}
		return map[string]interface{}{"HCPositions": append([]uint64{}, ps...)}, nil
	case "KeyInitRepository.AddKeyInit":
		kis, _ := p["KeyInits"].([]interface{})
		var sigs []string
		for _, k := range kis {
			b, _ := json.Marshal(k)
			ki, err := uid.NewJSONKeyInit(b)
			if err != nil {
				return nil, err
			}
			if err := ki.Verify([]string{s.Domain}, str("SigPubKey")); err != nil {
				return nil, err
			}
			s.Inits[ki.SigKeyHash()] = append(s.Inits[ki.SigKeyHash()], string(ki.JSON()))
			sigs = append(sigs, ki.Sign(s.SK))
		}
		return map[string]interface{}{"Signatures": sigs}, nil
	case "KeyInitRepository.FetchKeyInit":
		l := s.Inits[str("SigKeyHash")]
		if len(l) == 0 {
			return nil, fmt.Errorf("no key init")
		}
		return map[string]interface{}{"KeyInit": l[len(l)-1]}, nil
	case "KeyInitRepository.FlushKeyInit":
		return map[string]interface{}{}, nil
	}
	return nil, fmt.Errorf("unknown method %s", method)
}

func (s *Server) serve(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var req struct {
		Method string
		Params map[string]interface{}
		ID     interface{}
	}
	d := json.NewDecoder(r.Body)
	d.UseNumber()
	if err := d.Decode(&req); err != nil {
		http.Error(w, err.Error(), 400)
		return
	}
	s.Calls[req.Method]++
	var out, early interface{}
	if s.Before != nil {
		early = s.Before(req.Method, req.Params)
	}
	var res map[string]interface{}
	var err error
	if early == nil {
		if s.Seen != nil {
			s.Seen(req.Method, req.Params)
		}
		res, err = s.call(req.Method, req.Params)
		out = res
	} else {
		out = early
	}
	if s.Hook != nil && early == nil {
		if h := s.Hook(req.Method, req.Params, res); h != nil {
			out, err = h, nil
		}
	}
	switch x := out.(type) {
	case Raw:
		w.Write([]byte(x))
		return
	case Status:
		w.WriteHeader(int(x))
		return
	case Cut:
		b, _ := json.Marshal(map[string]interface{}{"jsonrpc": "2.0", "result": res, "id": req.ID})
		w.Header().Set("Content-Length", fmt.Sprint(len(b)))
		w.Write(b[:len(b)/2])
		panic(http.ErrAbortHandler)
	case RPCError:
		err = fmt.Errorf("%s", string(x))
	}
	w.Header().Set("Content-Type", "application/json")
	if err != nil {
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "error": map[string]interface{}{"code": -32000, "message": err.Error()}, "id": req.ID})
		return
	}
	json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "result": out, "id": req.ID})
}

// Junk returns a value of a wrong type or form for a reply field.
func Junk(rng *rand.Rand, v interface{}) interface{} {
	opts := []interface{}{nil, "", "AAAA", "!", true, -1, 0, 1e18, 1e300, 1.5, []interface{}{}, []interface{}{nil},
		[]interface{}{1, "x", nil}, map[string]interface{}{}, map[string]interface{}{"ENTRY": nil}, uint64(1) << 63, ^uint64(0)}
	switch x := v.(type) {
	case []string:
		if len(x) > 0 && rng.Intn(2) == 0 {
			l := make([]interface{}, len(x))
			for i := range x {
				l[i] = x[i]
			}
			switch rng.Intn(4) {
			case 0:
				return l[:rng.Intn(len(l))]
			case 1:
				l[rng.Intn(len(l))] = Junk(rng, nil)
				return l
			case 2:
				return []interface{}{l}
			}
			return l[1:]
		}
	case map[string]interface{}:
		if rng.Intn(4) > 0 {
			return JunkIn(rng, x)
		}
	}
	return opts[rng.Intn(len(opts))]
}

// JunkIn returns a copy of m with one value replaced or removed.
func JunkIn(rng *rand.Rand, m map[string]interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	var keys []string
	for k, v := range m {
		out[k] = v
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return out
	}
	for i := 1; i < len(keys); i++ {
		for j := i; j > 0 && keys[j] < keys[j-1]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	k := keys[rng.Intn(len(keys))]
	if rng.Intn(5) == 0 {
		delete(out, k)
	} else {
		out[k] = Junk(rng, out[k])
	}
	return out
}
