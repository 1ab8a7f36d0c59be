package main

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"

	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/common/constants"
	"github.com/mutecomm/mute/util/jsonclient"
	"verif/harness/mon"
)

var cacert = []byte("the certificate authority of the service guard")

// call is a call as a server got it.
type call struct {
	service, method string
	issuer          *issuer
	params          map[string]interface{}
}

func (c *call) str(name string) string { s, _ := c.params[name].(string); return s }

// fault tells what happens to a call. The zero value is no fault.
type fault struct {
	kind string // before, after: connection lost before or after the call was carried out; status; error; raw; result
	text string
	res  map[string]interface{}
}

type walletAcc struct {
	counter uint64
	replies map[string]map[string]interface{} // by auth token
	charged int
}

// guardNet is all servers of the service guard.
type guardNet struct {
	t        *mon.T
	l        net.Listener
	srv      *http.Server
	rootPub  [32]byte
	rootPriv ed25519.PrivateKey

	mu       sync.Mutex
	issuers  map[string]*issuer
	trusted  [][32]byte
	extra    map[[32]byte][]byte // keys which lookups give instead
	wallets  map[[32]byte]*walletAcc
	preset   func() bool                            // whether the wallet server gives parameters with a token
	issuerOf func(usage string) (*issuer, *keyPair) // for the wallet server
	hook     func(c *call) fault
	calls    []call
	urls     []string
	url      func(service, url string) bool // judges the URLs of lookup and wallet, if they are not the usual ones
}

func newNet(t *mon.T) *guardNet {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	t.Must(err, "root")
	n := &guardNet{t: t, l: l, rootPriv: priv, issuers: make(map[string]*issuer), extra: make(map[[32]byte][]byte), wallets: make(map[[32]byte]*walletAcc)}
	copy(n.rootPub[:], pub)
	n.srv = &http.Server{Handler: http.HandlerFunc(n.serve)}
	go n.srv.Serve(l)
	factory := func(service string) func(u string, ca []byte) (*jsonclient.URLClient, error) {
		return func(u string, ca []byte) (*jsonclient.URLClient, error) {
			if !bytes.Equal(ca, cacert) {
				n.t.Violation("rpc/ca", map[string]interface{}{"service": service, "ca": string(ca)})
			}
			n.mu.Lock()
			n.urls = append(n.urls, u)
			n.mu.Unlock()
			return jsonclient.New("http://"+l.Addr().String()+"/?service="+service+"&url="+url.QueryEscape(u), nil)
		}
	}
	guardrpc.DefaultClientFactory = factory("guard")
	keylookup.DefaultClientFactory = factory("lookup")
	walletrpc.DefaultClientFactory = factory("wallet")
	return n
}

func (n *guardNet) close() { n.srv.Close() }

func (n *guardNet) issuer(trusted bool) *issuer {
	i := newIssuer(n.t)
	n.mu.Lock()
	defer n.mu.Unlock()
	n.issuers[hex.EncodeToString(i.pub[:])] = i
	if trusted {
		n.trusted = append(n.trusted, i.pub)
	}
	return i
}

func (n *guardNet) setHook(f func(c *call) fault) {
	n.mu.Lock()
	n.hook = f
	n.mu.Unlock()
}

// take returns the calls since the last time.
func (n *guardNet) take() []call {
	n.mu.Lock()
	defer n.mu.Unlock()
	c := n.calls
	n.calls, n.urls = nil, nil
	return c
}

func abort(w http.ResponseWriter) {
	if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
		c.Close()
	}
}

func (n *guardNet) serve(w http.ResponseWriter, r *http.Request) {
	w.Header().Set("Connection", "close")
	var req struct {
		Method string                 `json:"method"`
		Params map[string]interface{} `json:"params"`
		ID     uint64                 `json:"id"`
	}
	body, _ := io.ReadAll(r.Body)
	if err := json.Unmarshal(body, &req); err != nil {
		n.t.Violation("rpc/request", string(body))
	}
	c := call{service: r.URL.Query().Get("service"), method: req.Method, params: req.Params}
	u := r.URL.Query().Get("url")
	bad := ""
	switch c.service {
	case "lookup":
		if n.url != nil && !n.url(c.service, u) || n.url == nil && u != constants.KeyLookupURL {
			bad = "url"
		}
	case "wallet":
		if n.url != nil && !n.url(c.service, u) || n.url == nil && u != constants.WalletServerURL {
			bad = "url"
		}
	case "guard":
		p, err := url.Parse(u)
		if err != nil {
			bad = "url"
			break
		}
		key := p.Path[strings.LastIndex(p.Path, "/")+1:]
		in, dir := "", "/rpc/"
		if strings.HasPrefix(c.method, "ServiceGuardInternal.") {
			in, dir = "int", "/rpc/int/"
		}
		if len(key) != 64 || p.Scheme != "https" || p.Host != key[:48]+in+".serviceguard.mute.one" || p.Path != dir+key {
			bad = "url"
		}
		n.mu.Lock()
		c.issuer = n.issuers[key]
		n.mu.Unlock()
		if c.issuer == nil {
			bad = "issuer"
		}
	}
	if bad != "" {
		n.t.Violation("rpc/"+bad, map[string]interface{}{"service": c.service, "method": c.method, "url": u})
		return
	}
	n.mu.Lock()
	hook := n.hook
	n.calls = append(n.calls, c)
	n.mu.Unlock()
	var f fault
	if hook != nil {
		f = hook(&c)
	}
	var res map[string]interface{}
	var err error
	switch f.kind {
	case "before":
		abort(w)
		return
	case "status":
		w.WriteHeader(500)
		return
	case "raw":
		io.WriteString(w, f.text)
		return
	case "error":
		err = fmt.Errorf("%s", f.text)
	case "result":
		res = f.res
	default:
		res, err = n.handle(&c)
	}
	if f.kind == "after" {
		abort(w)
		return
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	if err != nil {
		out["error"] = map[string]interface{}{"code": -32000, "message": err.Error()}
	} else {
		out["result"] = res
	}
	b, _ := json.Marshal(out)
	w.Write(b)
}

func b64(b []byte) string { return base64.StdEncoding.EncodeToString(b) }

func (n *guardNet) handle(c *call) (map[string]interface{}, error) {
	switch c.method {
	case "PublicService.VerifyKeys":
		n.mu.Lock()
		defer n.mu.Unlock()
		var l []string
		for _, k := range n.trusted {
			l = append(l, hex.EncodeToString(k[:]))
		}
		return n.verifyKeys(strings.Join(l, ", ")), nil
	case "PublicService.LookupKey":
		id, err := hex.DecodeString(c.str("KeyID"))
		if err != nil || len(id) != 32 {
			n.t.Violation("rpc/lookup", c.params)
			return nil, fmt.Errorf("keylookup: server error")
		}
		var k [32]byte
		copy(k[:], id)
		n.mu.Lock()
		defer n.mu.Unlock()
		if b, ok := n.extra[k]; ok {
			return map[string]interface{}{"Key": b64(b)}, nil
		}
		for _, i := range n.issuers {
			i.mu.Lock()
			kp := i.keys[k]
			i.mu.Unlock()
			if kp != nil {
				return map[string]interface{}{"Key": b64(kp.enc)}, nil
			}
		}
		return nil, fmt.Errorf("keylookup: key not found")
	case "ServiceGuard.GetParams", "ServiceGuardInternal.GetParams":
		// parameters are given for the usage which was used last
		c.issuer.mu.Lock()
		var k *keyPair
		for _, k = range c.issuer.current {
			break
		}
		c.issuer.mu.Unlock()
		if k == nil {
			return nil, fmt.Errorf("issuer: server errror")
		}
		return map[string]interface{}{"Packet": b64(c.issuer.newParams(k, true))}, nil
	case "ServiceGuard.Reissue":
		p, err := base64.StdEncoding.DecodeString(c.str("Packet"))
		if err != nil {
			n.t.Violation("rpc/reissue", c.params)
		}
		b, k, err := c.issuer.reissue(p)
		if err != nil {
			return nil, err
		}
		return map[string]interface{}{"Packet": b64(b), "PubkeyUsed": b64(k)}, nil
	case "WalletServer.GetToken":
		return n.walletToken(c)
	}
	return nil, fmt.Errorf("no method %s", c.method)
}

func (n *guardNet) verifyKeys(list string) map[string]interface{} {
	return map[string]interface{}{
		"PublicKey": hex.EncodeToString(n.rootPub[:]),
		"Signature": hex.EncodeToString(ed25519.Sign(n.rootPriv, []byte(list))),
		"KeyList":   list,
	}
}

// auth judges an authentication token of the wallet server.
func (n *guardNet) auth(enc string) (key [32]byte, counter uint64, err error) {
	b, err := base64.StdEncoding.DecodeString(enc)
	if err != nil || len(b) != 144 {
		n.t.Violation("rpc/auth", enc)
		return key, 0, fmt.Errorf("walletserver: bad token")
	}
	if !ed25519.Verify(b[:32], b[:80], b[80:]) {
		n.t.Violation("rpc/auth-signature", enc)
		return key, 0, fmt.Errorf("walletserver: bad token")
	}
	copy(key[:], b)
	return key, binary.BigEndian.Uint64(b[72:80]), nil
}

// walletToken sells a token. A repeated authentication token gets the reply
// which it got before.
func (n *guardNet) walletToken(c *call) (map[string]interface{}, error) {
	key, counter, err := n.auth(c.str("AuthToken"))
	if err != nil {
		return nil, err
	}
	n.mu.Lock()
	defer n.mu.Unlock()
	a := n.wallets[key]
	if a == nil {
		return nil, fmt.Errorf("walletserver: no such user")
	}
	if r, ok := a.replies[c.str("AuthToken")]; ok {
		return r, nil
	}
	if counter <= a.counter {
		return nil, fmt.Errorf("ErrReplay: %d", a.counter)
	}
	i, k := n.issuerOf(c.str("Usage"))
	a.counter = counter
	a.charged++
	r := map[string]interface{}{"Token": b64(i.issue(k, &key)), "Params": "", "PubKeyUsed": b64(k.enc)}
	if n.preset != nil && n.preset() {
		r["Params"] = b64(i.newParams(k, false))
	}
	a.replies[c.str("AuthToken")] = r
	return r, nil
}
