package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"io"
	stdlog "log"
	"math/big"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/cryptengine/cache"
	"github.com/mutecomm/mute/def"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/serviceguard/common/signkeys"
	"github.com/mutecomm/mute/util/jsonclient"

	"verif/harness/mon"
)

var n01 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "every client of a server (accounts, issuers, key lookup, wallet, key server, and JSON-RPC itself) calls servers which have each kind of certificate (good, of another authority, of one the system trusts, self-signed, expired, not yet valid, for another name, for clients only, made by a certificate which is no authority, an incomplete chain) or none, and which give each kind of reply (well-formed, of wrong types, incomplete, no JSON, cut off, errors); the servers record what they learn; " +
		"one evaluation is one call which was judged",
	MinEvents: 300,
	Run:       runN01,
}

// authority is a certificate authority.
type authority struct {
	key  *ecdsa.PrivateKey
	tpl  *x509.Certificate
	der  []byte
	pem  []byte
	real bool
}

var serial int64

func newAuthority(t *mon.T, name string, by *authority, isCA bool) *authority {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t.Must(err, "key")
	serial++
	a := &authority{key: k, tpl: &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: name},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), IsCA: isCA, BasicConstraintsValid: true}}
	a.tpl.KeyUsage = x509.KeyUsageDigitalSignature
	if isCA {
		a.tpl.KeyUsage |= x509.KeyUsageCertSign
	} else {
		a.tpl.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 1)}
	}
	parent, pk := a.tpl, k
	if by != nil {
		parent, pk = by.tpl, by.key
	}
	a.der, err = x509.CreateCertificate(crand.Reader, a.tpl, parent, &k.PublicKey, pk)
	t.Must(err, "certificate")
	a.tpl, err = x509.ParseCertificate(a.der)
	t.Must(err, "certificate")
	a.pem = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: a.der})
	return a
}

// leaf makes the certificate of a server.
func (a *authority) leaf(t *mon.T, change func(*x509.Certificate)) tls.Certificate {
	k, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t.Must(err, "key")
	serial++
	tpl := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: "127.0.0.1"},
		NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour), BasicConstraintsValid: true,
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth},
		IPAddresses: []net.IP{net.IPv4(127, 0, 0, 1)}}
	if change != nil {
		change(tpl)
	}
	der, err := x509.CreateCertificate(crand.Reader, tpl, a.tpl, &k.PublicKey, a.key)
	t.Must(err, "certificate")
	return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: k}
}

// peer is a server which records what it learns.
type peer struct {
	port  string
	mu    sync.Mutex
	calls []string
	reply func(w http.ResponseWriter, method string, body []byte)
}

func (p *peer) seen() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string{}, p.calls...)
}

func (p *peer) set(f func(w http.ResponseWriter, method string, body []byte)) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.calls, p.reply = nil, f
}

func (p *peer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(r.Body)
	var c struct{ Method string }
	json.Unmarshal(body, &c)
	p.mu.Lock()
	p.calls = append(p.calls, c.Method)
	f := p.reply
	p.mu.Unlock()
	if f == nil {
		f = good
	}
	f(w, c.Method, body)
}

func newPeer(t *mon.T, cert *tls.Certificate) *peer {
	p := &peer{}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	_, p.port, _ = net.SplitHostPort(l.Addr().String())
	s := &http.Server{Handler: p, ErrorLog: stdlog.New(io.Discard, "", 0)}
	if cert != nil {
		l = tls.NewListener(l, &tls.Config{Certificates: []tls.Certificate{*cert}})
	}
	go s.Serve(l)
	return p
}

var packet = base64.StdEncoding.EncodeToString([]byte("packet"))

// good is a reply which every client can read.
func good(w http.ResponseWriter, method string, body []byte) {
	io.WriteString(w, `{"jsonrpc":"2.0","id":1,"result":`+goodResult+`}`)
}

var goodResult = `{"CAPABILITIES":{"METHODS":["KeyRepository.FetchUID"],"DOMAINS":["mute.one"]},"Packet":"` + packet +
	`","Key":"","Verify":[],"Server":"srv","Result":true,"Time":1,"LastCounter":1,"SubscriptionTokens":1,"PrepayTokens":2,"LastSubscribeLoad":3,"Token":"` + packet +
	`","Params":"` + packet + `","PubKeyUsed":"` + packet + `","LoadTime":5,"Messages":[],"Success":true}`

// user is a client of a server.
type user struct {
	name string
	call func(port string, ca []byte) error
	bare bool // the reply has no meaning for it
}

func users(t *mon.T) []user {
	pub, priv, err := ed25519.GenerateKey(crand.Reader)
	t.Must(err, "key")
	var pk [ed25519.PublicKeySize]byte
	var sk [ed25519.PrivateKeySize]byte
	copy(pk[:], pub)
	copy(sk[:], priv)
	guard := func(f func(*guardrpc.RPCclient) error) func(string, []byte) error {
		return func(port string, ca []byte) error {
			c, err := guardrpc.New(ca)
			if err != nil {
				return err
			}
			// the names of issuers cannot be resolved here
			real := c.ClientFactory
			c.ClientFactory = func(url string, cert []byte) (*jsonclient.URLClient, error) {
				if !strings.HasPrefix(guardrpc.ServiceURL, "https://") || !strings.HasPrefix(url, "https://") {
					t.Violation("guardrpc/url", url)
				}
				return real("https://127.0.0.1:"+port+"/guard", cert)
			}
			return f(c)
		}
	}
	wallet := func(f func(*walletrpc.WalletClient) error) func(string, []byte) error {
		return func(port string, ca []byte) error {
			walletrpc.ServiceURL = "https://127.0.0.1:" + port + "/wallet"
			return f(walletrpc.New(&pk, &sk, ca))
		}
	}
	lookup := func(f func(*keylookup.LookupClient) error) func(string, []byte) error {
		return func(port string, ca []byte) error {
			keylookup.ServiceURL = "https://127.0.0.1:" + port + "/lookup"
			return f(keylookup.New(nil, ca, &pk))
		}
	}
	account := func(f func(ca []byte) error) func(string, []byte) error {
		return func(port string, ca []byte) error {
			mixclient.RPCPort = port
			return f(ca)
		}
	}
	return []user{
		{"jsonclient", func(port string, ca []byte) error {
			c, err := jsonclient.New("https://127.0.0.1:"+port+"/", ca)
			if err != nil {
				return err
			}
			reply, err := c.JSONRPCRequest("Some.Method", map[string]string{"Secret": "secret"})
			if err == nil {
				var want map[string]interface{}
				json.Unmarshal([]byte(goodResult), &want)
				if !reflect.DeepEqual(reply, want) {
					t.Violation("jsonclient/reply", fmt.Sprintf("reply %v, want %v", reply, want))
				}
			}
			return err
		}, false},
		{"guardrpc.GetParams", guard(func(c *guardrpc.RPCclient) error { _, err := c.GetParams(&pk); return err }), false},
		{"guardrpc.GetParamsInternal", guard(func(c *guardrpc.RPCclient) error { _, err := c.GetParamsInternal(&pk); return err }), false},
		{"guardrpc.Spend", guard(func(c *guardrpc.RPCclient) error { _, err := c.Spend(&pk, []byte("token")); return err }), true},
		{"guardrpc.Reissue", guard(func(c *guardrpc.RPCclient) error { _, _, err := c.Reissue(&pk, []byte("token")); return err }), true},
		{"guardrpc.Issue", guard(func(c *guardrpc.RPCclient) error { _, _, err := c.Issue(&pk, &pk); return err }), true},
		{"walletrpc.GetBalance", wallet(func(c *walletrpc.WalletClient) error { _, _, _, err := c.GetBalance(); return err }), true},
		{"walletrpc.GetToken", wallet(func(c *walletrpc.WalletClient) error { _, _, _, err := c.GetToken("Message"); return err }), true},
		{"keylookup.GetKey", lookup(func(c *keylookup.LookupClient) error {
			_, err := c.GetKey(&[signkeys.KeyIDSize]byte{1})
			return err
		}), true},
		{"keylookup.GetVerifyList", lookup(func(c *keylookup.LookupClient) error { _, err := c.GetVerifyList(); return err }), true},
		{"mixclient.PayAccount", account(func(ca []byte) error { _, err := mixclient.PayAccount(&sk, []byte("token"), "127.0.0.1", ca); return err }), true},
		{"mixclient.DeleteAccount", account(func(ca []byte) error { return mixclient.DeleteAccount(&sk, "127.0.0.1", ca) }), true},
		{"mixclient.AccountStat", account(func(ca []byte) error { _, err := mixclient.AccountStat(&sk, "127.0.0.1", ca); return err }), true},
		{"mixclient.ListMessages", account(func(ca []byte) error { _, err := mixclient.ListMessages(&sk, 0, "127.0.0.1", ca); return err }), true},
		{"cache", func(port string, ca []byte) error {
			def.CACert = ca
			def.ConfigMap = map[string]string{"keyserver.mute.one": "https://127.0.0.1:" + port + "/"}
			_, _, err := cache.New().Get("mute.one", ":2080", "", "", "KeyRepository.FetchUID")
			return err
		}, false},
		{"cache with host", func(port string, ca []byte) error {
			def.CACert = ca
			def.ConfigMap = nil
			_, _, err := cache.New().Get("mute.one", ":"+port, "127.0.0.1", "", "KeyRepository.FetchUID")
			return err
		}, false},
	}
}

func runN01(t *mon.T) {
	dir := t.TempDir("n01")
	ca := newAuthority(t, "authority", nil, true)
	other := newAuthority(t, "other", nil, true)
	twin := newAuthority(t, "authority", nil, true) // the same name, another key
	system := newAuthority(t, "system", nil, true)
	noca := newAuthority(t, "no authority", ca, false)
	middle := newAuthority(t, "intermediate", ca, true)
	// the authorities which the system trusts
	file := filepath.Join(dir, "system.pem")
	t.Must(os.WriteFile(file, system.pem, 0600), "file")
	os.Setenv("SSL_CERT_FILE", file)
	os.Setenv("SSL_CERT_DIR", dir)
	roots, err := x509.SystemCertPool()
	t.Must(err, "system authorities")
	if _, err := system.tpl.Verify(x509.VerifyOptions{Roots: roots}); err != nil {
		t.Fatalf("the system does not trust its authority: %v", err)
	}

	chain := middle.leaf(t, nil)
	chain.Certificate = append(chain.Certificate, middle.der)
	bad := noca.leaf(t, nil)
	bad.Certificate = append(bad.Certificate, noca.der)
	self := newAuthority(t, "127.0.0.1", nil, false)
	swapped := ca.leaf(t, nil)
	swapped.Certificate = other.leaf(t, nil).Certificate
	kinds := []struct {
		name string
		cert *tls.Certificate
		ca   []byte
		good bool
	}{}
	add := func(name string, cert tls.Certificate, ca []byte, good bool) {
		kinds = append(kinds, struct {
			name string
			cert *tls.Certificate
			ca   []byte
			good bool
		}{name, &cert, ca, good})
	}
	leaf := ca.leaf(t, nil)
	add("good", leaf, ca.pem, true)
	add("good chain", chain, ca.pem, true)
	add("good, two authorities", leaf, append(append([]byte{}, other.pem...), ca.pem...), true)
	add("good, comment", leaf, append([]byte("the authority:\n"), ca.pem...), true)
	add("other authority", other.leaf(t, nil), ca.pem, false)
	add("other authority of the same name", twin.leaf(t, nil), ca.pem, false)
	add("authority of the system", system.leaf(t, nil), ca.pem, false)
	add("self-signed", tls.Certificate{Certificate: [][]byte{self.der}, PrivateKey: self.key}, ca.pem, false)
	add("expired", ca.leaf(t, func(c *x509.Certificate) {
		c.NotBefore, c.NotAfter = time.Now().Add(-2*time.Hour), time.Now().Add(-time.Hour)
	}), ca.pem, false)
	add("not yet valid", ca.leaf(t, func(c *x509.Certificate) { c.NotBefore = time.Now().Add(30 * time.Minute) }), ca.pem, false)
	add("other name", ca.leaf(t, func(c *x509.Certificate) { c.IPAddresses, c.DNSNames = nil, []string{"mute.one"} }), ca.pem, false)
	add("other address", ca.leaf(t, func(c *x509.Certificate) { c.IPAddresses = []net.IP{net.IPv4(127, 0, 0, 2)} }), ca.pem, false)
	add("for clients", ca.leaf(t, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} }), ca.pem, false)
	add("by no authority", bad, ca.pem, false)
	add("incomplete chain", middle.leaf(t, nil), ca.pem, false)
	add("no authority known", leaf, nil, false)
	add("system, no authority known", system.leaf(t, nil), nil, false)
	add("broken authority known", leaf, ca.pem[:len(ca.pem)/2], false)
	add("no certificate known", leaf, []byte("-----BEGIN NONSENSE-----\nAAAA\n-----END NONSENSE-----\n"), false)
	kinds = append(kinds, struct {
		name string
		cert *tls.Certificate
		ca   []byte
		good bool
	}{"no TLS", nil, ca.pem, false})
	all := users(t)
	for _, k := range kinds {
		p := newPeer(t, k.cert)
		for _, u := range all {
			what := fmt.Sprintf("%s, server with certificate: %s", u.name, k.name)
			p.set(nil)
			var err error
			if !t.NoPanic("panic", what, func() { err = u.call(p.port, k.ca) }) {
				continue
			}
			t.Eval("certificates")
			calls := p.seen()
			switch {
			case k.good && len(calls) == 0:
				t.Violation("refused/"+u.name, fmt.Sprintf("%s: %v", what, err))
			case k.good && err != nil && !u.bare:
				t.Violation("failed/"+u.name, fmt.Sprintf("%s: %v", what, err))
			case !k.good && len(calls) > 0:
				t.Violation("trusted/"+u.name, fmt.Sprintf("%s: it was called (%v)", what, calls))
			case !k.good && err == nil:
				t.Violation("believed/"+u.name, what+": no error")
			}
		}
	}
	replies(t, ca, all)
}

// replies has a proper server give all kinds of replies.
func replies(t *mon.T, ca *authority, all []user) {
	leaf := ca.leaf(t, nil)
	p := newPeer(t, &leaf)
	body := func(s string) func(http.ResponseWriter, string, []byte) {
		return func(w http.ResponseWriter, method string, b []byte) { io.WriteString(w, s) }
	}
	cut := func(s string, n int) func(http.ResponseWriter, string, []byte) {
		return func(w http.ResponseWriter, method string, b []byte) {
			w.Header().Set("Content-Length", fmt.Sprint(len(s)))
			io.WriteString(w, s[:n])
			w.(http.Flusher).Flush()
			panic(http.ErrAbortHandler)
		}
	}
	whole := `{"jsonrpc":"2.0","id":1,"result":` + goodResult + `}`
	bad := map[string]func(http.ResponseWriter, string, []byte){
		"empty":            body(""),
		"no JSON":          body("<html><body>404</body></html>"),
		"null":             body("null"),
		"array":            body("[]"),
		"no result":        body(`{"jsonrpc":"2.0","id":1}`),
		"null result":      body(`{"jsonrpc":"2.0","id":1,"result":null}`),
		"string result":    body(`{"jsonrpc":"2.0","id":1,"result":"yes"}`),
		"array result":     body(`{"jsonrpc":"2.0","id":1,"result":[1]}`),
		"number result":    body(`{"jsonrpc":"2.0","id":1,"result":1}`),
		"error":            body(`{"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"refused"}}`),
		"error and result": body(`{"jsonrpc":"2.0","id":1,"error":{"code":-32000,"message":"refused"},"result":` + goodResult + `}`),
		"error string":     body(`{"jsonrpc":"2.0","id":1,"error":"refused","result":` + goodResult + `}`),
		"unterminated":     body(whole[:len(whole)-1]),
		"cut at 1":         cut(whole, 1),
		"cut in half":      cut(whole, len(whole)/2),
		"cut at the end":   cut(whole, len(whole)-1),
		"hangs up": func(w http.ResponseWriter, method string, b []byte) {
			panic(http.ErrAbortHandler)
		},
	}
	for name, f := range bad {
		for _, u := range all {
			what := fmt.Sprintf("%s, reply: %s", u.name, name)
			p.set(f)
			var err error
			if !t.NoPanic("panic", what, func() { err = u.call(p.port, ca.pem) }) {
				continue
			}
			t.Eval("bad replies")
			if err == nil {
				t.Violation("reply/"+u.name, what+": no error")
			}
		}
	}
	// replies whose parts have other types
	r := t.Rand("types")
	values := []string{`null`, `true`, `false`, `0`, `-1`, `1e300`, `1.5`, `""`, `"x"`, `"` + packet + `"`, `[]`, `[null]`, `[""]`, `[[]]`, `[{}]`, `{}`, `{"METHODS":1}`, `{"METHODS":null}`, `[{"MessageID":1}]`, `[{"MessageID":"` + packet + `","ReceiveTime":1}]`}
	var fields map[string]json.RawMessage
	t.Must(json.Unmarshal([]byte(goodResult), &fields), "reply")
	names := []string{}
	for n := range fields {
		names = append(names, n)
	}
	for i := t.N(150, 3000); i > 0; i-- {
		m := map[string]json.RawMessage{}
		for _, n := range names {
			switch r.Intn(4) {
			case 0:
				m[n] = fields[n]
			case 1:
			default:
				m[n] = json.RawMessage(values[r.Intn(len(values))])
			}
		}
		b, err := json.Marshal(m)
		t.Must(err, "reply")
		p.set(body(`{"jsonrpc":"2.0","id":1,"result":` + string(b) + `}`))
		u := all[1+r.Intn(len(all)-1)]
		t.NoPanic("types/"+u.name, string(b), func() { u.call(p.port, ca.pem) })
		t.Eval("types")
	}
	// many calls of one client at once
	p.set(func(w http.ResponseWriter, method string, b []byte) {
		var c struct {
			Params json.RawMessage
			ID     json.RawMessage `json:"id"`
		}
		json.Unmarshal(b, &c)
		fmt.Fprintf(w, `{"jsonrpc":"2.0","id":%s,"result":{"Method":%q,"Params":%s}}`, c.ID, method, c.Params)
	})
	c, err := jsonclient.New("https://127.0.0.1:"+p.port+"/", ca.pem)
	t.Must(err, "client")
	plain := newPeer(t, nil)
	plain.set(p.reply)
	c2, err := jsonclient.New("http://127.0.0.1:"+plain.port+"/", nil)
	t.Must(err, "client")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			for i := 0; i < t.N(20, 300); i++ {
				c := c
				if i%4 == 0 {
					c = c2
				}
				method := fmt.Sprintf("Method.%d-%d", g, i)
				var args interface{}
				want := map[string]interface{}{}
				if i%5 != 0 {
					args = map[string]interface{}{"g": fmt.Sprint(g), "text": strings.Repeat("ä\"\n", i), "n": i}
					want = map[string]interface{}{"g": fmt.Sprint(g), "text": strings.Repeat("ä\"\n", i), "n": float64(i)}
				}
				reply, err := c.JSONRPCRequest(method, args)
				if err != nil || reply["Method"] != method || !reflect.DeepEqual(reply["Params"], want) {
					t.Violation("jsonclient/parallel", fmt.Sprintf("%s: %v, %v, want %v", method, reply, err, want))
				}
				t.Eval("parallel")
			}
		}(g)
	}
	wg.Wait()
	for _, u := range []string{"://", "http://127.0.0.1:1/", "https://127.0.0.1:1/", "127.0.0.1:1", "", "https://[::1"} {
		t.NoPanic("url", u, func() {
			c, err := jsonclient.New(u, ca.pem)
			if err == nil {
				_, err = c.JSONRPCRequest("Some.Method", nil)
			}
			if err == nil {
				t.Violation("url", u+": no error")
			}
		})
		t.Eval("urls")
	}
}
