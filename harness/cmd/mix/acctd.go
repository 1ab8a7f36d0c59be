package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/tls"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	stdlog "log"
	"math/rand"
	"net"
	"net/http"
	"strings"
	"sync"
	"time"
	"verif/harness/mon"

	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/serviceguard/common/walletauth"
)

// acctReq is a request as an account server got it.
type acctReq struct {
	host, method string
	key          [32]byte
	counter      uint64
	pay          []byte
	since        float64
	msgid        []byte
	accepted     bool
	bad          string // what is wrong with the authentication
}

type acctMsg struct {
	id               []byte
	recv, nano, read int64
	body             []byte
	userKey          [32]byte
}

type account struct {
	load     int64
	counter  uint64
	payments [][]byte
	msgs     []acctMsg
}

// acctd is a pair of account servers with the same port.
type acctd struct {
	t     *mon.T
	port  string
	hosts []string
	srv   []*http.Server

	empty   string // what the list of an empty mailbox is answered with
	mu      sync.Mutex
	acc     map[string]map[[32]byte]*account // by host
	tokens  map[string]bool                  // authentication tokens seen
	last    map[string]uint64                // host+key -> highest counter seen
	reqs    []acctReq
	races   int                                                                            // so many further requests find the counter raised
	reply   func(w http.ResponseWriter, method string, result map[string]interface{}) bool // hostile
	paid    func(a *account, pay []byte)                                                   // what a payment does
	refuse  func(method string) string                                                     // error before anything is done
	raw     func(b []byte)                                                                 // sees all requests
	keys    string
	revoke  string
	cert    *tls.Certificate
	applied int // calls which had an effect
}

func newAcctd(t *mon.T, ca *ca) *acctd {
	d := &acctd{t: t, hosts: []string{"127.0.0.1", "127.0.0.2"}, acc: map[string]map[[32]byte]*account{}, tokens: map[string]bool{}}
	c := ca.cert(t, false, "127.0.0.1", "127.0.0.2")
	d.cert = &c
	var ls []net.Listener
	for try := 0; ; try++ {
		l1, err := net.Listen("tcp", "127.0.0.1:0")
		t.Must(err, "listen")
		_, d.port, _ = net.SplitHostPort(l1.Addr().String())
		l2, err := net.Listen("tcp", "127.0.0.2:"+d.port)
		if err == nil {
			ls = []net.Listener{l1, l2}
			break
		}
		l1.Close()
		if try > 50 {
			t.Must(err, "listen")
		}
	}
	for i, l := range ls {
		host := d.hosts[i]
		d.acc[host] = map[[32]byte]*account{}
		mux := http.NewServeMux()
		mux.HandleFunc("/account", func(w http.ResponseWriter, r *http.Request) { d.rpc(host, w, r) })
		mux.HandleFunc("/message", func(w http.ResponseWriter, r *http.Request) { d.message(host, w, r) })
		mux.HandleFunc("/keys", func(w http.ResponseWriter, r *http.Request) {
			d.mu.Lock()
			defer d.mu.Unlock()
			io.WriteString(w, d.keys)
		})
		mux.HandleFunc("/revoke", func(w http.ResponseWriter, r *http.Request) {
			d.mu.Lock()
			defer d.mu.Unlock()
			b, _ := hex.DecodeString(r.URL.Query().Get("revokeid"))
			d.reqs = append(d.reqs, acctReq{host: host, method: "revoke", msgid: b})
			io.WriteString(w, d.revoke)
		})
		s := &http.Server{Handler: mux, ErrorLog: stdlog.New(io.Discard, "", 0), TLSConfig: &tls.Config{GetCertificate: func(*tls.ClientHelloInfo) (*tls.Certificate, error) {
			d.mu.Lock()
			defer d.mu.Unlock()
			return d.cert, nil
		}}}
		s.SetKeepAlivesEnabled(false)
		d.srv = append(d.srv, s)
		go s.ServeTLS(l, "", "")
	}
	return d
}

func (d *acctd) close() {
	for _, s := range d.srv {
		s.Close()
	}
}

func (d *acctd) get(host string, k [32]byte) *account {
	if d.acc[host][k] == nil {
		d.acc[host][k] = &account{}
	}
	return d.acc[host][k]
}

// auth judges an authentication token; errmsg is what the server answers.
func (d *acctd) auth(host, enc string, q *acctReq) (a *account, errmsg string) {
	raw, err := base64.StdEncoding.DecodeString(enc)
	if err != nil {
		q.bad = "token is not base64"
		return nil, "walletauth: bad token"
	}
	// the format by itself: key, nonce, hour, counter, signature
	if len(raw) != 144 {
		q.bad = fmt.Sprintf("token of %d bytes", len(raw))
		return nil, "walletauth: bad token"
	}
	copy(q.key[:], raw[:32])
	if !ed25519.Verify(raw[:32], raw[:80], raw[80:]) {
		q.bad = "token signature does not verify"
		return nil, "walletauth: bad signature"
	}
	for i := 0; i < 8; i++ {
		q.counter = q.counter<<8 | uint64(raw[72+i])
	}
	var hour uint64
	for i := 0; i < 8; i++ {
		hour = hour<<8 | uint64(raw[64+i])
	}
	if now := uint64(time.Now().Unix()) / 3600; hour+1 < now || hour > now+1 {
		q.bad = fmt.Sprintf("token hour is %d, it is %d", hour, now)
	}
	pk, lt, lc, err := walletauth.AuthToken(raw).CheckToken()
	if err != nil || *pk != q.key || lt != hour || lc != q.counter {
		q.bad = fmt.Sprintf("CheckToken of a good token: %v", err)
	}
	if d.tokens[string(raw)] {
		q.bad = "authentication token used before"
	}
	d.tokens[string(raw)] = true
	a = d.get(host, q.key)
	if d.races > 0 {
		d.races--
		a.counter = q.counter + uint64(rand.Int63n(1000000000000))
	}
	if q.counter <= a.counter {
		return nil, fmt.Sprintf("ErrReplay: %d", a.counter)
	}
	a.counter = q.counter
	q.accepted = true
	return a, ""
}

func (d *acctd) rpc(host string, w http.ResponseWriter, r *http.Request) {
	d.mu.Lock()
	defer d.mu.Unlock()
	var req struct {
		Method string
		Params struct {
			AuthToken, PayToken string
			LastReceiveTime     float64
		}
		ID json.RawMessage
	}
	b, _ := io.ReadAll(r.Body)
	if d.raw != nil {
		d.raw(b)
	}
	json.Unmarshal(b, &req)
	q := acctReq{host: host, method: strings.TrimPrefix(req.Method, "AccountServer."), since: req.Params.LastReceiveTime}
	defer func() { d.reqs = append(d.reqs, q) }()
	if q.pay, _ = base64.StdEncoding.DecodeString(req.Params.PayToken); len(q.pay) == 0 {
		q.pay = nil
	}
	a, errmsg := d.auth(host, req.Params.AuthToken, &q)
	if errmsg == "" && d.refuse != nil {
		errmsg = d.refuse(q.method)
	}
	res := map[string]interface{}{}
	if errmsg == "" {
		switch q.method {
		case "LoadAccount":
			if d.paid != nil {
				d.paid(a, q.pay)
			} else {
				a.payments = append(a.payments, q.pay)
				a.load += 1000
			}
			res["Server"] = host
		case "DeleteAccount":
			res["Result"] = a.load > 0
			a.load, a.msgs = 0, nil
		case "AccountStat":
			res["LoadTime"] = a.load
		case "ListMessages":
			l := []interface{}{}
			for _, m := range a.msgs {
				if float64(m.recv) >= q.since {
					l = append(l, map[string]interface{}{"MessageID": hex.EncodeToString(m.id), "ReceiveTime": m.recv, "ReceiveTimeNano": m.nano, "ReadTime": m.read, "UserKey": hex.EncodeToString(m.userKey[:])})
				}
			}
			res["Messages"] = l
			if len(l) == 0 {
				errmsg = d.empty
			}
		default:
			errmsg = "no such method " + req.Method
			q.bad = errmsg
		}
	}
	if d.reply != nil && errmsg == "" && d.reply(w, q.method, res) {
		return
	}
	out := map[string]interface{}{"jsonrpc": "2.0", "id": req.ID}
	if errmsg != "" {
		out["error"] = map[string]interface{}{"code": -32000, "message": errmsg}
	} else {
		out["result"] = res
	}
	json.NewEncoder(w).Encode(out)
}

func (d *acctd) message(host string, w http.ResponseWriter, r *http.Request) {
	d.mu.Lock()
	defer d.mu.Unlock()
	r.ParseForm()
	q := acctReq{host: host, method: "message"}
	defer func() { d.reqs = append(d.reqs, q) }()
	q.msgid, _ = hex.DecodeString(r.PostForm.Get("messageid"))
	a, errmsg := d.auth(host, r.PostForm.Get("authtoken"), &q)
	if d.reply != nil && errmsg == "" && d.reply(w, q.method, nil) {
		return
	}
	if errmsg == "" {
		for _, m := range a.msgs {
			if bytes.Equal(m.id, q.msgid) {
				w.Write(mixclient.WriteMail("mix@mute.one", "user@mute.one", m.body))
				return
			}
		}
		errmsg = "accountdb: Nothing found"
	}
	io.WriteString(w, "ERROR: "+errmsg)
}

func (d *acctd) take() []acctReq {
	d.mu.Lock()
	defer d.mu.Unlock()
	r := d.reqs
	d.reqs = nil
	return r
}
