package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/sha512"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/configclient/roundrobin"
	"verif/harness/mon"
)

var f02 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "histories of updates from sets of servers which fail, lie, replay old configurations or add certificates, each update compared with a model of what the servers offered; " +
		"one evaluation is one update or server list judged",
	MinEvents: 900,
	Run:       runF02,
}

// newCA returns a CA certificate.
func newCA(t *mon.T, name string) (der []byte) {
	key, err := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t.Must(err, "key")
	tmpl := &x509.Certificate{
		SerialNumber:          big.NewInt(time.Now().UnixNano()),
		Subject:               pkix.Name{CommonName: name},
		NotBefore:             time.Now().Add(-time.Hour),
		NotAfter:              time.Now().Add(24 * time.Hour),
		IsCA:                  true,
		BasicConstraintsValid: true,
	}
	der, err = x509.CreateCertificate(crand.Reader, tmpl, tmpl, &key.PublicKey, key)
	t.Must(err, "certificate")
	return der
}

func pemOf(der []byte) []byte {
	return pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
}

func hashOf(der []byte) string {
	h := sha512.Sum512(der)
	return hex.EncodeToString(h[:])
}

// trusted lists the certificates which are trusted by who uses a CA file.
func trusted(file []byte) (r [][]byte) {
	for {
		var b *pem.Block
		b, file = pem.Decode(file)
		if b == nil {
			return
		}
		if b.Type == "CERTIFICATE" && len(b.Headers) == 0 {
			r = append(r, b.Bytes)
		}
	}
}

// answer is what a server does with a request.
type answer struct {
	kind string
	body []byte
}

type cserver struct {
	id   int
	prio int
	addr string
	l    net.Listener
	mu   sync.Mutex
	conf answer
	ca   answer
	log  func(id int, path string)
}

func (s *cserver) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	s.mu.Lock()
	a := s.conf
	if r.URL.Path == "/cacert" {
		a = s.ca
	}
	s.mu.Unlock()
	s.log(s.id, r.URL.Path)
	w.Header().Set("Connection", "close")
	switch a.kind {
	case "drop":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			c.Close()
		}
	case "status":
		w.WriteHeader(500)
		w.Write([]byte("<html>error</html>"))
	case "hang":
		time.Sleep(1500 * time.Millisecond)
	case "short":
		w.Header().Set("Content-Length", fmt.Sprint(len(a.body)+10))
		w.Write(a.body)
	default:
		w.Write(a.body)
	}
}

func newServer(t *mon.T, id int, log func(int, string)) *cserver {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	s := &cserver{id: id, l: l, addr: l.Addr().String(), log: log}
	srv := &http.Server{Handler: s}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(l)
	return s
}

// offer is a configuration which was signed.
type offer struct {
	m    map[string]string
	date uint64
}

var confKinds = []string{"good", "good", "good", "old", "stale", "forged", "edited", "junk", "drop", "status", "short", "empty", "long"}
var caKinds = []string{"good", "good", "good", "wrong", "extra", "extra-first", "extra-noise", "junk", "drop", "status", "short", "empty", "other-type", "noise"}

func runF02(t *mon.T) {
	sig, other := newSigner(t), newSigner(t)
	var cas [][]byte
	for i := 0; i < 3; i++ {
		cas = append(cas, newCA(t, fmt.Sprintf("ca %d", i)))
	}
	evil := newCA(t, "evil")
	type req struct {
		id   int
		path string
	}
	var mu sync.Mutex
	var reqs []req
	log := func(id int, path string) {
		mu.Lock()
		reqs = append(reqs, req{id, path})
		mu.Unlock()
	}
	var servers []*cserver
	for i := 0; i < 5; i++ {
		servers = append(servers, newServer(t, i, log))
	}
	turn := 0
	for c := 0; c < t.N(80, 1000); c++ {
		rng := t.Rand("f02", c)
		n := 1 + c%4
		var list []string
		for _, s := range servers[:n] {
			s.prio = []int{5, 10, 10, 20, -1, 0}[rng.Intn(6)]
			list = append(list, fmt.Sprintf("%d,%s", s.prio, s.addr))
		}
		rng.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		conf := &configclient.Config{PublicKey: sig.pub, URLList: strings.Join(list, ";"), Timeout: 1}
		if rng.Intn(3) == 0 {
			conf.CACert = pemOf(cas[rng.Intn(3)])
		}
		base := uint64(time.Now().Unix()) - 3000
		for step := 0; step < 8; step++ {
			base += uint64(rng.Intn(200))
			offers := make(map[int]*offer)   // good configurations
			offersCA := make(map[int][]byte) // CA certificates
			desc := []string{}
			want := cas[rng.Intn(3)]
			var asked *offer
			for _, s := range servers[:n] {
				s.mu.Lock()
				o := &offer{randMap(rng), base + uint64(rng.Intn(100))}
				delete(o.m, "CACertHash")
				switch rng.Intn(6) {
				case 0:
				case 1:
					o.m["CACertHash"] = strings.ToUpper(hashOf(want))
				default:
					o.m["CACertHash"] = hashOf(want)
				}
				if asked != nil && rng.Intn(2) == 0 {
					o = asked // most servers agree
				}
				asked = o
				kind := confKinds[turn%len(confKinds)]
				turn += 1 + rng.Intn(2)
				if step%2 == 1 && rng.Intn(2) == 0 {
					kind = "good"
				}
				good := cert(o.m, sig.sign(o.m, o.date), o.date)
				s.conf = answer{kind, good}
				switch kind {
				case "good":
					if o.date >= conf.LastSignDate {
						offers[s.id] = o
					}
				case "old":
					d := uint64(time.Now().Unix()) - 10000
					if d >= conf.LastSignDate {
						offers[s.id] = &offer{o.m, d}
					}
					s.conf.body = cert(o.m, sig.sign(o.m, d), d)
				case "stale":
					d := uint64(time.Now().Unix()) - maxAge - 100
					s.conf.body = cert(o.m, sig.sign(o.m, d), d)
				case "forged":
					s.conf.body = cert(o.m, other.sign(o.m, o.date), o.date)
				case "edited":
					x := copyMap(o.m)
					x["guardrpc.ServiceURL"] = "evil"
					s.conf.body = cert(x, sig.sign(o.m, o.date), o.date)
				case "junk":
					s.conf.body = []byte("<html>welcome</html>")
				case "empty":
					s.conf.body = nil
				case "long":
					s.conf.body = append(bytes.Repeat([]byte(" "), configclient.MaxReadBody), good...)
				}
				kind2 := caKinds[(turn+rng.Intn(2))%len(caKinds)]
				if step%2 == 1 && rng.Intn(2) == 0 {
					kind2 = "good"
				}
				p := pemOf(want)
				s.ca = answer{kind2, p}
				switch kind2 {
				case "good":
					offersCA[s.id] = want
				case "noise":
					s.ca.body = append(append([]byte("the CA\n"), p...), "\nend\n"...)
					offersCA[s.id] = want
				case "wrong":
					s.ca.body = pemOf(evil)
				case "extra":
					s.ca.body = append(append([]byte{}, p...), pemOf(evil)...)
				case "extra-noise":
					s.ca.body = append(append(append([]byte{}, p...), "\n# more\n"...), pemOf(evil)...)
				case "extra-first":
					s.ca.body = append(pemOf(evil), p...)
				case "other-type":
					s.ca.body = append(pem.EncodeToMemory(&pem.Block{Type: "X", Bytes: want}), pemOf(evil)...)
				case "junk":
					s.ca.body = []byte("<html>welcome</html>")
				case "empty":
					s.ca.body = nil
				}
				desc = append(desc, fmt.Sprintf("%d:%d:%s:%s", s.id, s.prio, kind, kind2))
				s.mu.Unlock()
			}
			before := *conf
			mu.Lock()
			reqs = nil
			mu.Unlock()
			t.Case(map[string]interface{}{"history": c, "step": step, "servers": desc, "ca": conf.CACert != nil, "last": conf.LastSignDate})
			t.Eval(fmt.Sprintf("update/%d", n))
			var err error
			if !t.NoPanic("panic", desc, func() { err = conf.Update() }) {
				break
			}
			mu.Lock()
			got := append([]req{}, reqs...)
			mu.Unlock()
			// the requests for the configuration
			first := -1
			seen := make(map[int]bool)
			last := -1 << 30
			var caReqs []int
			for _, q := range got {
				if q.path == "/cacert" {
					caReqs = append(caReqs, q.id)
					continue
				}
				s := servers[q.id]
				if q.path != "/config" || seen[q.id] || s.prio < last || first >= 0 {
					t.Violation("order", fmt.Sprintf("%v: %v", desc, got))
					break
				}
				seen[q.id], last = true, s.prio
				if offers[q.id] != nil {
					first = q.id
				}
			}
			for _, s := range servers[:n] {
				if !seen[s.id] && (first < 0 || s.prio < servers[first].prio) {
					t.Violation("not-asked", fmt.Sprintf("%v: %v", desc, got))
				}
			}
			// what has to come out
			ok, needCA := first >= 0, false
			var o *offer
			if ok {
				o = offers[first]
				h, has := o.m["CACertHash"]
				if has && !(before.CACert != nil && strings.ToLower(h) == hashOf(trusted(before.CACert)[0])) {
					needCA = true
					ok = false
					for id := range offersCA {
						if strings.ToLower(h) == hashOf(offersCA[id]) {
							ok = true
						}
					}
				}
			}
			seen = make(map[int]bool)
			for i, id := range caReqs {
				if !needCA || seen[id] || (i == 0 && id != first) {
					t.Violation("ca-order", fmt.Sprintf("%v: %v", desc, got))
				}
				seen[id] = true
			}
			switch {
			case err == nil && !ok:
				t.Violation("accepted", fmt.Sprintf("%v: map %v", desc, conf.Map))
			case err != nil && ok:
				t.Violation("failed", fmt.Sprintf("%v: %v", desc, err))
			case err == nil:
				if !sameMap(conf.Map, o.m) || conf.LastSignDate != o.date {
					t.Violation("map", fmt.Sprintf("%v: %v %d, not %v %d", desc, conf.Map, conf.LastSignDate, o.m, o.date))
				}
				t.Count("updated")
				if needCA {
					t.Count("new CA")
				}
			default:
				if !sameMap(conf.Map, before.Map) || (before.LastSignDate != 0 && conf.LastSignDate != before.LastSignDate) {
					t.Violation("failed-map", fmt.Sprintf("%v: %v", desc, conf.Map))
				}
				if !bytes.Equal(conf.CACert, before.CACert) {
					t.Violation("failed-ca", fmt.Sprintf("%v: %d bytes instead of %d", desc, len(conf.CACert), len(before.CACert)))
				}
				t.Count("failed")
			}
			if err == nil {
				tr := trusted(conf.CACert)
				if h, has := conf.Map["CACertHash"]; has {
					if len(tr) != 1 || hashOf(tr[0]) != strings.ToLower(h) {
						t.Violation("trusted", fmt.Sprintf("%v: %d certificates", desc, len(tr)))
					}
				} else if !bytes.Equal(conf.CACert, before.CACert) {
					t.Violation("ca", fmt.Sprint(desc))
				}
			}
			if !bytes.Equal(conf.PublicKey, before.PublicKey) || conf.URLList != before.URLList {
				t.Violation("settings", fmt.Sprint(desc))
			}
		}
	}
	f02Broken(t, sig, servers, cas, evil)
	f02Lists(t)
}

// f02Broken checks servers which hang, closed ports, broken hashes and no servers.
func f02Broken(t *mon.T, sig *signer, servers []*cserver, cas [][]byte, evil []byte) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	closed := l.Addr().String()
	l.Close()
	date := uint64(time.Now().Unix()) - 100
	m := map[string]string{"a": "b", "CACertHash": hashOf(cas[0])}
	good := answer{"good", cert(m, sig.sign(m, date), date)}
	ca := answer{"good", pemOf(cas[0])}
	set := func(s *cserver, a, b answer) {
		s.mu.Lock()
		s.conf, s.ca = a, b
		s.mu.Unlock()
	}
	run := func(kind, list string, ca []byte, want bool) *configclient.Config {
		conf := &configclient.Config{PublicKey: sig.pub, URLList: list, Timeout: 1, CACert: ca}
		t.Case(map[string]interface{}{"kind": kind, "servers": list})
		for i := 0; i < 3; i++ { // a failure has no effect on the next try
			t.Eval("broken/" + kind)
			var err error
			if !t.NoPanic("panic/"+kind, list, func() { err = conf.Update() }) {
				break
			}
			if want != (err == nil) {
				t.Violation("broken/"+kind, fmt.Sprint(err))
			}
			if err != nil && (conf.Map != nil || !bytes.Equal(conf.CACert, ca)) {
				t.Violation("broken-changed/"+kind, fmt.Sprint(conf.Map))
			}
			if err == nil && (!sameMap(conf.Map, m) || hashOf(trusted(conf.CACert)[0]) != hashOf(cas[0])) {
				t.Violation("broken-map/"+kind, fmt.Sprint(conf.Map))
			}
		}
		return conf
	}
	a, b := servers[0], servers[1]
	set(a, good, ca)
	set(b, good, ca)
	run("none", "", nil, false)
	run("malformed", "x;y,;,z;;10", nil, false)
	run("closed", "10,"+closed, nil, false)
	run("closed-first", "10,"+closed+";20,"+a.addr, nil, true)
	run("slash", "10,"+a.addr+"/", nil, true)
	set(b, answer{"hang", nil}, ca)
	run("hang-first", "5,"+b.addr+";20,"+a.addr, nil, true)
	set(b, good, answer{"hang", nil})
	run("hang-ca", "5,"+b.addr+";20,"+a.addr, nil, true)
	set(b, good, answer{"good", []byte("no certificate")})
	run("no-pem", "5,"+b.addr, nil, false)
	run("no-pem-first", "5,"+b.addr+";20,"+a.addr, nil, true)
	run("no-pem-old", "5,"+b.addr, pemOf(evil), false)
	set(b, good, answer{"good", pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: []byte("junk")})})
	run("no-certificate", "5,"+b.addr, nil, false)
	for i, h := range []string{"xyz", "00", hashOf(cas[0])[:126], hashOf(cas[0]) + "00"} {
		x := map[string]string{"a": "b", "CACertHash": h}
		set(b, answer{"good", cert(x, sig.sign(x, date), date)}, ca)
		run(fmt.Sprintf("hash/%d", i), "5,"+b.addr, nil, false)
		run(fmt.Sprintf("hash-ca/%d", i), "5,"+b.addr, pemOf(cas[1]), false)
	}
	// no rollback over updates
	conf := &configclient.Config{PublicKey: sig.pub, URLList: "10," + a.addr, Timeout: 1}
	set(a, good, ca)
	if err := conf.Update(); err != nil {
		t.Violation("rollback/first", fmt.Sprint(err))
	}
	x := map[string]string{"old": "x"}
	set(a, answer{"good", cert(x, sig.sign(x, date-1), date-1)}, ca)
	t.Eval("rollback")
	if err := conf.Update(); err == nil || !sameMap(conf.Map, m) || conf.LastSignDate != date {
		t.Violation("rollback", fmt.Sprintf("%v %v", err, conf.Map))
	}
	set(a, answer{"good", cert(x, sig.sign(x, date), date)}, ca)
	if err := conf.Update(); err != nil || !sameMap(conf.Map, x) {
		t.Violation("rollback/same", fmt.Sprintf("%v %v", err, conf.Map))
	}
}

// f02Lists checks lists of servers.
func f02Lists(t *mon.T) {
	for c := 0; c < t.N(300, 3000); c++ {
		rng := t.Rand("f02l", c)
		type ent struct {
			prio int
			url  string
		}
		var want []ent
		var list []string
		for n := rng.Intn(9); n > 0; n-- {
			e := ent{[]int{0, 1, 2, 10, -5}[rng.Intn(5)], fmt.Sprintf("host%d:%d", rng.Intn(1000), n)}
			sep := []string{",", ", ", " "}[0]
			list = append(list, fmt.Sprintf("%d%s%s", e.prio, sep, e.url))
			want = append(want, ent{e.prio, "http://" + e.url})
			if rng.Intn(5) == 0 {
				list = append(list, []string{"", "junk", "5,", ",x", " "}[rng.Intn(5)])
			}
		}
		str := strings.Join(list, ";")
		t.Case(str)
		t.Eval("list")
		t.NoPanic("list-panic", str, func() {
			sl := roundrobin.ParseServers(str)
			if rng.Intn(4) > 0 {
				sort.Sort(sl)
			} else {
				return
			}
			urls := sl.MakeStrings()
			got := sl.Order()
			if len(got) != len(want) || len(urls) != len(want) {
				t.Violation("list/length", fmt.Sprintf("%s: %v", str, got))
				return
			}
			prio := make(map[string]int)
			for _, e := range want {
				prio[e.url] = e.prio
			}
			for i, u := range got {
				p, ok := prio[u]
				if !ok || (i > 0 && p < prio[got[i-1]]) {
					t.Violation("list/order", fmt.Sprintf("%s: %v", str, got))
				}
			}
			set := make(map[string]bool)
			for _, u := range got {
				set[u] = true
			}
			if len(set) != len(want) {
				t.Violation("list/twice", fmt.Sprintf("%s: %v", str, got))
			}
		})
	}
	// servers of one priority share the load
	count := make(map[string]int)
	pos := rand.New(rand.NewSource(1))
	for i := 0; i < 400; i++ {
		var list []string
		for _, j := range pos.Perm(4) {
			list = append(list, fmt.Sprintf("%d,h%d", 10+10*(j/3), j))
		}
		sl := roundrobin.ParseServers(strings.Join(list, ";"))
		sort.Sort(sl)
		count[sl.Order()[0]]++
	}
	t.Eval("load")
	for i := 0; i < 3; i++ {
		if n := count[fmt.Sprintf("http://h%d", i)]; n < 40 {
			t.Violation("load", fmt.Sprint(count))
		}
	}
	t.Sample("load", count)
}
