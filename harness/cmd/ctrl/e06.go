package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/sha512"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/harness/mon"

	"github.com/mutecomm/mute/configclient"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	"github.com/mutecomm/mute/util/git"
)

var e06 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "members run commands while the configuration changes, gets old, and is served well, badly or not at all; the client is killed at every write; git and go are stand-ins which note what they are told; " +
		"one evaluation is one command which was judged",
	MinEvents: 700,
	Run:       runE06,
}

// confImage is what is signed of a configuration.
func confImage(m map[string]string, date uint64) []byte {
	var keys []string
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var b bytes.Buffer
	put := func(s string) {
		binary.Write(&b, binary.BigEndian, uint64(len(s)))
		b.WriteString(s)
	}
	for _, k := range keys {
		put(k)
		put(m[k])
	}
	binary.Write(&b, binary.BigEndian, uint64(b.Len()))
	h := sha512.Sum512(b.Bytes())
	d := make([]byte, 8)
	binary.BigEndian.PutUint64(d, date)
	return append(h[:], d...)
}

// edition is a configuration as it is served.
type edition struct {
	n      int
	kind   string
	m      map[string]string
	date   uint64 // of the signature
	body   []byte
	ca     []byte // certificate of the CA which is served, if any
	broken bool   // Mute cannot be initialized with it
}

func (e *edition) url(service string) string {
	return fmt.Sprintf("https://%s-%d.mute.invalid/", service, e.n)
}

type config struct {
	*life
	m    *member
	priv ed25519.PrivateKey
	l    net.Listener

	mu      sync.Mutex
	served  *edition
	asked   int
	ground  sync.Mutex
	current *edition // stored by the client
	last    uint64   // sign date of it
	at      int64    // time of the fetch, 0 if it is not known
	all     []*edition
	urls    []string // asked of services
}

func newConfig(t *mon.T, rng *mrand.Rand) *config {
	c := &config{life: &life{t: t, w: newWorld(t), rng: rng}}
	c.m = c.w.newMember()
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	t.Must(err, "key")
	c.priv = priv
	c.l, err = net.Listen("tcp", "127.0.0.1:0")
	t.Must(err, "listen")
	srv := &http.Server{Handler: http.HandlerFunc(c.serve)}
	srv.SetKeepAlivesEnabled(false)
	go srv.Serve(c.l)
	c.m.env.Config = hex.EncodeToString(pub) + " " + c.l.Addr().String()
	c.w.g.url = func(service, u string) bool {
		c.mu.Lock()
		c.urls = append(c.urls, service+" "+u)
		c.mu.Unlock()
		return true
	}
	// nothing has been fetched
	c.m.db(func(db *msgdb.MsgDB) {
		t.Must(db.DelValue(netDomain), "value")
		t.Must(db.DelValue("time."+netDomain), "value")
	})
	t.Must(os.RemoveAll(filepath.Join(c.m.home, "config")), "configuration")
	c.m.env.Source = filepath.Join(c.w.dir, "source")
	t.Must(os.MkdirAll(c.m.env.Source, 0700), "directory")
	t.Must(os.MkdirAll(filepath.Join(c.w.dir, "src", "github.com", "mutecomm", "mute"), 0700), "directory")
	self, err := os.Executable()
	t.Must(err, "executable")
	for _, n := range []string{"git", "go"} {
		t.Must(os.Symlink(self, filepath.Join(c.w.bin, n)), "symlink")
	}
	return c
}

func (c *config) close() {
	c.l.Close()
	c.w.close()
}

func (c *config) serve(w http.ResponseWriter, r *http.Request) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if r.URL.Path == "/cacert" {
		w.Write(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c.served.ca}))
		return
	}
	c.asked++
	switch c.served.kind {
	case "drop":
		panic(http.ErrAbortHandler)
	case "status":
		w.WriteHeader(500)
		w.Write([]byte("<html>error</html>"))
		return
	case "cut":
		w.Header().Set("Content-Length", fmt.Sprint(len(c.served.body)+7))
	}
	w.Write(c.served.body)
}

var binDate = func() time.Time {
	d, err := time.Parse(git.Date, release.Date)
	if err != nil {
		panic(err)
	}
	return d
}()

// editions are the kinds of configurations which are served.
var editions = []string{"good", "drop", "good", "forged", "good", "status", "good", "stale", "cut", "good", "broken", "future", "junk", "good", "edited", "good", "older", "broken"}
var releases = []string{"same", "newer", "same", "older", "soon", "newer", "late", "same", "soon", "equal", "edge", "newer", "baddate", "same", "newer", "nodate"}

// publish serves another edition.
func (c *config) publish(kind, rel string) *edition {
	now := uint64(time.Now().Unix())
	e := &edition{n: len(c.all) + 1, kind: kind}
	e.date = now - uint64(c.rng.Intn(3*3600))
	if e.date < c.last {
		e.date = c.last
	}
	e.m = map[string]string{}
	for k, v := range c.w.conf {
		e.m[k] = v
	}
	e.m["keylookup.ServiceURL"], e.m["walletrpc.ServiceURL"] = e.url("lookup"), e.url("wallet")
	e.m["note"] = []string{"", "%d %s %!", "<&>\u2028", "100%", "\x00", "\"\\"}[c.rng.Intn(6)]
	e.m[fmt.Sprintf("extra%d", e.n)] = "only here"
	d := time.Duration(0)
	other := true
	switch rel {
	case "same":
		other = false
	case "newer":
		d = time.Duration(1+c.rng.Intn(13)) * 24 * time.Hour
	case "edge":
		d = 14*24*time.Hour - time.Duration(c.rng.Intn(2)*2-1)*time.Hour
	case "soon":
		d = time.Hour
	case "older":
		d = -time.Duration(1+c.rng.Intn(100)) * 24 * time.Hour
	case "late":
		d = time.Duration(15+c.rng.Intn(500)) * 24 * time.Hour
	}
	e.m["release.Date"] = binDate.Add(d).In(time.FixedZone("", (c.rng.Intn(25)-12)*3600)).Format(git.Date)
	switch rel {
	case "baddate":
		e.m["release.Date"] = "tomorrow"
	case "nodate":
		delete(e.m, "release.Date")
	}
	if other {
		e.m["release.Commit"] = fmt.Sprintf("%040x", 1000+e.n)
	}
	switch kind {
	case "broken":
		e.broken = true
		switch c.rng.Intn(4) {
		case 0:
			delete(e.m, []string{"mixclient.MixAddress", "muteaccd.owner", "guardrpc.ServiceURL", "muteaccd.usage"}[c.rng.Intn(4)])
		case 1:
			e.m["mix.MaxDelay"] = "long"
		case 2:
			e.m["serviceguard.TrustRoot"] = "zz"
		case 3:
			delete(e.m, "walletrpc.ServiceURL")
		}
	case "stale":
		e.date = now - 5*3600
	case "future":
		e.date = now + 5*3600
	case "older":
		if c.last > 0 {
			e.date = c.last - 1
		} else {
			e.kind = "good"
		}
	}
	if b, _ := pem.Decode(c.w.ca.pem); b != nil && c.rng.Intn(3) == 0 {
		e.ca = b.Bytes
		h := sha512.Sum512(e.ca)
		e.m["CACertHash"] = hex.EncodeToString(h[:])
	}
	sig := ed25519.Sign(c.priv, confImage(e.m, e.date))
	m := map[string]string{}
	for k, v := range e.m {
		m[k] = v
	}
	switch kind {
	case "forged":
		_, k, _ := ed25519.GenerateKey(rand.Reader)
		sig = ed25519.Sign(k, confImage(e.m, e.date))
	case "edited":
		m["walletrpc.ServiceURL"] = "https://evil.mute.invalid/"
	}
	b, err := json.Marshal(map[string]interface{}{"Config": m, "Signature": sig, "SignDate": e.date})
	c.t.Must(err, "json")
	e.body = b
	if kind == "junk" {
		e.body = []byte([]string{"", "{}", "null", "<html>", string(b[:len(b)/2])}[c.rng.Intn(5)])
	}
	c.mu.Lock()
	c.served = e
	c.mu.Unlock()
	c.all = append(c.all, e)
	c.note("edition %d: %s, release %s (%s), signed %d s ago", e.n, kind, rel, e.m["release.Date"], int64(now)-int64(e.date))
	return e
}

// acceptable says whether the client has to take an edition.
func (c *config) acceptable(e *edition) bool {
	switch e.kind {
	case "good", "broken":
		return true
	case "older":
		return e.date >= c.last && uint64(time.Now().Unix())-e.date < 4*3600-300
	}
	return false
}

// age moves what is stored into the past.
func (c *config) age(d time.Duration) {
	if c.current == nil {
		return
	}
	c.m.db(func(db *msgdb.MsgDB) {
		c.at -= int64(d / time.Second)
		v, err := db.GetValue("time." + netDomain)
		c.t.Must(err, "value")
		if v != "" {
			c.t.Must(db.AddValue("time."+netDomain, strconv.FormatInt(c.at, 10)), "value")
		}
		// the configuration was signed longer ago, too
		jsn, err := db.GetValue(netDomain)
		c.t.Must(err, "value")
		var conf configclient.Config
		c.t.Must(json.Unmarshal([]byte(jsn), &conf), "json")
		c.last -= uint64(d / time.Second)
		conf.LastSignDate = c.last
		b, err := json.Marshal(conf)
		c.t.Must(err, "json")
		c.t.Must(db.AddValue(netDomain, string(b)), "value")
	})
	c.note("%v pass", d)
}

// stored is what the client has stored.
func (c *config) stored() (conf *configclient.Config, at string) {
	c.m.db(func(db *msgdb.MsgDB) {
		jsn, err := db.GetValue(netDomain)
		c.t.Must(err, "value")
		if jsn != "" {
			conf = &configclient.Config{}
			if err := json.Unmarshal([]byte(jsn), conf); err != nil {
				c.violation("stored/json", "%v in %.100q", err, jsn)
				panic(mon.Failed{})
			}
		}
		at, err = db.GetValue("time." + netDomain)
		c.t.Must(err, "value")
	})
	return
}

func sameConf(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

var confCmds = [][]string{{"uid", "list"}, {"wallet", "pubkey"}, {"upkeep", "fetchconf"}, {"upkeep", "fetchconf", "--show"}, {"uid", "list"}, {"upkeep", "update"}, {"upkeep", "update"}}

// command runs a command and judges it.
func (c *config) command(args []string, offline bool) {
	full := args
	if offline {
		full = append([]string{"--offline"}, args...)
	}
	c.mu.Lock()
	c.asked, c.urls = 0, nil
	served := c.served
	c.mu.Unlock()
	src := c.newSource(served)
	start := time.Now().Unix()
	r := c.m.ctl("", full...)
	end := time.Now().Unix()
	c.note("%q -> %v", full, r)
	c.t.Eval(fmt.Sprint(full, len(c.trace), c.rng.Int()))
	c.mu.Lock()
	asked, urls := c.asked, c.urls
	c.mu.Unlock()

	// what has to happen
	fetches, fails := 0, ""
	used := c.current
	at := c.at
	fetch := func() {
		fetches++
		if !c.acceptable(served) {
			fails = "fetch"
			return
		}
		used, at = served, end
		if served.broken {
			fails = "broken"
		}
	}
	old := start - c.at
	switch {
	case c.current == nil && offline:
		fails = "no configuration"
	case c.current == nil:
		fetch()
	case c.current.broken && offline:
		fails = "broken"
	case c.current.broken:
		fetch()
	case old > 24*3600 && offline:
		if old > 7*24*3600 {
			fails = "outdated"
		}
	case old > 24*3600:
		fetch()
	}
	update, fetchconf := args[1] == "update", args[1] == "fetchconf"
	var rd time.Time
	var rerr error
	release1 := func() {
		rd, rerr = time.Parse(git.Date, used.m["release.Date"])
	}
	status := ""
	if fails == "" && !update {
		if release1(); used.m["release.Commit"] != release.Commit {
			switch {
			case rerr != nil:
				fails = "release date"
			case rd.After(binDate.Add(14 * 24 * time.Hour)):
				fails = "too old"
			case rd.After(binDate):
				status = "please update"
			}
		}
	}
	online := fails == "" && !offline
	first := used
	if fails == "" && (fetchconf || update) {
		fetch()
	}
	installs := ""
	if fails == "" && update {
		if release1(); used.m["release.Commit"] == release.Commit {
			status = "up-to-date"
		} else if rerr != nil {
			fails = "release date"
		} else if binDate.After(rd) {
			status = "newer than release"
		} else {
			installs = used.m["release.Commit"]
			if src.fails {
				fails = "source"
			} else {
				status = "updated"
			}
		}
	}
	c.t.Count("outcome/" + strings.ReplaceAll(fails+status, " ", "-"))
	key := args[1]
	if fails != "" && r.err == nil {
		c.violation("accepted/"+fails, "%q succeeds, though: %s", full, fails)
	} else if fails == "" && r.err != nil {
		c.violation("fails/"+key, "%q: %v", full, r)
	}
	if status != "" && !strings.Contains(r.status, status) && !(fetchconf && fails != "") {
		c.violation("status/"+key, "%q says %q instead of %q", full, r.status, status)
	} else if status == "" && strings.Contains(r.status, "please update") && fails != "too old" {
		c.violation("status/"+key, "%q says %q", full, r.status)
	}
	if asked != fetches {
		c.violation("asked/"+key, "%q asks for the configuration %d times instead of %d", full, asked, fetches)
	}
	// what was used
	for _, u := range urls {
		f := strings.Fields(u)
		if !online || len(f) != 2 || f[1] != first.url(f[0]) {
			c.violation("used/"+key, "%q talks to %s, the configuration is edition %d", full, u, num(first))
		}
	}
	if online && len(urls) == 0 {
		c.violation("used/none", "%q talks to no service", full)
	}
	// what is stored
	conf, ats := c.stored()
	c.compare(key, conf, used, full)
	n, _ := strconv.ParseInt(ats, 10, 64)
	switch {
	case used == nil && ats != "":
		c.violation("time/"+key, "%q stores the time %q and no configuration", full, ats)
	case fetches == 0 || used == c.current:
		if n != c.at && used != nil && (fetches == 0 || !c.acceptable(served)) {
			c.violation("time/"+key, "%q changes the time of the fetch from %d to %q", full, c.at, ats)
		}
	case n < start || n > end:
		c.violation("time/"+key, "%q stores the time %q, it is %d", full, ats, end)
	}
	if used != nil {
		c.last, c.at = conf.LastSignDate, n
	}
	_ = at
	c.current = used
	// the tools use the configuration from the file
	if used != nil && !used.broken {
		c.file(key, used, full)
	}
	if fails == "" && fetchconf && len(args) > 2 {
		var shown configclient.Config
		if err := json.Unmarshal([]byte(r.out), &shown); err != nil || !sameConf(shown.Map, used.m) {
			c.violation("show", "%q shows %v %.300q, edition %d is %v", full, err, r.out, num(used), used.m)
		}
	}
	src.judge(c, full, installs, r)
}

func num(e *edition) int {
	if e == nil {
		return 0
	}
	return e.n
}

func (c *config) compare(key string, conf *configclient.Config, used *edition, full []string) {
	switch {
	case used == nil && conf != nil:
		c.violation("stored/"+key, "%q stores a configuration: %v", full, conf.Map)
	case used != nil && (conf == nil || !sameConf(conf.Map, used.m)):
		c.violation("stored/"+key, "%q: edition %d has to be stored, and not %v", full, used.n, conf)
		panic(mon.Failed{})
	case used != nil && used.ca != nil && !bytes.Contains(conf.CACert, []byte("CERTIFICATE")):
		c.violation("stored/ca", "%q: the CA certificate is not stored", full)
	}
}

func (c *config) file(key string, used *edition, full []string) {
	var conf configclient.Config
	b, err := os.ReadFile(filepath.Join(c.m.home, "config", netDomain))
	if err == nil {
		err = json.Unmarshal(b, &conf)
	}
	if err != nil || !sameConf(conf.Map, used.m) {
		c.violation("file/"+key, "%q: the file of the configuration is not edition %d: %v %v", full, used.n, err, conf.Map)
	}
}

func runE06(t *mon.T) {
	n := t.N(20, 160)
	parallel(t, n, func(i int) {
		rng := t.Rand("config", i)
		c := newConfig(t, rng)
		defer c.close()
		k, q := i*4, i*3
		for step := 0; step < 40; step++ {
			if step == 0 || rng.Intn(2) == 0 {
				c.publish(editions[k%len(editions)], releases[q%len(releases)])
				k++
				if c.served.kind == "good" {
					q++
				}
			}
			if c.current != nil && rng.Intn(3) > 0 {
				c.age([]time.Duration{time.Hour, 20 * time.Hour, 23*time.Hour + 50*time.Minute, 24*time.Hour + 10*time.Minute, 3 * 24 * time.Hour, 6 * 24 * time.Hour, 7*24*time.Hour - 10*time.Minute, 7*24*time.Hour + 10*time.Minute, 100 * 24 * time.Hour}[rng.Intn(9)])
			}
			c.command(confCmds[rng.Intn(len(confCmds))], rng.Intn(4) == 0)
		}
	})
	parallel(t, t.N(7, 28), func(i int) { crashConfig(t, i) })
}

// crashConfig kills the client at each of its writes while it takes a new
// configuration.
func crashConfig(t *mon.T, i int) {
	c := newConfig(t, t.Rand("crash", i))
	defer c.close()
	if i%2 == 1 {
		c.publish("good", "same")
		c.command(confCmds[0], false)
	}
	was := c.current
	for nth := 1 + i/2; nth < 60; nth += 4 {
		if i%2 == 0 {
			// the first one of all
			c.m.db(func(db *msgdb.MsgDB) {
				t.Must(db.DelValue(netDomain), "value")
				t.Must(db.DelValue("time."+netDomain), "value")
			})
			c.current, c.last, c.at, was = nil, 0, 0, nil
		} else {
			c.age(30 * time.Hour)
			was = c.current
		}
		c.publish("good", "same")
		next := c.served
		c.m.wrap = []string{"/usr/bin/strace", "-f", "-qq", "-o", "/dev/null", "-e", "trace=fsync,fdatasync,unlinkat,renameat,rename,unlink,pwrite64", "-e", fmt.Sprintf("inject=fsync,fdatasync,unlinkat,unlink,renameat,rename,pwrite64:signal=KILL:when=%d", nth)}
		r := c.m.ctl("", "uid", "list")
		c.m.wrap = nil
		c.note("uid list, killed at write %d -> %v", nth, r)
		t.Eval(fmt.Sprint("crash", i, nth))
		conf, at := c.stored()
		switch {
		case conf != nil && sameConf(conf.Map, next.m):
			c.current = next
			t.Count("crash/new")
		case was == nil && conf == nil, was != nil && conf != nil && sameConf(conf.Map, was.m):
			c.current = was
			t.Count("crash/old")
		default:
			c.violation("crash/stored", "%v is stored after the client was killed", conf)
			return
		}
		c.at, _ = strconv.ParseInt(at, 10, 64)
		if conf != nil {
			c.last = conf.LastSignDate
		}
		killed := r.err != nil
		// a day later at the latest it is replaced
		if c.current != nil {
			c.age(25 * time.Hour)
			if at == "" {
				t.Count("crash/no time")
				c.at = 0
			}
		}
		c.publish("good", "same")
		c.command(confCmds[0], false)
		if !killed {
			break
		}
	}
}
