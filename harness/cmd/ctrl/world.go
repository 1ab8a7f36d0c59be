package main

import (
	"bytes"
	"context"
	"crypto/ed25519"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/engkit"
	"verif/harness/keyserv"
	"verif/harness/mon"

	"github.com/mutecomm/mute/cipher"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/mix/mixaddr"
	"github.com/mutecomm/mute/mix/mixcrypt"
	"github.com/mutecomm/mute/mix/nymaddr"
	"github.com/mutecomm/mute/msgdb"
	"github.com/mutecomm/mute/release"
	"github.com/mutecomm/mute/serviceguard/client"
	"github.com/mutecomm/mute/serviceguard/common/constants"
	"github.com/mutecomm/mute/util"
)

const netDomain = "mainnet@mute.one"

func b64dec(s string) []byte { b, _ := base64.StdEncoding.DecodeString(s); return b }

// world is everything which the tools talk to.
type world struct {
	coarse        int64 // the account server's receive times have this granularity (seconds)
	t             *mon.T
	dir           string
	bin           string
	ca            *ca
	g             *guardNet
	uid, msg, acc *issuer
	ks            *keyserv.Server
	d             *acctd
	s             *smtpd
	mix           *mixaddr.KeyList
	conf          map[string]string

	tokOwner [32]byte // UID tokens
	accOwner [32]byte

	mu    sync.Mutex
	spent map[string]string // tokens which were presented, by hash
	late  map[string]bool   // tokens which the mix says have expired
	nth   int               // of the homes
	mixed int               // mails accepted which the mix has handled
}

func key32() (k [32]byte) { rand.Read(k[:]); return k }

func newWorld(t *mon.T) *world {
	w := &world{coarse: 1, t: t, dir: t.TempDir("ctrl"), spent: map[string]string{}, late: map[string]bool{}, tokOwner: key32(), accOwner: key32()}
	w.bin = filepath.Join(w.dir, "bin")
	t.Must(os.Mkdir(w.bin, 0700), "directory")
	self, err := os.Executable()
	t.Must(err, "executable")
	for _, n := range []string{"mutectrl", "mutecrypt", "muteproto"} {
		t.Must(os.Symlink(self, filepath.Join(w.bin, n)), "symlink")
	}
	w.ca = newCA(t)
	w.g = newNet(t)
	w.uid, w.msg, w.acc = w.g.issuer(true), w.g.issuer(true), w.g.issuer(true)
	in40 := time.Now().Unix() + 40*86400
	w.uid.key("UID", in40)
	w.msg.key("Message", in40)
	w.acc.key("Account", in40)
	w.g.issuerOf = func(usage string) (*issuer, *keyPair) {
		i := map[string]*issuer{"UID": w.uid, "Message": w.msg, "Account": w.acc}[usage]
		if i == nil {
			t.Violation("token/usage", "the wallet asks for tokens of usage "+usage)
			i = w.uid
		}
		i.mu.Lock()
		defer i.mu.Unlock()
		for _, k := range i.current {
			return i, k
		}
		return nil, nil
	}
	w.g.preset = func() bool { return true }
	w.ks, err = keyserv.New("mute.one", t.Rand("keyserver"))
	t.Must(err, "key server")
	w.ks.Seen = w.presentKeys
	w.ks.TokenKey = base64.StdEncoding.EncodeToString(w.tokOwner[:])
	w.d = newAcctd(t, w.ca)
	w.s = newSMTP(t)
	cert := w.ca.cert(t, false, "127.0.0.1")
	w.s.set(map[string]string{}, &cert, "")
	_, priv, err := ed25519.GenerateKey(rand.Reader)
	t.Must(err, "key")
	var pk [64]byte
	copy(pk[:], priv)
	w.mix = mixaddr.New(&pk, "mix@127.0.0.1", 100*86400, 86400, w.dir)
	w.mix.AddKey()
	b, err := json.Marshal(w.mix.GetStatement())
	t.Must(err, "statement")
	w.d.keys = string(b)
	w.conf = engkit.Config(map[string]string{
		"release.Commit": release.Commit, "release.Date": release.Date,
		"keyserver.mute.one": w.ks.URL,
		"mixclient.RPCPort":  w.d.port, "mixclient.AccountServer": "127.0.0.1", "mixclient.MixAddress": "mix@127.0.0.1",
		"mixclient.Sender":       "sender@mute.one",
		"walletrpc.ServiceURL":   constants.WalletServerURL,
		"keylookup.ServiceURL":   constants.KeyLookupURL,
		"guardrpc.ServiceURL":    constants.IssuerURL,
		"serviceguard.TrustRoot": hex.EncodeToString(w.g.rootPub[:]),
		"muteaccd.owner":         hex.EncodeToString(w.accOwner[:]), "muteaccd.usage": "Account",
	})
	return w
}

func (w *world) close() {
	w.g.close()
	w.ks.Close()
	w.d.close()
	w.s.l.Close()
}

// member is a user of the tools.
type member struct {
	w      *world
	home   string
	pass   string
	wallet [32]byte
	env    childEnv
	log    string

	level   string        // of the logs
	wrap    []string      // mutectrl is started by this command
	started func(pid int) // told of a command of mutectrl
	ended   func()
}

func (w *world) image(m map[string]string) []byte {
	b, err := json.Marshal(map[string]interface{}{"Map": m, "CACert": w.ca.pem})
	w.t.Must(err, "json")
	return b
}

// newMember makes the databases of a user as mutectrl and mutecrypt do; the
// configuration which cannot be fetched is written by the harness.
func (w *world) newMember() *member {
	t := w.t
	w.nth++
	m := &member{w: w, home: filepath.Join(w.dir, fmt.Sprint("home", w.nth)), pass: fmt.Sprintf("pass phrase %d", w.nth)}
	t.Must(os.MkdirAll(m.home, 0700), "home")
	m.log = filepath.Join(m.home, "tools.log")
	m.env = childEnv{Guard: w.g.l.Addr().String(), SMTP: w.s.port, Log: m.log}
	db := filepath.Join(m.home, "msgs")
	t.Must(msgdb.Create(db, []byte(m.pass), 64), "message database")
	pub, priv, err := ed25519.GenerateKey(rand.Reader)
	t.Must(err, "wallet key")
	copy(m.wallet[:], pub)
	w.g.mu.Lock()
	w.g.wallets[m.wallet] = &walletAcc{replies: make(map[string]map[string]interface{})}
	w.g.mu.Unlock()
	m.values(map[string]string{msgdb.WalletKey: base64.StdEncoding.EncodeToString(priv)})
	m.config(w.conf, time.Now())
	r := m.tool("mutecrypt", []byte(m.pass+"\n"+m.pass+"\n"), "", "--passphrase-fd", "stdin", "db", "create", "--iterations", "64")
	if r.err != nil {
		t.Fatalf("mutecrypt db create: %v %s", r.err, r.status)
	}
	return m
}

// values sets values in the message database.
func (m *member) values(v map[string]string) {
	m.db(func(db *msgdb.MsgDB) {
		for k, x := range v {
			m.w.t.Must(db.AddValue(k, x), "value")
		}
	})
}

func (m *member) db(f func(db *msgdb.MsgDB)) {
	db, err := msgdb.Open(filepath.Join(m.home, "msgs"), []byte(m.pass))
	m.w.t.Must(err, "open message database")
	defer db.Close()
	f(db)
}

// charged is how many tokens the wallet of a member has paid.
func (m *member) charged() int {
	m.w.g.mu.Lock()
	defer m.w.g.mu.Unlock()
	return m.w.g.wallets[m.wallet].charged
}

// tokens is how many tokens are in the wallet of a member.
func (m *member) tokens() (n int) {
	m.db(func(db *msgdb.MsgDB) {
		err := db.DB().QueryRow("SELECT COUNT(*) FROM walletTokens;").Scan(&n)
		if err != nil && !strings.Contains(err.Error(), "no such table") {
			m.w.t.Must(err, "tokens")
		}
	})
	return n
}

// locked is how many tokens are kept for a command which is under way.
func (m *member) locked() (n int) {
	m.db(func(db *msgdb.MsgDB) {
		db.DB().QueryRow("SELECT COUNT(*) FROM walletTokens WHERE LockID<>0;").Scan(&n)
	})
	return n
}

func (m *member) unlock() {
	m.db(func(db *msgdb.MsgDB) { db.DB().Exec("UPDATE walletTokens SET LockID=0, LockTime=0;") })
}

// presented is how many tokens servers have seen.
func (w *world) presented() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.spent)
}

// config sets the configuration, as fetched at the given time.
func (m *member) config(c map[string]string, at time.Time) {
	b := m.w.image(c)
	m.values(map[string]string{netDomain: string(b), "time." + netDomain: fmt.Sprint(at.Unix())})
	dir := filepath.Join(m.home, "config")
	m.w.t.Must(os.MkdirAll(dir, 0700), "directory")
	m.w.t.Must(os.WriteFile(filepath.Join(dir, netDomain), b, 0600), "configuration")
}

// hangs counts the tools which did not end; further ones would only cost time.
var hangs int32

type result struct {
	out, status string
	err         error
	killed      bool
}

func (r result) String() string { return fmt.Sprintf("%v; %s", r.err, strings.TrimSpace(r.status)) }

// tool runs a tool and waits for it.
func (m *member) tool(name string, in []byte, pass string, args ...string) (r result) {
	t := m.w.t
	os.Remove(m.log)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	level := m.level
	if level == "" {
		level = "warn"
	}
	a := append([]string{"--homedir", m.home, "--logdir", filepath.Join(m.home, "log"), "--loglevel", level}, args...)
	line := append([]string{filepath.Join(m.w.bin, name)}, a...)
	if name == "mutectrl" {
		line = append(append([]string{}, m.wrap...), line...)
	}
	cmd := exec.CommandContext(ctx, line[0], line[1:]...)
	env, _ := json.Marshal(m.env)
	cmd.Env = append(os.Environ(), envName+"="+string(env), "PATH="+m.w.bin, "VMON_WORKER=")
	cmd.Stdin = bytes.NewReader(in)
	var out, status bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &status
	cmd.WaitDelay = 10 * time.Second
	rd, wr, err := os.Pipe()
	t.Must(err, "pipe")
	wr.WriteString(pass + "\n")
	wr.Close()
	cmd.ExtraFiles = []*os.File{rd}
	if r.err = cmd.Start(); r.err == nil {
		if m.started != nil {
			m.started(cmd.Process.Pid)
		}
		r.err = cmd.Wait()
	}
	if m.ended != nil {
		m.ended()
	}
	rd.Close()
	r.out, r.status = out.String(), strings.ReplaceAll(status.String(), "read passphrase from fd 3 (not echoed)\n", "")
	if i := strings.Index(r.status, "NAME:\n"); i >= 0 {
		r.status = r.status[:i] // the usage follows
	}
	r.status = strings.ReplaceAll(r.status, m.w.bin+"/", "")
	if ctx.Err() != nil {
		atomic.AddInt32(&hangs, 1)
		t.Violation("hang", fmt.Sprintf("%s %v does not end: %s", name, args, r.status))
		panic(mon.Failed{})
	}
	if ps := cmd.ProcessState; ps != nil && ps.ExitCode() == -1 {
		r.killed = true
	}
	if i := strings.Index(r.status, "panic: "); i >= 0 || strings.Contains(r.status, "fatal error: ") {
		if i < 0 {
			i = 0
		}
		t.Violation("crash/"+name+" "+strings.Join(args[:min2(len(args), 2)], " "), r.status[i:])
	}
	if os.Getenv("CTRL_TRACE") != "" {
		note(os.Getenv("CTRL_TRACE"), fmt.Sprintf("%s %v: %v killed=%v out=%q status=%q", name, args, r.err, r.killed, r.out, r.status))
	}
	return r
}

// ctl runs a command of mutectrl.
func (m *member) ctl(in string, args ...string) result {
	m.w.t.Count("command/" + strings.Join(args[:min2(len(args), 2)], " "))
	return m.tool("mutectrl", []byte(in), m.pass, args...)
}

// present judges a token which was given to a server.
func (w *world) present(what, where string, b []byte, i *issuer, owner [32]byte) {
	h := w.valid(what, where, b, i, owner)
	if h == "" {
		return
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if before := w.spent[h]; before != "" && before != where {
		w.t.Violation("token/"+what+"/twice", fmt.Sprintf("%s: the token was presented before: %s", where, before))
	}
	w.spent[h] = where
}

// presentKeys judges the tokens which reach the key server. One of them can be
// presented again if the answer was lost.
func (w *world) presentKeys(method string, params map[string]interface{}) {
	what, i, tokens := "", w.msg, []interface{}{params["Token"]}
	switch method {
	case "KeyRepository.CreateUID", "KeyRepository.UpdateUID":
		what, i = "UID", w.uid
	case "KeyInitRepository.AddKeyInit":
		what = "Message"
		tokens, _ = params["Tokens"].([]interface{})
		if inits, _ := params["KeyInits"].([]interface{}); len(inits) != len(tokens) {
			w.t.Violation("token/keyinit", fmt.Sprintf("%d tokens for %d key init messages", len(tokens), len(inits)))
		}
	default:
		return
	}
	for _, x := range tokens {
		s, _ := x.(string)
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil || len(b) == 0 {
			w.t.Violation("token/"+method, fmt.Sprintf("%q is presented as a token", s))
			continue
		}
		w.valid(what, method, b, i, w.tokOwner)
	}
}

// valid judges a token and returns its name.
func (w *world) valid(what, where string, b []byte, i *issuer, owner [32]byte) string {
	i.mu.Lock()
	tk, k, err := i.check(b)
	i.mu.Unlock()
	if err != nil {
		w.t.Violation("token/"+what, fmt.Sprintf("%s: %v", where, err))
		return ""
	}
	if !tk.Flag || !bytes.Equal(tk.Owner, owner[:]) {
		w.t.Violation("token/"+what+"/owner", fmt.Sprintf("%s: token of %x is presented to %x", where, tk.Owner, owner))
	}
	if k.Usage != what {
		w.t.Violation("token/"+what+"/usage", where+": token for "+k.Usage)
	}
	w.t.Count("token/" + what)
	return string(tk.hash())
}

// expire makes the mail server say from now on that the token of the next
// mail has expired.
func (w *world) expire() {
	next := true
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.s.verdict = func(data []byte) string {
		body, err := mixclient.ReadMail(data)
		if err != nil {
			return ""
		}
		r, err := mixcrypt.ReceiveMessage(w.mix.GetPrivateKey, body)
		if err != nil {
			return ""
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		k := string(r.MixHeader.Token)
		if next {
			w.late[k] = true
			next = false
		}
		if w.late[k] {
			w.t.Count("token/expired")
			return "554 5.7.1 " + client.ErrFinal.Error()
		}
		return ""
	}
}

// address makes an address of one of the nyms of a member, and the template
// which opens what is sent to it.
func (m *member) address(id string) (addr []byte, tmpl nymaddr.AddressTemplate, mailbox []byte) {
	m.db(func(db *msgdb.MsgDB) {
		priv, server, secret, _, _, _, err := db.GetAccount(id, "")
		m.w.t.Must(err, "account")
		tmpl = nymaddr.AddressTemplate{Secret: secret[:], MixCandidates: m.w.mix.GetStatement().Addresses, Expire: time.Now().Unix() + 86400}
		var pub [32]byte
		copy(pub[:], priv[32:])
		mailbox = util.MailboxAddress(&pub, server)
		addr, err = tmpl.NewAddress(mailbox, cipher.SHA256([]byte(id)))
		m.w.t.Must(err, "nym address")
	})
	return
}

// through takes a message through the mix.
func (w *world) through(addr, msg []byte) delivery {
	out, _, err := (&mixcrypt.ClientMixHeader{}).NewRelayMessage(addr, msg)
	w.t.Must(err, "relay message")
	r, err := mixcrypt.ReceiveMessage(w.mix.GetPrivateKey, out)
	w.t.Must(err, "mix")
	b, to, err := r.Send()
	w.t.Must(err, "mix")
	return delivery{mailbox: to, msg: b}
}

// delivery is one mail which came out of the mix.
type delivery struct {
	mailbox string
	msg     []byte
	revoke  string
	// minimum and maximum delay
	sender, recipient string
}

// relay lets the mix handle the mails which the mail server accepted since the
// last time.
func (w *world) relay() (l []delivery) {
	acc, _, _ := w.s.result()
	for _, a := range acc[w.mixed:] {
		w.mixed++
		body, err := mixclient.ReadMail(a.data)
		if err != nil {
			w.t.Violation("mix/mail", err.Error())
			continue
		}
		r, err := mixcrypt.ReceiveMessage(w.mix.GetPrivateKey, body)
		if err != nil {
			w.t.Violation("mix/receive", err.Error())
			continue
		}
		var owner [32]byte
		copy(owner[:], w.mixKey())
		w.present("Message", fmt.Sprintf("envelope %x", r.MixHeader.RevokeID), r.MixHeader.Token, w.msg, owner)
		msg, to, err := r.Send()
		if err != nil {
			w.t.Violation("mix/send", err.Error())
			continue
		}
		d := delivery{mailbox: to, msg: msg, revoke: string(r.MixHeader.RevokeID)}
		d.sender = fmt.Sprint(r.MixHeader.SenderMinDelay, " ", r.MixHeader.SenderMaxDelay)
		d.recipient = fmt.Sprint(r.NymAddressPrivate.MinDelay, " ", r.NymAddressPrivate.MaxDelay)
		l = append(l, d)
	}
	return l
}

func (w *world) mixKey() []byte {
	return w.mix.GetStatement().Addresses[0].TokenKey
}

// deposit puts a mail in its mailbox.
func (w *world) deposit(dl delivery) {
	i := strings.Index(dl.mailbox, "@")
	if i < 0 {
		w.t.Violation("mix/mailbox", dl.mailbox)
		return
	}
	k, err := hex.DecodeString(dl.mailbox[:i])
	if err != nil || len(k) != 32 {
		w.t.Violation("mix/mailbox", dl.mailbox)
		return
	}
	var key [32]byte
	copy(key[:], k)
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	a := w.d.get("127.0.0.1", key)
	if a.load == 0 {
		w.t.Violation("mix/account", "a message is sent to an account which was never paid")
	}
	id := make([]byte, 32)
	rand.Read(id)
	now := time.Now().Unix()
	// the newest message is the first of the list
	a.msgs = append([]acctMsg{{id: id, recv: now - now%w.coarse, nano: int64(len(a.msgs)), body: dl.msg, userKey: key}}, a.msgs...)
}

func min2(a, b int) int {
	if a < b {
		return a
	}
	return b
}
