package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/mutecomm/mute/msgdb"

	"verif/harness/keyserv"
	"verif/harness/mon"
)

var e09 = &mon.Prop{
	Level: "exploration",
	Rule: "the same random sequence of commands is given to an interactive session of mutectrl and, one by one, to mutectrl in a second world of the same people: outputs, messages, success, the active user ID, the databases and what the servers got must be the same; servers fail in between, commands are malformed, sessions end by quit, by the end of the input or are offline; messages are typed at a pseudo terminal. " +
		"One evaluation is one command which was compared",
	MinEvents: 400,
	Run:       runE09,
}

// session is a mutectrl which reads commands.
type session struct {
	m        *member
	cmd      *exec.Cmd
	in       io.WriteCloser
	outf     string
	errf     string
	outn     int
	errn     int
	done     chan struct{}
	err      error
	ended    bool
	active   string
	terminal bool
}

// pty opens a pseudo terminal.
func pty(t *mon.T) (master, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	t.Must(err, "pseudo terminal")
	ioctl := func(req uintptr, arg *int32) {
		if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), req, uintptr(unsafe.Pointer(arg))); e != 0 {
			t.Fatalf("pseudo terminal: %v", e)
		}
	}
	var n, zero int32
	ioctl(syscall.TIOCSPTLCK, &zero)
	ioctl(syscall.TIOCGPTN, &n)
	slave, err = os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	t.Must(err, "pseudo terminal")
	return master, slave
}

// session starts an interactive session.
func (m *member) session(terminal bool, args ...string) *session {
	t := m.w.t
	s := &session{m: m, done: make(chan struct{}), terminal: terminal}
	m.w.mu.Lock()
	m.w.nth++
	s.outf, s.errf = filepath.Join(m.home, fmt.Sprint("out", m.w.nth)), filepath.Join(m.home, fmt.Sprint("err", m.w.nth))
	m.w.mu.Unlock()
	a := append([]string{"--homedir", m.home, "--logdir", filepath.Join(m.home, "log"), "--loglevel", "warn"}, args...)
	s.cmd = exec.Command(filepath.Join(m.w.bin, "mutectrl"), a...)
	env, _ := json.Marshal(m.env)
	s.cmd.Env = append(os.Environ(), envName+"="+string(env), "PATH="+m.w.bin, "VMON_WORKER=", "TERM=dumb")
	out, err := os.Create(s.outf)
	t.Must(err, "file")
	defer out.Close()
	status, err := os.Create(s.errf)
	t.Must(err, "file")
	defer status.Close()
	s.cmd.Stdout, s.cmd.Stderr = out, status
	var child *os.File
	if terminal {
		var master *os.File
		master, child = pty(t)
		go io.Copy(io.Discard, master) // the echo
		s.in = master
	} else {
		var w *os.File
		child, w, err = os.Pipe()
		t.Must(err, "pipe")
		s.in = w
	}
	s.cmd.Stdin = child
	rd, wr, err := os.Pipe()
	t.Must(err, "pipe")
	wr.WriteString(m.pass + "\n")
	wr.Close()
	s.cmd.ExtraFiles = []*os.File{rd}
	t.Must(s.cmd.Start(), "mutectrl")
	child.Close()
	rd.Close()
	go func() {
		s.err = s.cmd.Wait()
		close(s.done)
	}()
	return s
}

// wait waits until the session is ready for the next command.
func (s *session) wait() (out, status string) {
	over := time.Now().Add(90 * time.Second)
	for {
		ended := false
		select {
		case <-s.done:
			ended = true
		default:
		}
		b, err := os.ReadFile(s.errf)
		s.m.w.t.Must(err, "status")
		b = b[s.errn:]
		if ended || bytes.HasSuffix(b, []byte("READY.\n")) {
			s.ended = ended
			s.errn += len(b)
			o, err := os.ReadFile(s.outf)
			s.m.w.t.Must(err, "output")
			o = o[s.outn:]
			s.outn += len(o)
			status := strings.ReplaceAll(string(b), "read passphrase from fd 3 (not echoed)\n", "")
			if i := strings.LastIndex(status, "active user ID: "); i >= 0 && !ended {
				s.active = strings.TrimSpace(strings.TrimSuffix(status[i+16:], "READY.\n"))
				status = status[:i]
			}
			if i := strings.Index(status, "panic: "); i >= 0 || strings.Contains(status, "fatal error: ") {
				s.m.w.t.Violation("crash/session", status)
			}
			return string(o), strings.ReplaceAll(status, s.m.w.bin+"/", "")
		}
		if time.Now().After(over) {
			atomic.AddInt32(&hangs, 1)
			s.m.w.t.Violation("hang", fmt.Sprintf("the session does not get ready: %s", b))
			s.cmd.Process.Kill()
			panic(mon.Failed{})
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (s *session) run(line string) (out, status string) {
	if !strings.HasSuffix(line, "\x04") {
		line += "\n"
	}
	if _, err := io.WriteString(s.in, line); err != nil {
		return "", "session: " + err.Error()
	}
	return s.wait()
}

func (s *session) kill() {
	s.cmd.Process.Kill()
	s.in.Close()
	<-s.done
}

var nextBad int32

// twins are two worlds in which the same happens: in the first one alice uses
// an interactive session.
type twins struct {
	t     *mon.T
	rng   *mrand.Rand
	w     [2]*world
	alice [2]*member
	bob   [2]*member
	s     *session
	trace []string
	n     int
}

func (tw *twins) violation(key, format string, a ...interface{}) {
	tw.t.Violation(key, map[string]interface{}{"history": tw.trace, "what": fmt.Sprintf(format, a...)})
}

// tidy removes what is different for good reason.
func (tw *twins) tidy(i int, s string) string {
	s = strings.ReplaceAll(s, tw.w[i].dir, "DIR")
	s = strings.TrimPrefix(s, "mutectrl: error: ")
	s = strings.ReplaceAll(s, "\nmutectrl: error: ", "\n")
	var lines []string
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l == "" {
			continue
		}
		if strings.HasPrefix(l, "Date: ") {
			l = "DATE"
		}
		f := strings.Split(l, "\t")
		for k := range f {
			if _, err := time.Parse(time.RFC3339, f[k]); err == nil {
				f[k] = "TIME"
			}
			if len(f[k]) == 44 && strings.HasSuffix(f[k], "=") {
				f[k] = "KEY"
			}
		}
		l = strings.Join(f, "\t")
		if i := strings.Index(l, "127.0.0.1:"); i >= 0 {
			l = l[:i] + "ADDRESS"
		}
		if i := strings.Index(l, "localhost:"); i >= 0 {
			l = l[:i] + "ADDRESS"
		}
		lines = append(lines, l)
	}
	return strings.Join(lines, "\n")
}

// usage cuts the description of a command which is printed for wrong options.
func usage(s string) string {
	for _, mark := range []string{"NAME:\n", "Incorrect Usage"} {
		if i := strings.Index(s, mark); i >= 0 {
			s = s[:i]
		}
	}
	return s
}

// both runs a command in the session and by itself, there with the active user
// ID unless it has one.
func (tw *twins) both(id string, args ...string) bool {
	single := append([]string{}, args...)
	if id != "" {
		single = append(single, "--id", tw.active())
	}
	line := strings.Join(args, " ")
	if tw.rng.Intn(6) == 0 {
		line = "  " + strings.Join(args, "   ") + " "
	}
	out, status := tw.s.run(line)
	r := tw.alice[1].ctl("", single...)
	tw.trace = append(tw.trace, fmt.Sprintf("%s: session %q %q; single %v %q %q", line, out, status, r.err, r.out, r.status))
	tw.t.Eval(line + status)
	tw.t.Count("compared/" + strings.Join(args[:min2(len(args), 2)], " "))
	if tw.s.ended {
		tw.violation("ended", "the session ended: %v %s", tw.s.err, status)
		panic(mon.Failed{})
	}
	o := [2]string{tw.tidy(0, usage(out)), tw.tidy(1, usage(r.out))}
	st := [2]string{tw.tidy(0, usage(status)), tw.tidy(1, usage(r.status))}
	if r.err != nil {
		tw.t.Count("failed")
		if o[0] != "" && o[0] != o[1] {
			tw.violation("output/"+strings.Join(args[:min2(len(args), 2)], " "), "the failing command %q gives %q in the session and %q by itself", line, o[0], o[1])
		}
	} else if o[0] != o[1] {
		tw.violation("output/"+strings.Join(args[:min2(len(args), 2)], " "), "%q gives %q in the session and %q by itself", line, o[0], o[1])
	}
	if st[0] != st[1] && !(r.err != nil && st[0] != "" && strings.Contains(r.status, "option --id is mandatory")) {
		tw.violation("status/"+strings.Join(args[:min2(len(args), 2)], " "), "%q says %q in the session and %q by itself", line, st[0], st[1])
	}
	want := tw.active()
	if want == "" {
		want = "none"
	}
	if tw.s.active != want {
		tw.violation("active", "after %q the active user ID is %q in the session and %q by itself", line, tw.s.active, want)
	}
	return r.err == nil
}

// active is the active user ID in the world without session.
func (tw *twins) active() (id string) {
	tw.alice[1].db(func(db *msgdb.MsgDB) {
		var err error
		id, err = db.GetValue(msgdb.ActiveUID)
		tw.t.Must(err, "active user ID")
	})
	return id
}

// each does something else in both worlds.
func (tw *twins) each(f func(i int) string) {
	a, b := f(0), f(1)
	if a != b {
		tw.violation("world", "%q in the world with the session and %q in the other one", a, b)
	}
}

// mail takes the mails to the mailboxes.
func (tw *twins) mail() {
	tw.each(func(i int) string {
		n := 0
		for _, d := range tw.w[i].relay() {
			tw.w[i].deposit(d)
			n++
		}
		return fmt.Sprint(n, " mails")
	})
}

func (tw *twins) single(m [2]*member, in string, args ...string) {
	tw.each(func(i int) string {
		r := m[i].ctl(in, args...)
		return tw.tidy(i, fmt.Sprint(r.err != nil, usage(r.out), usage(r.status)))
	})
}

func newTwins(t *mon.T, rng *mrand.Rand) *twins {
	tw := &twins{t: t, rng: rng}
	for i := range tw.w {
		tw.w[i] = newWorld(t)
		tw.alice[i], tw.bob[i] = tw.w[i].newMember(), tw.w[i].newMember()
	}
	return tw
}

func (tw *twins) close() {
	if tw.s != nil {
		tw.s.kill()
	}
	for _, w := range tw.w {
		w.close()
	}
}

func (tw *twins) start(terminal bool, args ...string) {
	tw.s = tw.alice[0].session(terminal, args...)
	_, status := tw.s.wait()
	if tw.s.ended {
		tw.violation("start", "the session ended: %v %s", tw.s.err, status)
		panic(mon.Failed{})
	}
	tw.t.Count("sessions")
}

// stop ends the session.
func (tw *twins) stop(quit bool) {
	if quit {
		io.WriteString(tw.s.in, "quit\n")
	} else if tw.s.terminal {
		io.WriteString(tw.s.in, "\x04")
	} else {
		tw.s.in.Close()
	}
	select {
	case <-tw.s.done:
	case <-time.After(60 * time.Second):
		tw.violation("hang/quit", "the session does not end")
	}
	if tw.s.err != nil {
		tw.violation("quit", "the session ends with %v", tw.s.err)
	}
	tw.s.in.Close()
	tw.s = nil
	tw.state()
}

// state compares what is stored.
func (tw *twins) state() {
	tw.each(func(i int) string {
		var l []string
		m := tw.alice[i]
		m.db(func(db *msgdb.MsgDB) {
			ids, err := db.GetNyms(true)
			tw.t.Must(err, "user IDs")
			for _, id := range ids {
				un, full, err := db.GetNym(id)
				tw.t.Must(err, "user ID")
				l = append(l, id, un, full)
				for _, blocked := range []bool{false, true} {
					c, err := db.GetContacts(id, blocked)
					tw.t.Must(err, "contacts")
					l = append(l, fmt.Sprint(blocked, c))
				}
				ms, err := db.GetMsgIDs(id)
				tw.t.Must(err, "messages")
				for _, x := range ms {
					_, _, msg, _, err := db.GetMessage(id, x.MsgID)
					tw.t.Must(err, "message")
					l = append(l, fmt.Sprint(x.MsgID, x.From, x.To, x.Incoming, x.Sent, x.Read, x.Subject, msg))
				}
				_, _, _, min, max, _, err := db.GetAccount(id, "")
				l = append(l, fmt.Sprint(min, max, err))
			}
		})
		return strings.Join(append(l, fmt.Sprint(m.charged(), m.tokens(), m.locked(), tw.w[i].presented())), "\n")
	})
}

func (tw *twins) file(text string) string {
	tw.n++
	name := fmt.Sprint("letter", tw.n)
	tw.each(func(i int) string {
		tw.t.Must(os.WriteFile("/"+filepath.Join(tw.alice[i].home, name), []byte(text), 0600), "file")
		return ""
	})
	return name
}

// history is one sequence of commands.
func (tw *twins) history(steps int) {
	rng := tw.rng
	own := []string{"alice@mute.one", "Al.Ice2@mute.one"}
	for _, m := range []string{"bob@mute.one", "carol@mute.one"} {
		tw.single(tw.bob, "", "uid", "new", "--id", m)
	}
	tw.start(false)
	defer func() {
		if tw.s != nil {
			tw.s.kill()
			tw.s = nil
		}
	}()
	tw.both("", "uid", "list")
	tw.both("", "uid", "active")
	tw.both("", "uid", "new", "--id", own[0])
	tw.single(tw.bob, "", "contact", "add", "--id", "bob@mute.one", "--contact", own[0])
	tw.both("id", "contact", "add", "--contact", "bob@mute.one")
	second := false
	others := []string{"bob@mute.one", "carol@mute.one", "nobody@mute.one", "BOB@mute.one", "bad"}
	pick := func() string { return others[rng.Intn(len(others))] }
	for k := 0; k < steps; k++ {
		id := "id"
		var extra []string
		if rng.Intn(4) == 0 {
			id, extra = "", []string{"--id", own[rng.Intn(2)]}
		}
		with := func(args ...string) bool { return tw.both(id, append(args, extra...)...) }
		switch (k*5 + rng.Intn(2)) % 21 {
		case 0:
			with("contact", "add", "--contact", pick(), "--full-name", fmt.Sprint("Name", k))
		case 1:
			with("contact", "list")
		case 2:
			with("contact", "block", "--contact", pick())
		case 3:
			with("contact", "unblock", "--contact", pick())
		case 4:
			with("contact", "edit", "--contact", pick(), "--full-name", fmt.Sprint("Other", k))
		case 5:
			with("contact", "remove", "--contact", pick())
		case 6:
			with("contact", "blacklist")
		case 7, 8, 9:
			name := tw.file(fmt.Sprintf("message %d\nof history\n", k))
			tw.message(id, extra, name, others[rng.Intn(2)])
		case 10, 11:
			if rng.Intn(3) == 0 {
				tw.both("", "msg", "send", "--all")
			} else {
				with("msg", "send")
			}
			tw.mail()
		case 12:
			tw.single(tw.bob, fmt.Sprintf("answer %d\n", k), "msg", "add", "--from", "bob@mute.one", "--to", own[0])
			tw.single(tw.bob, "", "msg", "send", "--id", "bob@mute.one")
			tw.mail()
			with("msg", "fetch")
		case 13:
			with("msg", "list")
		case 14:
			with("msg", "read", "--msgnum", fmt.Sprint(1+rng.Intn(6)))
		case 15:
			with("msg", "delete", "--msgnum", fmt.Sprint(1+rng.Intn(9)))
		case 16:
			if !second {
				second = tw.both("", "uid", "new", "--id", own[1], "--full-name", "Two")
			} else {
				tw.both("", "uid", "delete", "--force", "--id", own[1])
				second = false
			}
		case 17:
			tw.both("", "uid", "switch", "--id", own[rng.Intn(2)])
			tw.both("id", "msg", "list")
		case 18:
			tw.both("", strings.Fields([]string{"uid list", "uid active", "wallet balance", "db version", "uid edit --id alice@mute.one --full-name A"}[rng.Intn(5)])...)
		case 19:
			bad := [][]string{{"uid"}, {"nonsense"}, {"nonsense", "list"}, {"msg", "add", "--from"}, {"contact", "add", "--what", "x"}, {"msg", "list", "superfluous"}, {"contact", "list", "--id"}, {"upkeep", "hashchain", "--domain", "mute.one", "extra"}, {"uid", "new"}, {"uid", "switch"}, {"msg", "read", "--msgnum", "none"}}
			tw.both("", bad[int(atomic.AddInt32(&nextBad, 1))%len(bad)]...)
		case 20:
			tw.fault()
		}
	}
	tw.stop(rng.Intn(2) == 0)
	for round := 0; round < 2; round++ {
		tw.single(tw.alice, "", "msg", "send", "--all")
		tw.mail()
		tw.single(tw.bob, "", "msg", "fetch", "--all")
		tw.single(tw.bob, "", "msg", "send", "--all")
		tw.mail()
		tw.single(tw.alice, "", "msg", "fetch", "--all")
	}
	tw.single(tw.bob, "", "msg", "list", "--id", "bob@mute.one")
	tw.single(tw.bob, "", "msg", "list", "--id", "carol@mute.one")
	tw.state()
}

// message writes a message which is in a file.
func (tw *twins) message(id string, extra []string, name, to string) {
	s := tw.s
	args := []string{"msg", "add", "--to", to}
	line := strings.Join(append(append(append([]string{}, args...), extra...), "--file", tw.alice[0].home+"/"+name), " ")
	single := append(append([]string{}, args...), extra...)
	if id != "" {
		single = append(single, "--from", tw.active())
	} else {
		line = strings.Replace(line, "--id", "--from", 1)
		single[len(single)-2] = "--from"
	}
	out, status := s.run(line)
	r := tw.alice[1].ctl("", append(single, "--file", tw.alice[1].home+"/"+name)...)
	tw.trace = append(tw.trace, fmt.Sprintf("%s: session %q %q; single %v %q %q", line, out, status, r.err, r.out, r.status))
	tw.t.Eval(line + status)
	tw.t.Count("compared/msg add")
	want := "message added"
	if r.err != nil {
		want = tw.tidy(1, usage(r.status))
	}
	if got := tw.tidy(0, usage(status)); got != want || s.ended || usage(out) != "" {
		tw.violation("status/msg add", "%q says %q (%q) in the session and %q is expected", line, got, out, want)
	}
}

// fault makes servers fail for one command.
func (tw *twins) fault() {
	kind := tw.rng.Intn(4)
	set := func(on bool) {
		for _, w := range tw.w {
			w := w
			switch kind {
			case 0, 1:
				if !on {
					w.g.setHook(nil)
					continue
				}
				w.g.setHook(func(c *call) fault { return fault{kind: "status", text: "500"} })
			case 2:
				w.d.mu.Lock()
				w.d.refuse = nil
				if on {
					w.d.refuse = func(string) string { return "accountdb: refused" }
				}
				w.d.mu.Unlock()
			case 3:
				unlock := w.ks.Lock()
				w.ks.Before = nil
				if on {
					w.ks.Before = func(string, map[string]interface{}) interface{} { return keyserv.Raw("no") }
				}
				unlock()
			}
		}
	}
	set(true)
	tw.t.Count("faults")
	switch tw.rng.Intn(4) {
	case 0:
		tw.both("id", "msg", "fetch")
	case 1:
		tw.both("id", "contact", "add", "--contact", "carol@mute.one")
	case 2:
		tw.both("id", "upkeep", "accounts", "--period", "0s")
	case 3:
		tw.both("", "uid", "new", "--id", "third@mute.one")
	}
	set(false)
}

func runE09(t *mon.T) {
	n := t.N(10, 60)
	parallel(t, n, func(i int) {
		tw := newTwins(t, t.Rand("session", i))
		defer tw.close()
		tw.history(42)
	})
	parallel(t, t.N(4, 30), func(i int) { typed(t, t.Rand("typed", i)) })
	parallel(t, t.N(4, 30), func(i int) { aloof(t, t.Rand("offline", i), i) })
}

// typed writes messages at a terminal.
func typed(t *mon.T, rng *mrand.Rand) {
	tw := newTwins(t, rng)
	defer tw.close()
	bob, w := tw.bob[0], tw.w[0]
	must := func(m *member, args ...string) result {
		r := m.ctl("", args...)
		tw.trace = append(tw.trace, fmt.Sprintf("%v -> %v %q", args, r, r.out))
		if r.err != nil {
			tw.violation("fails", "%v: %v", args, r)
			panic(mon.Failed{})
		}
		return r
	}
	must(bob, "uid", "new", "--id", "bob@mute.one")
	tw.start(true)
	say := func(line, want string) {
		out, status := tw.s.run(line)
		tw.trace = append(tw.trace, fmt.Sprintf("session %q: %q %q", line, out, status))
		if tw.tidy(0, status) != want || tw.s.ended {
			tw.violation("typed/status", "%q says %q, expected is %q", line, status, want)
			panic(mon.Failed{})
		}
	}
	say("uid new --id alice@mute.one", "")
	say("contact add --contact bob@mute.one", "")
	must(bob, "contact", "add", "--id", "bob@mute.one", "--contact", "alice@mute.one")
	const ask = "type message (end with Ctrl-D on empty line):"
	sent := map[string]string{}
	var bad []string
	words := []string{"hello", "quit", "msg list", "", " indented", "grüße ☺", "\"quoted\"", strings.Repeat("long ", 300), "uid delete --force --id alice@mute.one", ".", "From: x"}
	for k := 0; k < 6; k++ {
		subject := fmt.Sprintf("typed %d", k)
		text := subject + "\n"
		for l := rng.Intn(6); l > 0; l-- {
			text += words[rng.Intn(len(words))] + "\n"
		}
		in, line := text, "msg add --to bob@mute.one"
		switch k {
		case 2:
			in, line = "Subject: "+subject+"\nTo: bob@mute.one\n\nby mail\n", "msg add --mail-input"
			text = subject + "\nby mail\n"
		case 3:
			line = "msg add --to carol@mute.one"
		}
		want := ask + "\nmessage added"
		if k == 3 {
			want = ask + "\ncontact carol@mute.one not found (for user ID alice@mute.one)"
			bad = append(bad, subject)
		} else {
			sent[subject] = text
		}
		say(line+"\n"+in+"\x04", want)
		t.Eval("typed " + text)
		t.Count("typed")
	}
	say("msg send", "")
	if _, status := tw.s.run("no such command"); tw.s.ended {
		tw.violation("typed/ended", "the session ended: %s", status)
	}
	for _, d := range w.relay() {
		w.deposit(d)
	}
	io.WriteString(tw.s.in, []string{"quit\n", "\x04"}[rng.Intn(2)])
	select {
	case <-tw.s.done:
		if tw.s.err != nil {
			tw.violation("quit", "the session ends with %v", tw.s.err)
		}
	case <-time.After(60 * time.Second):
		tw.violation("hang/quit", "the session does not end")
	}
	must(bob, "msg", "fetch", "--id", "bob@mute.one")
	for _, ln := range strings.Split(must(bob, "msg", "list", "--id", "bob@mute.one").out, "\n") {
		f := strings.SplitN(ln, "\t", 5)
		if len(f) != 5 {
			continue
		}
		text, ok := sent[f[4]]
		if !ok {
			tw.violation("typed/message", "unexpected message %q", ln)
			continue
		}
		delete(sent, f[4])
		r := must(bob, "msg", "read", "--id", "bob@mute.one", "--msgnum", strings.TrimSpace(f[0][2:]))
		body := text[strings.Index(text, "\n")+1:]
		if !strings.Contains(r.out, "Subject: "+f[4]) || !strings.HasSuffix(strings.TrimRight(r.out, "\r\n"), strings.TrimRight(body, "\n")) {
			tw.violation("typed/text", "typed was %q, read is %q", text, r.out)
		}
	}
	for sub := range sent {
		tw.violation("typed/lost", "the message %q did not arrive; %v", sub, bad)
	}
}

// aloof runs an offline session: nobody is contacted.
func aloof(t *mon.T, rng *mrand.Rand, i int) {
	tw := newTwins(t, rng)
	defer tw.close()
	tw.single(tw.bob, "", "uid", "new", "--id", "bob@mute.one")
	tw.single(tw.alice, "", "uid", "new", "--id", "alice@mute.one")
	tw.single(tw.alice, "", "contact", "add", "--id", "alice@mute.one", "--contact", "bob@mute.one")
	tw.single(tw.alice, "one\nmessage\n", "msg", "add", "--from", "alice@mute.one", "--to", "bob@mute.one")
	if i%2 == 1 {
		// the configuration should be fetched again
		tw.each(func(k int) string {
			tw.alice[k].config(tw.w[k].conf, time.Now().Add(-30*time.Hour))
			return ""
		})
	}
	var calls int32
	var first atomic.Value
	tell := func(what string) {
		if atomic.AddInt32(&calls, 1) == 1 {
			first.Store(what)
		}
	}
	for _, w := range tw.w {
		w.g.setHook(func(c *call) fault { tell("service guard"); return fault{} })
		unlock := w.ks.Lock()
		w.ks.Before = func(m string, p map[string]interface{}) interface{} { tell("key server " + m); return nil }
		unlock()
		w.d.mu.Lock()
		w.d.raw = func([]byte) { tell("account server") }
		w.d.mu.Unlock()
	}
	args := []string{"--offline"}
	s := tw.alice[0].session(false, args...)
	tw.s = s
	if _, status := s.wait(); s.ended {
		tw.violation("offline/start", "the session ended: %v %s", s.err, status)
		panic(mon.Failed{})
	}
	name := tw.file("two\noffline\n")
	lines := [][]string{{"uid", "list"}, {"uid", "active"}, {"contact", "list", "--id", "alice@mute.one"}, {"contact", "edit", "--id", "alice@mute.one", "--contact", "bob@mute.one", "--full-name", "B"},
		{"msg", "list", "--id", "alice@mute.one"}, {"msg", "add", "--from", "alice@mute.one", "--to", "bob@mute.one", "--file", name}, {"contact", "block", "--id", "alice@mute.one", "--contact", "eve@mute.one"},
		{"contact", "blacklist", "--id", "alice@mute.one"}, {"uid", "edit", "--id", "alice@mute.one", "--full-name", "A"}, {"msg", "read", "--id", "alice@mute.one", "--msgnum", "1"}, {"wallet", "pubkey"}, {"db", "version"}, {"msg", "delete", "--id", "alice@mute.one", "--msgnum", "1"}}
	rng.Shuffle(len(lines), func(a, b int) { lines[a], lines[b] = lines[b], lines[a] })
	for _, l := range lines {
		a, b := append([]string{}, l...), append([]string{"--offline"}, l...)
		if a[len(a)-1] == name {
			a[len(a)-1], b[len(b)-1] = tw.alice[0].home+"/"+name, tw.alice[1].home+"/"+name
		}
		out, status := s.run(strings.Join(a, " "))
		t.Eval("offline " + strings.Join(l, " "))
		t.Count("offline")
		if n := atomic.SwapInt32(&calls, 0); n > 0 {
			tw.violation("offline/contacts", "%v in an offline session made %d calls, first the %v", l, n, first.Load())
		}
		r := tw.alice[1].ctl("", b...)
		if n := atomic.SwapInt32(&calls, 0); n > 0 {
			tw.violation("offline/single", "%v made %d calls, first the %v", b, n, first.Load())
		}
		tw.trace = append(tw.trace, fmt.Sprintf("%v: %q %q; single %v %q", l, out, status, r, r.out))
		so, ss := tw.tidy(0, usage(out)), strings.TrimSpace(strings.ReplaceAll(tw.tidy(0, usage(status)), "message added", ""))
		if s.ended || so != tw.tidy(1, usage(r.out)) || ss != tw.tidy(1, usage(r.status)) {
			tw.violation("offline/differs", "%v: %q %q in the session, %q %q by itself", l, out, status, r.out, r.status)
		}
	}
	tw.stop(true)
}
