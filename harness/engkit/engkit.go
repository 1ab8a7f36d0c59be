// Package engkit drives real crypt engines: one-shot commands and engines in
// command loop mode.
package engkit

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/mutecomm/mute/cryptengine"
)

// Config returns a complete configuration map.
func Config(extra map[string]string) map[string]string {
	zero := strings.Repeat("00", 32)
	m := map[string]string{
		"mixclient.MixAddress": "mix@mute.one", "mixclient.AccountServer": "accounts.mute.one",
		"mixclient.Sender": "sender@mute.one", "walletrpc.ServiceURL": "http://127.0.0.1:1/",
		"keylookup.ServiceURL": "http://127.0.0.1:1/", "guardrpc.ServiceURL": "http://127.0.0.1:1/",
		"serviceguard.TrustRoot": zero, "mix.MaxDelay": "600", "muteaccd.owner": zero, "muteaccd.usage": "Message",
	}
	for k, v := range extra {
		m[k] = v
	}
	return m
}

// WriteConfig writes the configuration file to a home directory.
func WriteConfig(home string, m map[string]string) error {
	if err := os.MkdirAll(filepath.Join(home, "config"), 0700); err != nil {
		return err
	}
	b, err := json.Marshal(map[string]interface{}{"Map": m})
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(home, "config", "mainnet@mute.one"), b, 0600)
}

// User is the owner of a home directory.
type User struct {
	Home string
	Pass string
	n    int
}

var newMu sync.Mutex

// dup returns an additional descriptor which the engine will own.
func dup(f *os.File) (string, error) {
	fd, err := syscall.Dup(int(f.Fd()))
	if err != nil {
		return "", err
	}
	syscall.CloseOnExec(fd)
	return fmt.Sprint(fd), nil
}

func newEngine() *cryptengine.CryptEngine {
	// the command line library writes usage texts to stdout
	newMu.Lock()
	defer newMu.Unlock()
	old := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err == nil {
		os.Stdout = null
	}
	ce := cryptengine.New()
	os.Stdout = old
	return ce
}

func (u *User) args(in, out, status, pass, cmd string) []string {
	return []string{"mutecrypt", "--homedir", u.Home, "--logdir", filepath.Join(u.Home, "log"),
		"--loglevel", "critical", "--input-fd", in, "--output-fd", out, "--status-fd", status,
		"--passphrase-fd", pass, "--command-fd", cmd}
}

// Result of a command.
type Result struct {
	Out, Status string
	Err         error
}

// Run runs one command in a new engine (i.e. like a process of its own).
// pass is given on the passphrase descriptor.
func (u *User) Run(input []byte, pass string, command ...string) (r Result) {
	u.n++
	base := filepath.Join(u.Home, fmt.Sprintf("io%d", u.n))
	var files []*os.File
	defer func() {
		for _, f := range files {
			f.Close()
			os.Remove(f.Name())
		}
	}()
	var fds []string
	for i, content := range [][]byte{input, nil, nil, []byte(pass), nil} {
		name := fmt.Sprintf("%s.%d", base, i)
		if err := os.WriteFile(name, content, 0600); err != nil {
			r.Err = err
			return
		}
		f, err := os.OpenFile(name, os.O_RDWR, 0600)
		if err != nil {
			r.Err = err
			return
		}
		files = append(files, f)
		fd, err := dup(f)
		if err != nil {
			r.Err = err
			return
		}
		fds = append(fds, fd)
	}
	ce := newEngine()
	r.Err = ce.Start(append(u.args(fds[0], fds[1], fds[2], fds[3], fds[4]), command...))
	b, _ := os.ReadFile(base + ".1")
	r.Out = string(b)
	b, _ = os.ReadFile(base + ".2")
	r.Status = string(b)
	return
}

// Cmd runs one command with the passphrase of the user.
func (u *User) Cmd(input []byte, command ...string) Result {
	return u.Run(input, u.Pass+"\n", command...)
}

// Create creates the key database of the user.
func (u *User) Create() error {
	return u.Run(nil, u.Pass+"\n"+u.Pass+"\n", "db", "create", "--iterations", "2").Err
}

// Loop is an engine in command loop mode.
type Loop struct {
	CE     *cryptengine.CryptEngine // the running engine, its key database is open
	cmd    *os.File
	status *bufio.Reader
	files  []*os.File
	done   chan error
	out    string // name of the output file
	outPos int
}

// Out returns what was written to the output descriptor since the last call.
func (l *Loop) Out() string {
	b, _ := os.ReadFile(l.out)
	if l.outPos > len(b) {
		return ""
	}
	s := string(b[l.outPos:])
	l.outPos = len(b)
	return s
}

// In makes content what the next command reads from the input descriptor.
func (l *Loop) In(content []byte) error {
	f := l.files[0] // shares its position with the descriptor of the engine
	if err := f.Truncate(0); err != nil {
		return err
	}
	if _, err := f.WriteAt(content, 0); err != nil {
		return err
	}
	_, err := f.Seek(0, io.SeekStart)
	return err
}

// Loop starts an engine in command loop mode and opens the key database.
func (u *User) Loop() (*Loop, error) {
	u.n++
	l := &Loop{done: make(chan error, 1), out: filepath.Join(u.Home, fmt.Sprintf("io%d.1", u.n))}
	tmp := func(i int, content string) (string, error) {
		name := filepath.Join(u.Home, fmt.Sprintf("io%d.%d", u.n, i))
		if err := os.WriteFile(name, []byte(content), 0600); err != nil {
			return "", err
		}
		f, err := os.OpenFile(name, os.O_RDWR, 0600)
		if err != nil {
			return "", err
		}
		l.files = append(l.files, f)
		return dup(f)
	}
	in, err := tmp(0, "")
	if err != nil {
		return nil, err
	}
	out, err := tmp(1, "")
	if err != nil {
		return nil, err
	}
	pass, err := tmp(2, u.Pass+"\n")
	if err != nil {
		return nil, err
	}
	cr, cw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cfd, err := dup(cr)
	if err != nil {
		return nil, err
	}
	sfd, err := dup(sw)
	if err != nil {
		return nil, err
	}
	cr.Close()
	sw.Close()
	l.cmd = cw
	l.status = bufio.NewReader(sr)
	l.files = append(l.files, sr, cw)
	l.CE = newEngine()
	go func() { l.done <- l.CE.Start(u.args(in, out, sfd, pass, cfd)) }()
	if s, err := l.Do("db version"); err != nil || len(s) > 0 {
		return nil, fmt.Errorf("engkit: cannot open key database: %v %v", s, err)
	}
	l.Out() // the version
	return l, nil
}

// Do executes a command and returns the status lines before READY.
func (l *Loop) Do(command string) (lines []string, err error) {
	if _, err := fmt.Fprintln(l.cmd, command); err != nil {
		return nil, err
	}
	for {
		s, err := l.status.ReadString('\n')
		if err != nil {
			return lines, errors.New("engkit: engine has ended")
		}
		s = strings.TrimSpace(s)
		if s == "READY." || s == "QUITTING" {
			return lines, nil
		}
		lines = append(lines, s)
	}
}

// Quit ends the engine.
func (l *Loop) Quit() error {
	_, err := l.Do("quit")
	e := <-l.done
	for _, f := range l.files {
		f.Close()
		os.Remove(f.Name())
	}
	if err != nil {
		return err
	}
	return e
}
