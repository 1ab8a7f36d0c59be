package main

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"

	"github.com/mattn/go-runewidth"

	"verif/harness/mon"
)

// terminal is an emulator of the terminal which a pager needs.
type terminal struct {
	mu    sync.Mutex
	w, h  int
	grid  [][]string
	x, y  int
	alt   bool   // the alternative screen is shown
	bad   string // what a pager has no reason to send
	rest  []byte
	bytes int
	drawn int // how often everything has been drawn anew
}

func newTerminal(w, h int) *terminal {
	m := &terminal{}
	m.size(w, h)
	return m
}

func (m *terminal) size(w, h int) {
	m.w, m.h = w, h
	m.grid = make([][]string, h)
	for i := range m.grid {
		m.grid[i] = make([]string, w)
	}
	m.clear()
}

func (m *terminal) clear() {
	for _, row := range m.grid {
		for i := range row {
			row[i] = " "
		}
	}
}

// put writes a rune.
func (m *terminal) put(r rune) {
	n := runewidth.RuneWidth(r)
	if m.y >= m.h {
		return
	}
	row := m.grid[m.y]
	if n == 0 {
		if m.x > 0 && m.x <= m.w {
			at := m.x - 1
			if row[at] == "" && at > 0 {
				at--
			}
			row[at] += string(r)
		}
		return
	}
	if m.x+n > m.w {
		return // no room, the next command moves elsewhere
	}
	// half of a wide character does not stay
	if row[m.x] == "" && m.x > 0 {
		row[m.x-1] = " "
	}
	if m.x+n < m.w && row[m.x+n] == "" {
		row[m.x+n] = " "
	}
	row[m.x] = string(r)
	if n == 2 {
		row[m.x+1] = ""
	}
	m.x += n
}

// command interprets an escape sequence at the start of b and returns its
// length, 0 if it is not complete.
func (m *terminal) command(b []byte) int {
	if len(b) < 2 {
		return 0
	}
	switch b[1] {
	case '=', '>':
		return 2
	case '(', ')':
		if len(b) < 3 {
			return 0
		}
		if b[2] != 'B' && b[2] != '0' {
			m.bad = fmt.Sprintf("%q", b[:3])
		}
		return 3
	case '[':
	default:
		m.bad = fmt.Sprintf("%q", b[:2])
		return 2
	}
	i := 2
	for i < len(b) && b[i] >= 0x20 && b[i] < 0x40 {
		i++
	}
	if i == len(b) {
		return 0
	}
	arg := string(b[2:i])
	switch b[i] {
	case 'H':
		y, x := 1, 1
		if arg != "" {
			if n, err := fmt.Sscanf(arg, "%d;%d", &y, &x); n != 2 || err != nil || y < 1 || x < 1 {
				m.bad = fmt.Sprintf("%q", b[:i+1])
				return i + 1
			}
		}
		m.x, m.y = x-1, y-1
	case 'J':
		if arg != "2" {
			m.bad = fmt.Sprintf("%q", b[:i+1])
		}
		m.clear()
		m.drawn++
	case 'm':
	case 'h', 'l':
		switch arg {
		case "?1049":
			m.alt = b[i] == 'h'
		case "?25", "?12", "?1", "?1000", "?1002", "?1003", "?1006":
		default:
			m.bad = fmt.Sprintf("%q", b[:i+1])
		}
	default:
		m.bad = fmt.Sprintf("%q", b[:i+1])
	}
	return i + 1
}

func (m *terminal) Write(p []byte) (int, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.bytes += len(p)
	b := append(m.rest, p...)
	for len(b) > 0 && m.bad == "" {
		if b[0] == 0x1b {
			n := m.command(b)
			if n == 0 {
				break
			}
			b = b[n:]
			continue
		}
		if !m.alt {
			b = b[1:] // messages before and after
			continue
		}
		if !utf8.FullRune(b) {
			break
		}
		r, n := utf8.DecodeRune(b)
		if r < ' ' || r >= 0x7f && r < 0xa0 {
			m.bad = fmt.Sprintf("%q", b[:n])
		} else {
			m.put(r)
		}
		b = b[n:]
	}
	m.rest = append([]byte{}, b...)
	return len(p), nil
}

// differs compares the terminal with what should be shown.
func (m *terminal) differs(s *state) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.bad != "" {
		return "the terminal got " + m.bad
	}
	if !m.alt {
		return "nothing is shown"
	}
	for y := 0; y < s.h; y++ {
		want := s.x.window(y+s.top, s.left, s.w)
		if got := m.grid[y]; strings.Join(got, "|") != strings.Join(want, "|") {
			return fmt.Sprintf("row %d is %q, want %q", y, got, want)
		}
	}
	if got, want := strings.TrimRight(strings.Join(m.grid[s.h], ""), " "), fmt.Sprintf("%d,%d", s.cy+1, s.cx+1); got != want {
		return fmt.Sprintf("the status is %q, want %q", got, want)
	}
	return ""
}

// pty opens a pseudo terminal.
func pty(t *mon.T) (master, slave *os.File) {
	master, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	t.Must(err, "pseudo terminal")
	var n, zero int32
	ioctl(t, master, syscall.TIOCSPTLCK, unsafe.Pointer(&zero))
	ioctl(t, master, syscall.TIOCGPTN, unsafe.Pointer(&n))
	slave, err = os.OpenFile(fmt.Sprint("/dev/pts/", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	t.Must(err, "pseudo terminal")
	return master, slave
}

func ioctl(t *mon.T, f *os.File, req uintptr, arg unsafe.Pointer) {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), req, uintptr(arg)); e != 0 {
		t.Fatalf("pseudo terminal: %v", e)
	}
}

func resize(t *mon.T, f *os.File, w, h int) {
	size := [4]uint16{uint16(h), uint16(w)}
	ioctl(t, f, syscall.TIOCSWINSZ, unsafe.Pointer(&size))
}

// settings returns the settings of a terminal.
func settings(t *mon.T, f *os.File) syscall.Termios {
	var s syscall.Termios
	ioctl(t, f, syscall.TCGETS, unsafe.Pointer(&s))
	return s
}

// pagers runs the pager itself.
func pagers(t *mon.T) {
	dir := t.TempDir("pager")
	bin := filepath.Join(dir, "mutetui")
	args := append([]string{"build"}, strings.Fields(os.Getenv("VMON_BUILDFLAGS"))...)
	cmd := exec.Command("go", append(args, "-o", bin, "github.com/mutecomm/mute/cmd/mutetui")...)
	cmd.Dir = filepath.Join(os.Getenv("VERIF_DIR"), "harness")
	if _, err := os.Stat(cmd.Dir); err != nil {
		cmd.Dir = ""
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("mutetui does not build: %v\n%s", err, out)
	}
	for _, args := range [][]string{{"pager"}, {"pager", filepath.Join(dir, "missing")}, {"pager", bin, bin}, {"pager", dir}} {
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "TERM=xterm", "HOME="+dir)
		cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true}
		out, err := cmd.CombinedOutput()
		_, failed := err.(*exec.ExitError)
		if !failed || strings.Contains(string(out), "\x1b") || strings.Contains(string(out), "panic:") || !strings.Contains(string(out), "error:") {
			t.Violation("pager/error", fmt.Sprintf("%q: %v, %q", args, err, out))
		}
		t.Eval("pager error")
	}
	n := t.N(48, 600)
	old := t.Violations()
	var wg sync.WaitGroup
	slots := make(chan bool, 8)
	for i := 0; i < n && t.Violations()-old < 4; i++ {
		slots <- true
		wg.Add(1)
		go func(i int) {
			defer func() { <-slots; wg.Done() }()
			page(t, bin, dir, i, t.Rand("pager", i))
		}(i)
	}
	wg.Wait()
}

// page runs the pager on a file, presses keys, and quits it.
func page(t *mon.T, bin, dir string, nth int, r *rand.Rand) {
	b := random(r, 3+r.Intn(30), 3+r.Intn(40))
	file := filepath.Join(dir, fmt.Sprint("text", nth))
	t.Must(ioutil.WriteFile(file, b, 0600), "file")
	s := &state{x: parse(b), w: 12 + r.Intn(30), h: 2 + r.Intn(8)}
	var done []string
	what := func() string {
		return fmt.Sprintf("%q in %dx%d, keys %s", b, s.w, s.h+1, strings.Join(done, " "))
	}
	t.Case("pager")
	master, slave := pty(t)
	defer master.Close()
	defer slave.Close()
	resize(t, slave, s.w, s.h+1)
	before := settings(t, slave)
	cmd := exec.Command(bin, "--loglevel", []string{"info", "trace"}[nth%2], "pager", file)
	cmd.Stdin, cmd.Stdout, cmd.Stderr = slave, slave, slave
	cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true}
	home := filepath.Join(dir, fmt.Sprint("home", nth))
	t.Must(os.MkdirAll(home, 0700), "directory")
	cmd.Dir = home
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "LC_") && !strings.HasPrefix(e, "LANG") && !strings.HasPrefix(e, "TERM=") &&
			!strings.HasPrefix(e, "LINES=") && !strings.HasPrefix(e, "COLUMNS=") && !strings.HasPrefix(e, "VMON_") {
			cmd.Env = append(cmd.Env, e)
		}
	}
	cmd.Env = append(cmd.Env, "TERM=xterm", "LC_ALL=en_US.UTF-8", "HOME="+home)
	m := newTerminal(s.w, s.h+1)
	t.Must(cmd.Start(), "mutetui")
	ended := make(chan error, 1)
	go func() { ended <- cmd.Wait() }()
	defer cmd.Process.Kill()
	go func() {
		buf := make([]byte, 4096)
		for {
			n, err := master.Read(buf)
			if err != nil {
				return
			}
			m.Write(buf[:n])
		}
	}()
	// shown waits until the terminal shows what it should
	shown := func() bool {
		d := ""
		for start := time.Now(); time.Since(start) < 20*time.Second; time.Sleep(2 * time.Millisecond) {
			if d = m.differs(s); d == "" || strings.HasPrefix(d, "the terminal got") {
				break
			}
			select {
			case err := <-ended:
				t.Violation("pager/ended", fmt.Sprintf("%s: it ended: %v", what(), err))
				return false
			default:
			}
		}
		if d != "" {
			key := "screen"
			if strings.HasPrefix(d, "the terminal got") {
				key = "command"
			}
			t.Violation("pager/"+key, what()+": "+d)
			return false
		}
		t.Eval("pager")
		return true
	}
	// settled waits until the pager has dealt with everything before: it does
	// not read events while it deals with others, and forgets those which do
	// not fit into its queue
	settled := func() {
		m.mu.Lock()
		drawn := m.drawn
		m.mu.Unlock()
		master.WriteString("\x0c")
		for start := time.Now(); time.Since(start) < 20*time.Second; time.Sleep(time.Millisecond) {
			m.mu.Lock()
			now := m.drawn
			m.mu.Unlock()
			if now > drawn {
				return
			}
		}
		t.Violation("pager/refresh", what()+": ^L does not draw it anew")
	}
	if !shown() {
		return
	}
	for n := 3 + r.Intn(25); n > 0; n-- {
		switch r.Intn(12) {
		case 0:
			if !s.cursor {
				done = append(done, "i")
				master.WriteString("i")
				s.cursor = true
				s.follow()
			}
		case 1:
			if r.Intn(3) == 0 {
				s.w, s.h = 12+r.Intn(30), 2+r.Intn(8)
				done = append(done, fmt.Sprintf("resize(%d,%d->%d,%d)", m.w, m.h, s.w, s.h+1))
				m.mu.Lock()
				m.size(s.w, s.h+1)
				m.mu.Unlock()
				resize(t, slave, s.w, s.h+1)
				s.fit()
				s.follow()
			}
		default:
			k := keys[r.Intn(len(keys))]
			for c := 1 + r.Intn(4); c > 0; c-- {
				master.WriteString(k.seq)
				k.do(s)
				done = append(done, k.name)
			}
		}
		settled()
		if !shown() {
			return
		}
	}
	master.WriteString([]string{"q", "Q"}[r.Intn(2)])
	done = append(done, "q")
	select {
	case err := <-ended:
		if err != nil {
			t.Violation("pager/quit", fmt.Sprintf("%s: %v", what(), err))
		}
	case <-time.After(30 * time.Second):
		t.Violation("pager/quit", what()+": it does not end")
		return
	}
	for start := time.Now(); time.Since(start) < 5*time.Second; time.Sleep(2 * time.Millisecond) {
		m.mu.Lock()
		alt := m.alt
		m.mu.Unlock()
		if !alt {
			break
		}
	}
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.bad != "" {
		t.Violation("pager/command", what()+": the terminal got "+m.bad)
	}
	if m.alt || settings(t, slave) != before {
		t.Violation("pager/restore", what()+": the terminal is not as it was before")
	}
	if got, err := ioutil.ReadFile(file); err != nil || string(got) != string(b) {
		t.Violation("pager/file", what()+": the file was altered")
	}
	t.CountN("pager keys", int64(len(done)))
	t.CountN("terminal bytes", int64(m.bytes))
}
