package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	mrand "math/rand"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/mon"
)

var e01 = &mon.Prop{
	Level: "exploration",
	Rule: "clients which know the passphrase, and others which do not, talk to the web server of mutectrl at the same time, over all kinds of requests; " +
		"one evaluation is one answer which was judged",
	MinEvents: 1500,
	Run:       runE01,
}

// site is a running web application.
type site struct {
	t    *mon.T
	m    *member
	cmd  *exec.Cmd
	url  string
	file string // what is secret in the document root
	mu   sync.Mutex
	err  bytes.Buffer

	good map[string]bool // cookies given after the right passphrase
	last string          // the newest one, if no login is under way
}

func newSite(t *mon.T, w *world) *site {
	s := &site{t: t, m: w.newMember(), good: map[string]bool{}}
	root := filepath.Join(s.m.home, "docroot")
	t.Must(os.MkdirAll(filepath.Join(root, "sub"), 0700), "directory")
	s.file = fmt.Sprintf("secret page %x", key32())
	for _, f := range []string{"index.html", "page.txt", "sub/page.txt"} {
		t.Must(os.WriteFile(filepath.Join(root, f), []byte(s.file), 0600), "page")
	}
	t.Must(os.WriteFile(filepath.Join(s.m.home, "outside.txt"), []byte("outside "+s.file), 0600), "page")
	env, _ := json.Marshal(s.m.env)
	s.cmd = exec.Command(filepath.Join(w.bin, "mutectrl"), "--homedir", s.m.home, "--logdir", filepath.Join(s.m.home, "log"), "--loglevel", "warn",
		"app", "--docroot", root, "--http", "127.0.0.1:0")
	s.cmd.Env = []string{envName + "=" + string(env), "PATH=" + w.bin, "GORACE=exitcode=0"}
	e, err := s.cmd.StderrPipe()
	t.Must(err, "pipe")
	t.Must(s.cmd.Start(), "start")
	ready := make(chan string, 1)
	go func() {
		sc := bufio.NewScanner(e)
		for sc.Scan() {
			s.mu.Lock()
			fmt.Fprintln(&s.err, sc.Text())
			s.mu.Unlock()
			if u := strings.TrimPrefix(sc.Text(), "open browser for address: "); u != sc.Text() {
				ready <- strings.TrimSuffix(u, "/login")
			}
		}
		close(ready)
	}()
	select {
	case s.url = <-ready:
	case <-time.After(60 * time.Second):
	}
	if s.url == "" {
		t.Fatalf("the web application does not start: %s", s.log())
	}
	return s
}

func (s *site) log() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.err.String()
}

func (s *site) stop() {
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

var direct = &http.Client{
	Transport:     &http.Transport{DisableKeepAlives: true},
	CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse },
	Timeout:       60 * time.Second,
}

type reply struct {
	code   int
	body   string
	cookie string // given
	err    error
}

func (s *site) do(method, path, cookie string, set bool, form string) reply {
	req, err := http.NewRequest(method, s.url, strings.NewReader(form))
	s.t.Must(err, "request")
	req.URL.Opaque = "//" + req.URL.Host + path
	if form != "" {
		req.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	}
	if set {
		req.Header.Set("Cookie", cookie)
	}
	resp, err := direct.Do(req)
	if err != nil {
		return reply{err: err}
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	r := reply{code: resp.StatusCode, body: string(b)}
	for _, c := range resp.Cookies() {
		if c.Name == "mute" {
			r.cookie = c.Value
		}
	}
	return r
}

func (s *site) violation(key, f string, a ...interface{}) {
	s.t.Violation(key, fmt.Sprintf(f, a...)+"\n"+s.log())
}

// login tries a passphrase.
func (s *site) login(pass string) reply {
	r := s.do("POST", "/login", "", false, url.Values{"passphrase": {pass}}.Encode())
	s.judgeLogin(pass == s.m.pass, fmt.Sprintf("passphrase %.40q", pass), r)
	return r
}

func (s *site) judgeLogin(right bool, what string, r reply) {
	s.t.Eval(fmt.Sprint(s.url, what, r.code, r.cookie))
	switch {
	case right && (r.err != nil || r.cookie == ""):
		s.violation("login/refused", "the right passphrase is refused: %d %.200s %v", r.code, r.body, r.err)
	case right:
		s.t.Count("login")
		if len(r.cookie) < 16 {
			s.violation("login/short", "cookie %q", r.cookie)
		}
		s.mu.Lock()
		again := s.good[r.cookie]
		s.good[r.cookie] = true
		s.last = r.cookie
		s.mu.Unlock()
		if again {
			s.violation("login/repeated", "cookie %q was given twice", r.cookie)
		}
	default:
		s.t.Count("login/wrong")
		if r.err != nil {
			// the connection was closed; a crash shows up in the log
			s.t.Count("login/closed")
		} else if r.cookie != "" || r.code < 400 {
			s.violation("login/wrong", "%s is accepted: %d, cookie %q", what, r.code, r.cookie)
		}
	}
}

var paths = []string{"/", "/page.txt", "/sub/page.txt", "/sub/", "/sub", "/index.html", "/login/", "/login/../page.txt", "//page.txt", "/./page.txt", "/nothing", "/LOGIN", "/login/x", "/%6Cogin/../page.txt", "/../outside.txt", "/..%2foutside.txt", "/sub/../../outside.txt", "/%2e%2e/outside.txt", "/..\\outside.txt"}

// page asks for a page; ok says whether it may be served.
func (s *site) page(rng *mrand.Rand, cookie string, set bool, ok, must bool) {
	path := paths[rng.Intn(len(paths))]
	if must {
		path = paths[1+rng.Intn(2)]
	}
	method := []string{"GET", "GET", "GET", "POST", "HEAD", "PUT", "OPTIONS", "get"}[rng.Intn(8)]
	if must {
		method = "GET"
	}
	r := s.do(method, path, cookie, set, "")
	s.t.Eval(fmt.Sprint(s.url, method, path, cookie, set, r.code))
	secret := strings.Contains(r.body, s.file)
	// redirects to other spellings of the path are no pages
	redirect := r.code >= 300 && r.code < 400
	switch {
	case strings.Contains(r.body, "outside "+s.file):
		s.violation("page/outside", "%s %s serves a file outside of the document root", method, path)
	case !ok && (secret || r.code < 300 && r.err == nil):
		s.violation("page/served", "%s %s is served with the cookie %q: %d %.60q", method, path, cookie, r.code, r.body)
	case !ok:
		s.t.Count("page/refused")
	case r.err != nil:
		s.violation("page/crash", "%s %s: %v", method, path, r.err)
	case must && (!secret || redirect):
		s.violation("page/refused", "%s %s is refused with the cookie of a login: %d %.60q", method, path, r.code, r.body)
	default:
		s.t.Count("page/served")
	}
}

// stranger makes a request of somebody who does not know anything.
func (s *site) stranger(rng *mrand.Rand) {
	s.mu.Lock()
	last := s.last
	s.mu.Unlock()
	switch k := rng.Intn(12); k {
	case 0:
		s.page(rng, "", false, false, false)
	case 1, 2:
		c := []string{"mute=", "mute=\"\"", "mute", "mute=0", "mute=;", "=mute", "mute=; mute=", "other=x", "mute=null", "MUTE=", "mute=;mute=x"}[rng.Intn(11)]
		s.page(rng, c, true, false, false)
	case 3:
		s.page(rng, fmt.Sprintf("mute=%x", key32()), true, false, false)
	case 4:
		if last == "" {
			return
		}
		// close to a real one
		b := []byte(last)
		switch rng.Intn(5) {
		case 0:
			b = b[:rng.Intn(len(b))]
		case 1:
			b = append(b, "x"[0])
		case 2:
			b[rng.Intn(len(b))] ^= 1
		case 3:
			b = []byte(strings.ToUpper(last))
			if string(b) == last {
				b = b[1:]
			}
		case 4:
			b = b[1:]
		}
		c := string(b)
		if strings.ContainsAny(c, "; ,\"\\") || strings.TrimSpace(c) == last {
			return
		}
		s.page(rng, "mute="+c, true, false, false)
	case 5, 6, 7:
		p := []string{"", " ", s.m.pass + " ", " " + s.m.pass, strings.ToUpper(s.m.pass), s.m.pass[:len(s.m.pass)-1], s.m.pass + "\x01", s.m.pass + "\n", "x", strings.Repeat("x", 100000), "' OR 1=1;--", s.m.pass + s.m.pass}[rng.Intn(12)]
		s.login(p)
	case 8, 9:
		form := []string{"", "passphrase", "pass=x", "passphrase=%zz", "=x", "&&&", "passphrase=&passphrase=" + url.QueryEscape(s.m.pass), "PASSPHRASE=" + url.QueryEscape(s.m.pass), "\x00\xff", strings.Repeat("a=b&", 20000)}[rng.Intn(10)]
		method := []string{"POST", "PUT", "DELETE", "HEAD", "PATCH", "OPTIONS", "post"}[rng.Intn(7)]
		r := s.do(method, "/login", "", false, form)
		s.judgeLogin(false, fmt.Sprintf("%s of %.60q", method, form), r)
		s.t.Count("login/malformed")
	case 10:
		r := s.do("GET", "/login", "", false, "")
		s.t.Eval(fmt.Sprint(s.url, "form", r.code))
		if r.code != 200 || !strings.Contains(r.body, "passphrase") || r.cookie != "" {
			s.violation("form", "the login page: %d %.100q %v", r.code, r.body, r.err)
		}
	case 11:
		r := s.do("GET", "/login?passphrase="+url.QueryEscape("guess"), "mute=", true, "")
		s.t.Eval(fmt.Sprint(s.url, "query", r.code))
		if r.cookie != "" {
			s.violation("login/wrong", "a wrong passphrase in the query is accepted")
		}
	}
}

func runE01(t *mon.T) {
	w := newWorld(t)
	defer w.close()
	n := t.N(12, 80)
	sites := make([]*site, n)
	for i := range sites {
		sites[i] = newSite(t, w)
		defer sites[i].stop()
	}
	parallel(t, n, func(i int) {
		s := sites[i]
		rng := t.Rand("site", i)
		if i%2 == 1 {
			s.rush(i)
		}
		// nobody has logged in, or only together with others
		for k := 0; k < 60; k++ {
			s.stranger(rng)
		}
		for round := 0; round < 3; round++ {
			r := s.login(s.m.pass)
			if r.cookie == "" {
				return
			}
			for k := 0; k < 40; k++ {
				s.stranger(rng)
				if k%4 == 0 {
					s.page(rng, "mute="+r.cookie, true, true, true)
					s.page(rng, "mute="+r.cookie, true, true, false)
				}
			}
		}
		s.rush(i + n)
		r := s.login(s.m.pass)
		if r.cookie != "" {
			s.page(rng, "mute="+r.cookie, true, true, true)
		}
		if e := s.cmd.Process; e != nil {
			if l := s.log(); strings.Contains(l, "DATA RACE") {
				s.violation("race", "the web server has a data race")
			} else if strings.Contains(l, "panic") {
				s.violation("panic", "a request makes the web server panic")
			}
		}
	})
}

// rush has many clients at once.
func (s *site) rush(i int) {
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			rng := s.t.Rand("guest", i, g)
			for k := 0; k < 12; k++ {
				if g < 2 && k%3 == 0 {
					s.login(s.m.pass)
				} else {
					s.stranger(rng)
				}
			}
		}(g)
	}
	wg.Wait()
}
