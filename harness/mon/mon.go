// Package mon is the common part of all monitors in /verif: deterministic case
// generation, counting of what was observed, verdicts, known findings,
// supervision of the worker process and the evidence file.
package mon

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// VerifDir is the root of the verification tree.
var VerifDir = "/verif"

// Prop describes one property check.
type Prop struct {
	Rule        string // how cases are made, what makes one non-trivial
	Level       string // exploration or fault_enumeration
	Assumptions []string
	MinEvents   int64 // a run with fewer evaluations than this is inconclusive
	Run         func(t *T)
}

// T collects the observations of one run.
type T struct {
	ID   string
	Tier string
	Seed int64

	mu         sync.Mutex
	evals      int64
	distinct   map[[32]byte]struct{}
	events     map[string]int64
	samples    []interface{}
	sampleKeys map[string]int
	violations int
	vioKeys    map[string]int
	known      map[string]string
	knownSeen  map[string]bool
	tmp        string
	caseInfo   interface{}
}

// Thorough reports whether the thorough tier is run.
func (t *T) Thorough() bool { return t.Tier == "thorough" }

// N returns quick or thorough, depending on the tier.
func (t *T) N(quick, thorough int) int {
	if t.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns a PRNG which depends only on the seed and the given labels.
func (t *T) Rand(labels ...interface{}) *rand.Rand {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d|%s|%v", t.Seed, t.ID, labels)))
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h[:8]))))
}

// Eval counts one evaluated case. key identifies it (for the distinct count);
// trivial cases have an empty key.
func (t *T) Eval(key string) {
	t.mu.Lock()
	t.evals++
	if key != "" {
		t.distinct[sha256.Sum256([]byte(key))] = struct{}{}
	}
	t.mu.Unlock()
}

// Count counts an observed event.
func (t *T) Count(event string) { t.CountN(event, 1) }

// CountN counts n observed events.
func (t *T) CountN(event string, n int64) {
	t.mu.Lock()
	t.events[event] += n
	t.mu.Unlock()
}

// Sample keeps up to two samples per kind.
func (t *T) Sample(kind string, s interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.sampleKeys[kind] >= 2 || len(t.samples) >= 16 {
		return
	}
	t.sampleKeys[kind]++
	t.samples = append(t.samples, map[string]interface{}{"kind": kind, "case": Clip(s)})
}

// Clip shortens long values for reports.
func Clip(v interface{}) interface{} {
	switch x := v.(type) {
	case []byte:
		if len(x) > 400 {
			return fmt.Sprintf("%x...(%d bytes)", x[:200], len(x))
		}
		return fmt.Sprintf("%x", x)
	case string:
		if len(x) > 2000 {
			return x[:1000] + fmt.Sprintf("...(%d bytes)", len(x))
		}
		return x
	case map[string]interface{}:
		m := map[string]interface{}{}
		for k, v := range x {
			m[k] = Clip(v)
		}
		return m
	case error:
		return x.Error()
	}
	return v
}

// Case records the case now being run, so that a crash can be attributed.
func (t *T) Case(info interface{}) {
	t.mu.Lock()
	t.caseInfo = info
	t.mu.Unlock()
	if f := os.Getenv("VMON_CASEFILE"); f != "" {
		b, _ := json.Marshal(Clip(info))
		os.WriteFile(f, b, 0600)
	}
}

func replayDir() string { return filepath.Join(VerifDir, "replays") }

// Violation reports that the property is violated. key is a stable name for
// the kind of violation and its input (matched against known findings).
func (t *T) Violation(key string, detail interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if desc, ok := t.known[key]; ok {
		if !t.knownSeen[key] {
			t.knownSeen[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", t.ID, key, desc)
		}
		return
	}
	t.violations++
	t.vioKeys[key]++
	if t.vioKeys[key] > 1 || len(t.vioKeys) > 12 {
		return
	}
	path := writeReplay(t.ID, t.Tier, t.Seed, key, detail, t.caseInfo)
	fmt.Printf("VIOLATION property=%s replay=%s\n", t.ID, path)
	s, _ := json.Marshal(Clip(detail))
	if len(s) > 1500 {
		s = append(s[:1500], []byte("...")...)
	}
	fmt.Printf("  %s: %s\n", key, s)
}

// Violations returns the number of violations so far.
func (t *T) Violations() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.violations
}

func writeReplay(id, tier string, seed int64, key string, detail, caseInfo interface{}) string {
	os.MkdirAll(replayDir(), 0755)
	h := sha256.Sum256([]byte(key))
	path := filepath.Join(replayDir(), fmt.Sprintf("%s-%x.json", id, h[:4]))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "key": key,
		"detail": Clip(detail), "case": Clip(caseInfo),
		"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s /verif/check.sh %s", seed, tier, id),
	}, "", " ")
	os.WriteFile(path, b, 0644)
	return path
}

// Checkf reports a violation if cond does not hold.
func (t *T) Checkf(cond bool, key string, format string, args ...interface{}) bool {
	if !cond {
		t.Violation(key, fmt.Sprintf(format, args...))
	}
	return cond
}

// NoPanic runs f; a panic in f is a violation with the given key.
func (t *T) NoPanic(key string, detail interface{}, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			t.Violation(key, map[string]interface{}{
				"panic": fmt.Sprint(r), "input": detail, "stack": trimStack(debug.Stack()),
			})
		}
	}()
	f()
	return true
}

// Panics runs f and returns the recovered panic, if any.
func Panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i > 0 {
		s = s[i:]
	}
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

// Finishes runs f and waits for it. A run that does not end within the (very
// generous) limit is reported as a violation: it is used only where the work
// takes microseconds and not ending means a lock held forever.
func (t *T) Finishes(key string, detail interface{}, limit time.Duration, f func()) bool {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			t.Violation(key+"/panic", map[string]interface{}{"panic": fmt.Sprint(r), "input": detail})
			return false
		}
		return true
	case <-time.After(limit):
		buf := make([]byte, 1<<16)
		n := runtime.Stack(buf, true)
		t.Violation(key, map[string]interface{}{"blocked": true, "input": detail, "stacks": string(buf[:n])})
		return false
	}
}

// TempDir returns a scratch directory which is removed at the end.
func (t *T) TempDir(name string) string {
	d, err := os.MkdirTemp(t.tmp, name)
	if err != nil {
		t.Fatalf("tempdir: %s", err)
	}
	return d
}

// Inconclusive is the panic value for errors of the machinery.
type Inconclusive struct{ Msg string }

// Fatalf ends the run as inconclusive: the machinery could not do its work.
func (t *T) Fatalf(format string, args ...interface{}) {
	panic(Inconclusive{fmt.Sprintf(format, args...)})
}

// Must ends the run on error. The operations it guards are ones which the code
// under test has to carry out (creating a database, opening it again with the
// right passphrase, ...), so that an error is a violation, except when the
// system is out of some resource.
func (t *T) Must(err error, what string) {
	if err == nil {
		return
	}
	_, file, line, _ := runtime.Caller(1)
	for _, e := range []error{syscall.ENOSPC, syscall.EMFILE, syscall.ENFILE, syscall.ENOMEM, syscall.EAGAIN} {
		if errors.Is(err, e) {
			t.Fatalf("%s:%d: %s: %s", filepath.Base(file), line, what, err)
		}
	}
	t.Violation("operation-failed/"+what, map[string]interface{}{"error": err.Error(), "at": fmt.Sprintf("%s:%d", filepath.Base(file), line)})
	panic(Failed{})
}

// Failed ends a run after a violation has been reported.
type Failed struct{}

func loadKnown(id string) map[string]string {
	known := make(map[string]string)
	b, err := os.ReadFile(filepath.Join(VerifDir, "known-findings.txt"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 && f[0] == "property="+id && strings.HasPrefix(f[1], "key=") {
			known[strings.TrimPrefix(f[1], "key=")] = f[2]
		}
	}
	return known
}

// Main is the main function of a group of monitors.
func Main(props map[string]*Prop) {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		VerifDir = d
	}
	if len(os.Args) < 2 {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		os.Exit(2)
	}
	id := os.Args[1]
	p := props[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %s\n", id)
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	if os.Getenv("VMON_WORKER") == "" {
		os.Exit(supervise(id, tier, seed, p))
	}
	os.Exit(work(id, tier, seed, p))
}

// supervise runs the worker as a child process, so that a crash which cannot
// be recovered (fatal error, concurrent map access, panic in a goroutine, data
// race report) still ends in a verdict.
func supervise(id, tier string, seed int64, p *Prop) int {
	os.Remove(filepath.Join(VerifDir, "evidence", id+".json"))
	tmp, err := os.MkdirTemp("", "vmon-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	cmd := exec.Command(os.Args[0], id)
	home := filepath.Join(tmp, "home")
	os.MkdirAll(home, 0700)
	cmd.Env = append(os.Environ(), "VMON_WORKER="+tmp, "VMON_CASEFILE="+filepath.Join(tmp, "case"),
		"HOME="+home, "TMPDIR="+tmp,
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+filepath.Join(tmp, "race"))
	var errbuf tail
	cmd.Stdout = os.Stdout
	cmd.Stderr = &errbuf
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	start := time.Now()
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	timer := time.AfterFunc(limit, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	timer.Stop()
	code := cmd.ProcessState.ExitCode()
	if d := os.Getenv("VMON_STDERR"); d != "" {
		os.Stderr.WriteString(errbuf.String())
	}
	races := 0
	logs, _ := filepath.Glob(filepath.Join(tmp, "race.*"))
	seen := map[string]bool{}
	for _, l := range logs {
		b, _ := os.ReadFile(l)
		for _, rep := range bytes.Split(b, []byte("WARNING: DATA RACE")) {
			if !bytes.Contains(rep, []byte("mutecomm/mute/")) && !bytes.Contains(rep, []byte("/repo/")) {
				continue
			}
			races++
			key := raceKey(rep)
			if !seen[key] && len(seen) < 12 {
				seen[key] = true
				path := writeReplay(id, tier, seed, "datarace:"+key, string(rep), nil)
				fmt.Printf("VIOLATION property=%s replay=%s\n  data race: %s\n", id, path, key)
			}
		}
	}
	if races > 0 {
		if _, err := os.Stat(filepath.Join(VerifDir, "evidence", id+".json")); err != nil {
			crashEvidence(id, tier, seed, p, start, races)
		}
		return 1
	}
	switch {
	case err == nil:
		return 0
	case code == 1 || code == 3:
		os.Stderr.WriteString(errbuf.String())
		if code == 1 {
			return 1
		}
		return 2
	case time.Since(start) >= limit:
		fmt.Fprintf(os.Stderr, "%s: inconclusive: time limit reached\n%s", id, errbuf.String())
		return 2
	}
	// crash
	es := errbuf.String()
	if strings.Contains(es, "out of memory") && !strings.Contains(es, "mutecomm/mute") {
		fmt.Fprintf(os.Stderr, "%s: inconclusive: worker died: %v\n%s", id, err, es)
		return 2
	}
	if strings.Contains(es, "github.com/mutecomm/mute") || strings.Contains(es, "/repo/") {
		ci, _ := os.ReadFile(filepath.Join(tmp, "case"))
		path := writeReplay(id, tier, seed, "crash", es, string(ci))
		fmt.Printf("VIOLATION property=%s replay=%s\n  the process crashed in the code under test\n", id, path)
		os.Stderr.WriteString(es)
		crashEvidence(id, tier, seed, p, start, 1)
		return 1
	}
	fmt.Fprintf(os.Stderr, "%s: inconclusive: worker died: %v\n%s", id, err, es)
	return 2
}

// raceKey names a race by the functions of the code under test in its stacks.
func raceKey(rep []byte) string {
	var fns []string
	for _, l := range strings.Split(string(rep), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "github.com/mutecomm/mute/") {
			if i := strings.Index(l, "("); i > 0 {
				f := strings.TrimPrefix(l, "github.com/mutecomm/mute/")
				if j := strings.LastIndex(f, "()"); j > 0 {
					f = f[:j]
				}
				if len(fns) == 0 || fns[len(fns)-1] != f {
					fns = append(fns, f)
				}
			}
		}
	}
	if len(fns) > 4 {
		fns = fns[:4]
	}
	return strings.Join(fns, " <> ")
}

func crashEvidence(id, tier string, seed int64, p *Prop, start time.Time, v int) {
	writeEvidence(id, map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{"evaluations": 1, "distinct_nontrivial": 1,
			"rule": p.Rule, "samples": []string{"the worker crashed or raced"}},
		"wall_s": time.Since(start).Seconds(), "violations": v,
	})
}

func writeEvidence(id string, ev map[string]interface{}) {
	os.MkdirAll(filepath.Join(VerifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(VerifDir, "evidence", id+".json"), append(b, '\n'), 0644)
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 1<<20 {
		t.buf = append([]byte(nil), t.buf[len(t.buf)-1<<19:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	s := string(t.buf)
	if i := strings.Index(s, "panic: "); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error: "); i >= 0 {
		s = s[i:]
	}
	if len(s) > 12000 {
		s = s[:12000]
	}
	return s
}

func work(id, tier string, seed int64, p *Prop) (code int) {
	start := time.Now()
	t := &T{ID: id, Tier: tier, Seed: seed, distinct: map[[32]byte]struct{}{},
		events: map[string]int64{}, sampleKeys: map[string]int{}, vioKeys: map[string]int{},
		known: loadKnown(id), knownSeen: map[string]bool{}, tmp: os.Getenv("VMON_WORKER")}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(Failed); ok {
					return
				}
				if inc, ok := r.(Inconclusive); ok {
					fmt.Fprintf(os.Stderr, "%s: inconclusive: %s\n", id, inc.Msg)
					code = 3
					return
				}
				st := string(debug.Stack())
				// a panic out of the code under test is a violation, one
				// of the harness itself is not
				if crashedInRepo(st) {
					t.Violation("panic", map[string]interface{}{"panic": fmt.Sprint(r), "stack": trimStack([]byte(st))})
					return
				}
				fmt.Fprintf(os.Stderr, "%s: inconclusive: harness panic: %v\n%s\n", id, r, st)
				code = 3
			}
		}()
		p.Run(t)
	}()
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.violations > 0 {
		code = 1
	}
	samples := t.samples
	if len(samples) == 0 {
		samples = []interface{}{"no sample recorded"}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": p.Level,
		"coverage": map[string]interface{}{
			"evaluations":         t.evals,
			"distinct_nontrivial": len(t.distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"observed_events":     t.events,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  t.violations,
	}
	writeEvidence(id, ev)
	var evs []string
	for k, v := range t.events {
		evs = append(evs, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(evs)
	fmt.Printf("%s %s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs\n  %s\n", id, tier, seed,
		t.evals, len(t.distinct), t.violations, time.Since(start).Seconds(), strings.Join(evs, " "))
	if code == 0 && t.evals < p.MinEvents {
		fmt.Fprintf(os.Stderr, "%s: inconclusive: only %d evaluations\n", id, t.evals)
		code = 3
	}
	return code
}

// crashedInRepo tells whether the innermost non-runtime frame group of a
// panic stack reaches the code under test before the harness.
func crashedInRepo(st string) bool {
	i := strings.LastIndex(st, "panic(")
	if i < 0 {
		i = 0
	}
	rest := st[i:]
	m := strings.Index(rest, "github.com/mutecomm/mute/")
	h := strings.Index(rest, "verif/harness/")
	h2 := strings.Index(rest, "main.")
	if h2 >= 0 && (h < 0 || h2 < h) {
		h = h2
	}
	return m >= 0 && (h < 0 || m < h)
}
