package main

import (
	"bytes"
	"context"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"github.com/mutecomm/mute/encdb"
	"verif/harness/mon"
)

var s07 = &mon.Prop{
	Level: "fault_enumeration",
	Rule: "databases are given sequences of new passphrases; the change is refused, fails at each system call and each length of the key file, or its process is killed at each system call; afterwards it must be known which passphrase opens the database, the contents must be unchanged, and the change must be possible again; " +
		"one evaluation is one attempt to change the passphrase which was judged",
	MinEvents: 250,
	Run:       runS07,
}

// rekeyChild is what child processes do.
func rekeyChild() {
	if os.Getenv("VERIF_FSIZE") != "" {
		var n uint64
		fmt.Sscan(os.Getenv("VERIF_FSIZE"), &n)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: n}); err != nil {
			os.Exit(4)
		}
	}
	err := encdb.Rekey(os.Args[1], []byte(os.Args[2]), []byte(os.Args[3]), 3)
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	os.Exit(0)
}

// child runs a rekey in a process of its own; it returns nil, "failed" or
// "killed" as its end.
func child(t *mon.T, e *encDB, newPass []byte, env string, wrapper ...string) (end, out string) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	args := append(wrapper, os.Args[0], e.name, string(e.pass), string(newPass))
	cmd := exec.CommandContext(ctx, args[0], args[1:]...)
	cmd.Env = append(os.Environ(), "VERIF_CHILD=rekey", "GOMAXPROCS=1", env)
	b, err := cmd.CombinedOutput()
	out = string(b)
	if err == nil {
		return "done", out
	}
	if x, ok := err.(*exec.ExitError); ok {
		if ws, ok := x.Sys().(syscall.WaitStatus); ok && ws.Exited() && ws.ExitStatus() == 3 {
			return "failed", out
		}
		return "killed", out
	}
	t.Fatalf("child: %s", err)
	return
}

func runS07(t *mon.T) {
	rng := t.Rand("s07")
	n := 0
	// judge decides which passphrase the database has now
	judge := func(e *encDB, db []byte, newPass []byte, end, kind string) {
		n++
		t.Eval(fmt.Sprint(n, kind))
		t.Count(kind)
		op1, same1, err1 := e.open(e.pass)
		op2, same2, err2 := e.open(newPass)
		d := map[string]interface{}{"kind": kind, "end": end, "old passphrase": fmt.Sprint(op1, same1, err1), "new passphrase": fmt.Sprint(op2, same2, err2)}
		t.Case(d)
		switch {
		case !op1 && !op2:
			t.Violation("lost", d)
			panic(mon.Failed{})
		case op1 && !same1 || op2 && !same2:
			t.Violation("contents", d)
		case end == "done" && (!op2 || op1):
			t.Violation("not-changed", d)
		case end == "failed" && !op1:
			t.Violation("changed-with-error", d)
		case op1 && op2:
			t.Violation("both", d)
		}
		if b := readFile(t, e.name+".db"); !bytes.Equal(b, db) {
			t.Violation("database-file-changed", d)
		}
		if op2 {
			e.pass = newPass
		}
		// the change remains possible
		p := append([]byte(fmt.Sprintf("again-%d-", n)), passphrase(rng)...)
		if err := encdb.Rekey(e.name, e.pass, p, 1+rng.Intn(5)); err != nil {
			d["error"] = err.Error()
			t.Violation("not-again", d)
			return
		}
		e.pass = p
		if op, same, err := e.open(p); !op || !same {
			d["error"] = fmt.Sprint(err)
			t.Violation("again-not-opened", d)
		}
	}
	clean := func(p []byte) []byte { return bytes.ReplaceAll(p, []byte{0}, []byte{'0'}) }
	serial := 0
	fresh := func(old []byte) []byte {
		// differs from all other passphrases by its end
		serial++
		return clean(append(wrong(rng, old), fmt.Sprintf("-%d", serial)...))
	}
	// sequences of changes, many of them refused
	for c := 0; c < t.N(12, 300) && t.Violations() < 8; c++ {
		e := makeDB(t, rng, filepath.Join(t.TempDir(fmt.Sprintf("r%d", c)), "keys"))
		var old [][]byte
		for k := 0; k < 8; k++ {
			db := readFile(t, e.name+".db")
			p := fresh(e.pass)
			iter := 1 + rng.Intn(30)
			from, kind := e.pass, "accepted"
			switch rng.Intn(6) {
			case 0:
				from, kind = wrong(rng, e.pass), "wrong-passphrase"
			case 1:
				if len(old) > 0 {
					from, kind = old[rng.Intn(len(old))], "old-passphrase"
				}
			case 2:
				iter, kind = []int{-1, -1 << 40, 1 << 31, 1 << 40}[rng.Intn(4)], "iterations"
			case 3:
				kind = "leftover"
				t.Must(os.WriteFile(e.name+".key.new", make([]byte, rng.Intn(200)), 0600), "leftover")
			case 4:
				kind = "blocked"
				t.Must(os.MkdirAll(e.name+".key.new/x", 0700), "leftover")
			}
			key := readFile(t, e.name+".key")
			err := encdb.Rekey(e.name, from, p, iter)
			os.RemoveAll(e.name + ".key.new")
			end := "done"
			if err != nil {
				end = "failed"
				if !bytes.Equal(readFile(t, e.name+".key"), key) {
					t.Violation("key-file-changed", map[string]interface{}{"kind": kind, "error": err.Error()})
				}
			}
			if want := kind == "accepted" || kind == "leftover"; want != (err == nil) {
				t.Violation("result/"+kind, map[string]interface{}{"error": fmt.Sprint(err)})
			}
			if err == nil {
				k1, i1 := rawKey(key, e.pass)
				k2, i2 := rawKey(readFile(t, e.name+".key"), p)
				if !bytes.Equal(k1, k2) || i2 != uint64(iter) {
					t.Violation("key-file", map[string]interface{}{"iterations": []uint64{i1, i2}})
				}
			}
			old = append(old, e.pass)
			judge(e, db, p, end, "sequence/"+kind)
			for _, o := range old {
				if op, _, _ := e.open(o); op {
					t.Violation("old-passphrase", map[string]interface{}{"kind": kind})
				}
			}
		}
	}
	// every length of the key file
	e := makeDB(t, rng, filepath.Join(t.TempDir("f"), "keys"))
	e.pass = []byte("first")
	e = rebuild(t, rng, e)
	for l := 0; l <= 96; l++ {
		db := readFile(t, e.name+".db")
		p := fresh(e.pass)
		end, out := child(t, e, p, fmt.Sprint("VERIF_FSIZE=", l))
		if end == "killed" {
			t.Count("file-size-killed")
		}
		if l < 88 && end == "done" {
			t.Violation("short-write", map[string]interface{}{"file size": l, "output": out})
		}
		judge(e, db, p, end, "file-size")
	}
	// every system call
	if err := exec.Command("strace", "-o", "/dev/null", "true").Run(); err != nil {
		t.Count("no-strace")
		killAtRandom(t, rng, e, judge, fresh)
		return
	}
	// A power failure can take everything which was not synchronised, but
	// not undo the renaming: the new key file must have been synchronised
	// with all its contents, before it takes the place of the old one.
	for i := 0; i < 4; i++ {
		db := readFile(t, e.name+".db")
		p := fresh(e.pass)
		log := filepath.Join(t.TempDir("st"), "log")
		end, out := child(t, e, p, "X=1", "strace", "-f", "-y", "-o", log, "-e", "trace=write,pwrite64,writev,ftruncate,fsync,fdatasync,sync,syncfs,rename,renameat,renameat2,linkat,link")
		if end != "done" {
			t.Fatalf("traced change: %s %s", end, out)
		}
		dirty, replaced := map[string]bool{}, 0
		for _, l := range strings.Split(string(readFile(t, log)), "\n") {
			if p := strings.IndexByte(l, ' '); p > 0 {
				l = strings.TrimSpace(l[p:]) // without process id
			}
			call := strings.SplitN(l, "(", 2)[0]
			var file string
			if a, b := strings.IndexByte(l, '<'), strings.IndexByte(l, '>'); a >= 0 && b > a && !strings.HasPrefix(call, "rename") {
				file = l[a+1 : b]
			}
			switch call {
			case "write", "pwrite64", "writev", "ftruncate":
				dirty[file] = true
			case "fsync", "fdatasync":
				delete(dirty, file)
			case "sync", "syncfs":
				dirty = map[string]bool{}
			case "rename", "renameat", "renameat2", "link", "linkat":
				var names []string
				for i, s := range strings.Split(l, "\"") {
					if i%2 == 1 {
						names = append(names, s)
					}
				}
				if len(names) != 2 || names[1] != e.name+".key" {
					continue
				}
				replaced++
				if dirty[names[0]] {
					t.Violation("not-synchronised", map[string]interface{}{"trace": string(readFile(t, log))})
				}
			}
		}
		if dirty[e.name+".key"] {
			t.Violation("not-synchronised", map[string]interface{}{"trace": string(readFile(t, log))})
		}
		t.CountN("replacements-traced", int64(replaced))
		judge(e, db, p, end, "power-failure")
	}
	for _, action := range []string{"signal=KILL", "error=EIO", "error=ENOSPC"} {
		for _, call := range []string{"openat", "write", "close", "rename,renameat,renameat2", "unlink,unlinkat", "fsync,fdatasync", "pread64", "fcntl", "newfstatat"} {
			if strings.HasPrefix(action, "error") && (call == "fcntl" || call == "newfstatat") {
				continue
			}
			if action == "error=ENOSPC" && call != "write" && call != "openat" {
				continue
			}
			undisturbed := 0
			for when := 1; when < 60 && undisturbed < 2; when++ {
				db := readFile(t, e.name+".db")
				p := fresh(e.pass)
				log := filepath.Join(t.TempDir("st"), "log")
				end, _ := child(t, e, p, "X=1", "strace", "-f", "-o", log, "-P", e.name+".key", "-P", e.name+".key.new", "-P", e.name+".db",
					"-e", "trace="+call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", call, action, when))
				st, _ := os.ReadFile(log)
				hit := strings.Contains(string(st), "INJECTED") || strings.Contains(string(st), "killed by SIGKILL")
				if !hit {
					undisturbed++
				}
				kind := "system-call/" + strings.SplitN(call, ",", 2)[0] + "/" + strings.SplitN(action, "=", 2)[1]
				if !hit {
					kind += "/none"
				}
				judge(e, db, p, end, kind)
				if t.Violations() > 8 {
					return
				}
			}
		}
	}
}

// rebuild makes the passphrase of e one which can be given as an argument.
func rebuild(t *mon.T, rng *rand.Rand, e *encDB) *encDB {
	n := makeDB(t, rng, filepath.Join(t.TempDir("g"), "keys"))
	p := []byte("first passphrase")
	t.Must(encdb.Rekey(n.name, n.pass, p, 2), "rekey")
	n.pass = p
	return n
}

func killAtRandom(t *mon.T, rng *rand.Rand, e *encDB, judge func(*encDB, []byte, []byte, string, string), fresh func([]byte) []byte) {
	for i := 0; i < 150; i++ {
		db := readFile(t, e.name+".db")
		p := fresh(e.pass)
		cmd := exec.Command(os.Args[0], e.name, string(e.pass), string(p))
		cmd.Env = append(os.Environ(), "VERIF_CHILD=rekey")
		t.Must(cmd.Start(), "child")
		time.Sleep(time.Duration(rng.Intn(30000)) * time.Microsecond)
		cmd.Process.Kill()
		end := "killed"
		if err := cmd.Wait(); err == nil {
			end = "done"
		}
		judge(e, db, p, end, "random-kill/"+end)
	}
}
