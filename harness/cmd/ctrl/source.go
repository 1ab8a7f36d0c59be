package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// tree is a source tree as the stand-ins for git and go see it.
type tree struct {
	Head   string // commit or "master"
	Master string
	Remote string
	Known  []string // commits which exist after a pull
	Dirty  bool
	Fail   int // number of the call which fails
	Calls  []string
	Built  string // commit of the generated release
	Tools  string // commit of the installed tools
	Dir    string

	fails bool // the update fails
}

func (s *tree) load(dir string) {
	b, _ := os.ReadFile(filepath.Join(dir, "tree"))
	json.Unmarshal(b, s)
}

func (s *tree) save(dir string) {
	b, _ := json.Marshal(s)
	os.WriteFile(filepath.Join(dir, "tree"), b, 0600)
}

func (s *tree) commit() string {
	if s.Head == "master" {
		return s.Master
	}
	return s.Head
}

// standIn does as git or go, and returns the status.
func standIn(dir, name string, args []string) int {
	var s tree
	s.load(dir)
	defer s.save(dir)
	wd, _ := os.Getwd()
	line := name + " " + strings.Join(args, " ")
	s.Calls = append(s.Calls, fmt.Sprintf("%s (%s, %s)", line, s.Head, wd))
	if real, err := filepath.EvalSymlinks(s.Dir); err != nil || real != wd {
		s.Calls = append(s.Calls, "elsewhere: "+wd)
	}
	if len(s.Calls) == s.Fail {
		s.Calls = append(s.Calls, "failed")
		s.save(dir)
		return 1
	}
	if n := len(s.Calls); n > 1 && s.Calls[n-2] == "failed" && name == "go" {
		s.Calls = append(s.Calls, "go after a failure")
	}
	switch {
	case line == "git status --porcelain":
		if s.Dirty {
			fmt.Println(" M mute.go")
		}
	case line == "git pull":
		if s.Head != "master" {
			return 1
		}
		s.Master = s.Remote
	case name == "git" && len(args) == 2 && args[0] == "checkout":
		ok := args[1] == "master"
		for _, k := range s.Known {
			ok = ok || k == args[1]
		}
		if !ok {
			return 1
		}
		s.Head = args[1]
	case name == "git" && args[0] == "log":
		fmt.Println(s.commit() + " Thu Jan 1 00:00:00 2015 +0000")
	case name == "go" && args[0] == "generate":
		s.Built = s.commit()
	case name == "go" && args[0] == "install":
		if args[len(args)-1] == "./cmd/..." {
			s.Tools = s.Built + " " + s.commit()
		}
	default:
		return 1
	}
	return 0
}

// newSource sets up the source tree for a release.
func (c *config) newSource(e *edition) *tree {
	s := &tree{Head: "master", Master: "m", Remote: "r", Dir: filepath.Join(c.w.dir, "src", "github.com", "mutecomm", "mute")}
	commit := ""
	if e != nil {
		commit = e.m["release.Commit"]
	}
	known := true
	switch c.rng.Intn(6) {
	case 0:
		s.Remote = commit
	case 1:
		s.Master, s.Remote = commit, commit
	case 2:
		s.Head = "branch"
	case 3:
		known = c.rng.Intn(2) > 0
	case 4:
		s.Head = commit // left by an update which failed
	}
	s.Known = []string{"branch", "m"}
	if known {
		s.Known = append(s.Known, commit)
	}
	s.fails = !known && s.Remote != commit
	detached := s.Remote != commit
	switch c.rng.Intn(3) {
	case 0:
		calls := 7
		if detached {
			calls = 9
		}
		s.Fail = 1 + c.rng.Intn(calls)
		s.fails = true
	case 1:
		if c.rng.Intn(3) == 0 {
			s.Dirty = true
			s.fails = true
		}
	}
	s.save(c.m.env.Source)
	return s
}

// judge compares what was done with the tree with what had to be done.
func (s *tree) judge(c *config, full []string, installs string, r result) {
	var now tree
	now.load(c.m.env.Source)
	calls := strings.Join(now.Calls, "; ")
	switch {
	case installs == "" && len(now.Calls) > 0:
		c.violation("source/idle", "%q changes the source tree: %s", full, calls)
	case installs == "":
		return
	case len(now.Calls) == 0:
		c.violation("source/none", "%q does not update", full)
		return
	}
	c.note("source: %s", calls)
	c.t.Count("update")
	if strings.Contains(calls, "elsewhere") || strings.Contains(calls, "go after a failure") {
		c.violation("source/calls", "%q: %s", full, calls)
	}
	if s.Dirty && (now.Tools != "" || now.Head != s.Head || now.Built != "") {
		c.violation("source/dirty", "%q works on a tree which is not clean: %s", full, calls)
	}
	if now.Tools != "" && now.Tools != installs+" "+installs {
		c.violation("source/commit", "%q installs %s instead of the release %s: %s", full, now.Tools, installs, calls)
	}
	if r.err == nil && (now.Tools == "" || now.Head != "master") {
		c.violation("source/incomplete", "%q succeeds: tools %q, head %q: %s", full, now.Tools, now.Head, calls)
	}
	if strings.Contains(r.status, "updated") != (r.err == nil) {
		c.violation("source/status", "%q: %v: %s", full, r, calls)
	}
}
