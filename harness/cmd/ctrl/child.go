package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/log"
	mixclient "github.com/mutecomm/mute/mix/client"
	"github.com/mutecomm/mute/protoengine"
	"github.com/mutecomm/mute/serviceguard/client/guardrpc"
	"github.com/mutecomm/mute/serviceguard/client/keylookup"
	"github.com/mutecomm/mute/serviceguard/client/walletrpc"
	"github.com/mutecomm/mute/util"
	"github.com/mutecomm/mute/util/interrupt"
	"github.com/mutecomm/mute/util/jsonclient"
)

// childEnv is where the servers of the harness are.
type childEnv struct {
	Guard string // address
	SMTP  int    // port
	Log   string // every start and end of a tool is noted here
	// Kill names a tool command and when the tool which started it is killed:
	// "muteproto deliver/before" or "mutecrypt encrypt/after".
	Kill string
	// Fail names a tool command which fails: "mutecrypt encrypt/before" fails
	// without an effect, "after" fails though it did its work.
	Fail   string
	Config string // "key url" of the configuration server
	Source string // directory where what git and go are told to do is noted
	Nth    int    // which of the commands of this name, counted from 1
}

const envName = "VERIF_CHILD"

// child runs one of the tools of the repository if the harness was started by
// its name. The tools find the servers of the harness instead of the real
// ones; nothing else about them is different.
func child() {
	name := filepath.Base(os.Args[0])
	source := name == "git" || name == "go"
	if !strings.HasPrefix(name, "mute") && !source {
		return
	}
	var e childEnv
	if err := json.Unmarshal([]byte(os.Getenv(envName)), &e); err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(99)
	}
	if source {
		os.Exit(standIn(e.Source, name, os.Args[1:]))
	}
	if e.Config != "" {
		os.Setenv("VERIF_CONFIG", e.Config)
	}
	factory := func(service string) func(u string, ca []byte) (*jsonclient.URLClient, error) {
		return func(u string, ca []byte) (*jsonclient.URLClient, error) {
			return jsonclient.New("http://"+e.Guard+"/?service="+service+"&url="+url.QueryEscape(u), nil)
		}
	}
	guardrpc.DefaultClientFactory = factory("guard")
	keylookup.DefaultClientFactory = factory("lookup")
	walletrpc.DefaultClientFactory = factory("wallet")
	var cmds []string
	for i := 1; i < len(os.Args); i++ {
		if strings.HasPrefix(os.Args[i], "--") && len(cmds) == 0 {
			i++
			continue
		}
		if strings.HasPrefix(os.Args[i], "-") {
			break
		}
		cmds = append(cmds, os.Args[i])
	}
	cmd := strings.TrimSpace(name + " " + strings.Join(cmds, " "))
	var nth int
	if name != "mutectrl" {
		nth = note(e.Log, "start "+cmd)
	}
	hit := func(spec, when string) bool { return spec == cmd+"/"+when && nth == e.Nth }
	end := func(err error) {
		if name != "mutectrl" {
			note(e.Log, "end "+cmd)
		}
		if hit(e.Kill, "after") {
			syscall.Kill(os.Getppid(), syscall.SIGKILL)
		}
		if hit(e.Fail, "after") {
			err = fmt.Errorf("harness: the tool fails")
		}
		log.Flush()
		if err != nil {
			util.Fatal(err)
		}
		os.Exit(0)
	}
	if hit(e.Kill, "before") {
		syscall.Kill(os.Getppid(), syscall.SIGKILL)
		os.Exit(1)
	}
	if hit(e.Fail, "before") {
		util.Fatal(fmt.Errorf("harness: the tool fails"))
	}
	switch name {
	case "mutectrl":
		ce := ctrlengine.New()
		interrupt.AddInterruptHandler(func() { ce.Close() })
		go func() { interrupt.ShutdownChannel <- ce.Start(os.Args) }()
		err := <-interrupt.ShutdownChannel
		ce.Close()
		end(err)
	case "mutecrypt":
		ce := cryptengine.New()
		interrupt.AddInterruptHandler(func() { ce.Close() })
		go func() { interrupt.ShutdownChannel <- ce.Start(os.Args) }()
		err := <-interrupt.ShutdownChannel
		ce.Close()
		end(err)
	case "muteproto":
		if len(cmds) > 0 && cmds[0] == "deliver" {
			redirect(e.SMTP)
		}
		end(protoengine.New().Run(os.Args))
	}
	os.Exit(98)
}

// redirect replaces the port in the envelope on standard input.
func redirect(port int) {
	b, _ := io.ReadAll(os.Stdin)
	out := b
	if raw, err := base64.StdEncoding.DecodeString(string(b)); err == nil {
		mo := mixclient.MessageMarshalled(raw).Unmarshal()
		if mo.Error == nil && mo.SMTPPort == 587 {
			mo.SMTPPort = port
			out = []byte(base64.StdEncoding.EncodeToString(mo.Marshal()))
		}
	}
	fp, err := os.CreateTemp("", "envelope")
	if err != nil {
		os.Exit(97)
	}
	os.Remove(fp.Name())
	fp.Write(out)
	fp.Seek(0, 0)
	syscall.Dup2(int(fp.Fd()), 0)
}

// note appends a line to the log of the tools and returns how many lines of
// the same kind it has then.
func note(file, line string) (n int) {
	if file == "" {
		return 0
	}
	fp, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE|os.O_APPEND, 0600)
	if err != nil {
		return 0
	}
	defer fp.Close()
	syscall.Flock(int(fp.Fd()), syscall.LOCK_EX)
	fmt.Fprintln(fp, line)
	fp.Seek(0, 0)
	b, _ := io.ReadAll(fp)
	for _, l := range strings.Split(string(b), "\n") {
		if l == line {
			n++
		}
	}
	return n
}
