package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { runners["path"] = runPath }

type pathOp struct {
	O   string // place, listen, use, close, dead, nobody, perm, clear
	K   string
	T   string
	Via string
}

func listenOn(t, via, addr string) (s5.Listener, error) {
	if via == "guess" {
		return s5.GuessListener(t, addr)
	}
	if t == "unix" {
		return s5.UnixListener(addr)
	}
	return s5.UnixgramListener(addr)
}

// pathChild is a process that listens: "pathchild TYPE VIA ADDRESS"
func pathChild(args []string) {
	l, err := listenOn(args[0], args[1], args[2])
	if err != nil {
		fmt.Println("err")
		os.Exit(0)
	}
	fmt.Println("ok")
	os.Stdin.Read(make([]byte, 1)) // until the parent ends it
	_ = l
	os.Exit(0)
}

// child runs a process that listens; it's killed, by which its socket is left behind
func child(t, via, addr string, nobody bool) (res string) {
	c := exec.Command("/proc/self/exe", "pathchild", t, via, addr)
	c.Env = []string{"PATH=/usr/bin:/bin", "HOME=/"}
	c.Dir = "/"
	if nobody {
		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: false}}
	}
	in, _ := c.StdinPipe()
	defer in.Close()
	o, _ := c.StdoutPipe()
	var stderr bytes.Buffer
	c.Stderr = &stderr
	if err := c.Start(); err != nil {
		return "unavailable"
	}
	got := make(chan string, 1)
	go func() {
		s, _ := bufio.NewReader(o).ReadString('\n')
		got <- strings.TrimSpace(s)
	}()
	select {
	case res = <-got:
	case <-time.After(patience):
		res = "slow"
	}
	c.Process.Signal(syscall.SIGKILL)
	c.Wait()
	if res == "" {
		if strings.Contains(stderr.String(), "panic") {
			return "crash"
		}
		return "unavailable"
	}
	return
}

// kindAt tells what is at a path
func kindAt(p string) string {
	st, err := os.Lstat(p)
	if err != nil {
		return "none"
	}
	switch m := st.Mode(); {
	case m.IsRegular():
		return "file"
	case m.IsDir():
		return "dir"
	case m&os.ModeSymlink != 0:
		return "link"
	case m&os.ModeNamedPipe != 0:
		return "fifo"
	case m&os.ModeSocket != 0:
		return "sock"
	}
	return "other"
}

// snapshot describes everything below dir
func snapshot(dir string) map[string]string {
	r := map[string]string{}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		sys := st.Sys().(*syscall.Stat_t)
		d := fmt.Sprint(st.Mode(), " ", sys.Ino, " ", sys.Ctim)
		switch kindAt(p) {
		case "file":
			b, _ := os.ReadFile(p)
			d += " " + string(b)
		case "link":
			t, _ := os.Readlink(p)
			d += " -> " + t
		case "dir":
			d = fmt.Sprint(st.Mode(), " ", sys.Ino)
		}
		r[p] = d
		return nil
	})
	return r
}

func diffSnap(a, b map[string]string) (changed []string) {
	for k, v := range a {
		if b[k] != v {
			changed = append(changed, k)
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			changed = append(changed, k)
		}
	}
	sort.Strings(changed)
	return
}

func stale(p, network string) {
	switch network {
	case "unixgram":
		c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p, Net: "unixgram"})
		if err != nil {
			panic(err)
		}
		c.Close()
	default:
		c, err := net.ListenUnix(network, &net.UnixAddr{Name: p, Net: network})
		if err != nil {
			panic(err)
		}
		c.SetUnlinkOnClose(false)
		c.Close()
	}
}

func ck(err error) {
	if err != nil {
		panic(err)
	}
}

func place(dir, p, kind string) {
	aside := filepath.Join(dir, "aside")
	simple := func(p, kind string) {
		switch kind {
		case "none":
		case "file":
			ck(os.WriteFile(p, []byte("content"), 0640))
		case "empty":
			ck(os.WriteFile(p, nil, 0600))
		case "dir":
			ck(os.Mkdir(p, 0755))
		case "dirfull":
			ck(os.Mkdir(p, 0755))
			ck(os.WriteFile(filepath.Join(p, "in"), []byte("inside"), 0644))
		case "fifo":
			ck(syscall.Mkfifo(p, 0644))
		case "stale":
			stale(p, "unix")
		case "staledgram":
			stale(p, "unixgram")
		case "stalepacket":
			stale(p, "unixpacket")
		default:
			panic("kind " + kind)
		}
	}
	if !strings.HasPrefix(kind, "link") {
		simple(p, kind)
		return
	}
	target := strings.TrimPrefix(kind, "link")
	switch {
	case target == "chain":
		ck(os.WriteFile(aside, []byte("aside"), 0644))
		ck(os.Symlink("aside", aside+"2"))
		ck(os.Symlink("aside2", p))
	case target == "loop":
		ck(os.Symlink(filepath.Base(p), p))
	case target == "chainstale":
		stale(aside, "unix")
		ck(os.Symlink("aside", aside+"2"))
		ck(os.Symlink(aside+"2", p))
	default:
		simple(aside, target)
		ck(os.Symlink(aside, p))
	}
}

// useIt sends something through a listener just created
func useIt(l s5.Listener, t, addr string) bool {
	cli, err := net.DialUnix(t, nil, &net.UnixAddr{Name: addr, Net: t})
	if err != nil {
		return false
	}
	defer cli.Close()
	text := []byte("something sent at once\x00")
	cli.SetWriteDeadline(time.Now().Add(patience))
	if _, err := cli.Write(text); err != nil {
		return false
	}
	got := make(chan bool, 1)
	go func() {
		c, err := l.Accept()
		if err != nil {
			got <- false
			return
		}
		b := make([]byte, 100)
		n, err := c.Read(b)
		got <- err == nil && bytes.Equal(b[:n], text)
		if t == "unix" {
			c.Close()
		} else {
			c.Close() // another one can be accepted
		}
	}()
	select {
	case ok := <-got:
		return ok
	case <-time.After(patience):
		return false
	}
}

func runPath(raw json.RawMessage) M {
	var c struct {
		Ops  []pathOp
		Name string
		Pre  string // what the directory is: "", "link", "missing", "file", "rel"
	}
	must(raw, &c)
	dir, err := os.MkdirTemp("", "s5")
	ck(err)
	dir, err = filepath.EvalSymlinks(dir)
	ck(err)
	ck(os.Chmod(dir, 0755))
	defer os.RemoveAll(dir)
	name := "s"
	if c.Name != "" {
		name = c.Name
	}
	base := filepath.Join(dir, "d")
	switch c.Pre {
	case "missing":
	case "file":
		ck(os.WriteFile(base, []byte("not a directory"), 0644))
	case "link":
		ck(os.Mkdir(filepath.Join(dir, "real"), 0755))
		ck(os.Symlink("real", base))
	default:
		ck(os.Mkdir(base, 0755))
	}
	p := filepath.Join(base, name)
	addr := p
	if c.Pre == "rel" {
		ck(os.Chdir(base))
		defer os.Chdir("/")
		addr = "./" + name
	}
	evs := []M{}
	var l s5.Listener
	var lt string
	for _, o := range c.Ops {
		ev := M{"e": o.O, "k": o.K, "t": o.T}
		switch o.O {
		case "place":
			place(base, p, o.K)
		case "clear":
			ck(os.RemoveAll(p))
			os.RemoveAll(filepath.Join(base, "aside"))
			os.RemoveAll(filepath.Join(base, "aside2"))
		case "perm":
			switch o.K {
			case "closed": // others can't change the directory
				ck(os.Chmod(base, 0755))
			case "sticky":
				ck(os.Chmod(base, 0777|os.ModeSticky))
			case "open":
				ck(os.Chmod(base, 0777))
			}
		case "listen", "dead", "nobody":
			before := snapshot(dir)
			was := kindAt(p)
			res := make(chan error, 1)
			ev["res"] = "err"
			if o.O == "listen" {
				if l != nil {
					panic("two listeners")
				}
				go func() {
					var err error
					l, err = listenOn(o.T, o.Via, addr)
					res <- err
				}()
				select {
				case err := <-res:
					if err == nil {
						ev["res"], lt = "ok", o.T
					} else {
						l = nil
					}
				case <-time.After(patience):
					return M{"stuck": "listen", "ev": append(evs, ev)}
				}
			} else {
				r := child(o.T, o.Via, addr, o.O == "nobody")
				if r == "slow" {
					return M{"stuck": "listen", "ev": append(evs, ev)}
				}
				if r == "crash" {
					panic("the listening process crashed")
				}
				ev["res"] = r
			}
			rest, at := true, true
			for _, k := range diffSnap(before, snapshot(dir)) {
				if k == p || (c.Pre == "link" && k == filepath.Join(dir, "real", name)) {
					at = false
				} else {
					rest = false
				}
			}
			ev["was"], ev["now"], ev["at"], ev["rest"] = was, kindAt(p), at, rest
		case "use":
			ev["ok"] = l != nil && useIt(l, lt, addr)
		case "close":
			ev["err"] = l.Close() != nil
			ev["now"] = kindAt(p)
			l = nil
		default:
			panic("op " + o.O)
		}
		evs = append(evs, ev)
	}
	if l != nil {
		l.Close()
	}
	return M{"ev": evs}
}
