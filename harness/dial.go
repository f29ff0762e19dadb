package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { runners["dial"] = runDial }

func transportOf(t string) s5.Transport {
	switch t {
	case "nul":
		return s5.TransportZeroEnded
	case "lf":
		return s5.TransportLFEnded
	case "rfc":
		return s5.TransportRFC5425
	}
	return nil
}

func simpleMsg(text string) s5.Message {
	return s5.EmptyMessage().Priority(27).Time(fixedTime).Host("localhost").AppName("app").ProcID("1234").Msg(text)
}

// dialed is a Sender, in this process or in another one
type dialed interface {
	send(text string) ([]byte, error)
	end() <-chan struct{}
	errs() <-chan string
}

type localSender struct {
	s *s5.Sender
	e chan string
}

func newLocal(s *s5.Sender, ec <-chan error) *localSender {
	l := &localSender{s, make(chan string, 10000)}
	go func() {
		for e := range ec {
			select {
			case l.e <- e.Error():
			default:
			}
		}
	}()
	return l
}
func (l *localSender) send(text string) ([]byte, error) {
	m := simpleMsg(text)
	b, err := m.Marshal5424()
	if err != nil {
		return nil, err
	}
	return b, l.s.Send(m)
}
func (l *localSender) end() <-chan struct{} {
	c := make(chan struct{})
	go func() { l.s.End(); close(c) }()
	return c
}
func (l *localSender) errs() <-chan string { return l.e }

// dialChild: "dialchild NETWORK ADDRESS TRANSPORT DELAY": commands on stdin, answers on fd 3
func dialChild(a []string) {
	ans := os.NewFile(3, "answers")
	delay, _ := strconv.Atoi(a[3])
	d := s5.Dialer{FlushDelay: time.Duration(delay) * time.Microsecond}
	var s *s5.Sender
	var ec <-chan error
	var err error
	if a[2] == "plain" {
		s, ec, err = s5.Dial(a[0], a[1])
	} else {
		s, ec, err = d.Dial(a[0], a[1], transportOf(a[2]))
	}
	if err != nil {
		fmt.Fprintln(ans, "refused")
		os.Exit(0)
	}
	var mu sync.Mutex
	say := func(x ...interface{}) { mu.Lock(); fmt.Fprintln(ans, x...); mu.Unlock() }
	say("dialed")
	l := newLocal(s, ec)
	go func() {
		for e := range l.e {
			say("err", strings.Replace(e, "\n", " ", -1))
		}
	}()
	in := bufio.NewReader(os.Stdin)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			os.Exit(0)
		}
		f := strings.Fields(line)
		switch f[0] {
		case "send":
			t := ""
			if len(f) > 1 {
				b, _ := base64.StdEncoding.DecodeString(f[1])
				t = string(b)
			}
			b, err := l.send(t)
			if err != nil {
				say("notsent")
			} else {
				say("sent", base64.StdEncoding.EncodeToString(b))
			}
		case "end":
			<-l.end()
			say("ended")
		}
	}
}

type childSender struct {
	c     *exec.Cmd
	in    interface{ Write([]byte) (int, error) }
	sent  chan []byte
	ended chan struct{}
	e     chan string
	start chan string
}

func (c *childSender) send(text string) ([]byte, error) {
	fmt.Fprintln(c.in, "send", base64.StdEncoding.EncodeToString([]byte(text)))
	select {
	case b := <-c.sent:
		if b == nil {
			return nil, errors.New("not sent")
		}
		return b, nil
	case <-time.After(patience):
		panic(errStuck{"Send"})
	}
}
func (c *childSender) end() <-chan struct{} { fmt.Fprintln(c.in, "end"); return c.ended }
func (c *childSender) errs() <-chan string  { return c.e }

type dialChunk struct {
	b  []byte
	on string
}

func startChild(network, addr, tr string, delay int, data chan<- dialChunk) (*childSender, string) {
	c := &childSender{sent: make(chan []byte, 1), ended: make(chan struct{}), e: make(chan string, 10000), start: make(chan string, 1)}
	c.c = exec.Command("/proc/self/exe", "dialchild", network, addr, tr, strconv.Itoa(delay))
	c.in, _ = c.c.StdinPipe()
	for _, n := range []string{"stdout:", "stderr:"} {
		r, w, err := os.Pipe()
		ck(err)
		if n == "stdout:" {
			c.c.Stdout = w
		} else {
			c.c.Stderr = w
		}
		go func(n string) {
			for {
				b := make([]byte, 4096)
				k, err := r.Read(b)
				if k > 0 {
					data <- dialChunk{b[:k], n}
				}
				if err != nil {
					return
				}
			}
		}(n)
	}
	r, w, err := os.Pipe()
	ck(err)
	c.c.ExtraFiles = []*os.File{w}
	ck(c.c.Start())
	w.Close()
	c.c.Stdout.(*os.File).Close()
	c.c.Stderr.(*os.File).Close()
	go func() {
		in := bufio.NewReader(r)
		for {
			line, err := in.ReadString('\n')
			if err != nil {
				return
			}
			f := strings.Fields(line)
			switch f[0] {
			case "refused", "dialed":
				c.start <- f[0]
			case "sent":
				b, _ := base64.StdEncoding.DecodeString(f[1])
				c.sent <- b
			case "notsent":
				c.sent <- nil
			case "ended":
				close(c.ended)
			case "err":
				select {
				case c.e <- line:
				default:
				}
			}
		}
	}()
	select {
	case s := <-c.start:
		return c, s
	case <-time.After(patience):
		return c, "stuck"
	}
}

// names of this machine, see hosts.go
var named = map[string]bool{"localhost": true, "both": true, "many": true, "six": true}

// peer is what listens at the address, made without the library
type peer struct {
	kind, addr string
	data       chan dialChunk
	l          net.Listener
	pc         *net.UnixConn
}

func (p *peer) up() {
	switch p.kind {
	case "unixgram":
		c, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: p.addr, Net: "unixgram"})
		ck(err)
		p.pc = c
		go func() {
			for {
				b := make([]byte, 1<<18)
				n, _, err := c.ReadFrom(b)
				if err != nil {
					return
				}
				p.data <- dialChunk{b[:n], ""}
			}
		}()
	default:
		network := map[string]string{"unix": "unix", "tcp4": "tcp4", "tcp6": "tcp6"}[p.kind]
		l, err := net.Listen(network, p.addr)
		ck(err)
		p.l = l
		go func() {
			for {
				c, err := l.Accept()
				if err != nil {
					return
				}
				go func() {
					for {
						b := make([]byte, 4096)
						n, err := c.Read(b)
						if n > 0 {
							p.data <- dialChunk{b[:n], ""}
						}
						if err != nil {
							c.Close()
							return
						}
					}
				}()
			}
		}()
	}
}

func (p *peer) close() {
	if p.l != nil {
		p.l.Close()
	}
	if p.pc != nil {
		p.pc.Close()
	}
}

type dialOp struct {
	O  string
	N  int
	Us int
	T  string
}

func runDial(raw json.RawMessage) M {
	var c struct {
		Net, Tr string
		Delay   int // microseconds
		Nano    int
		Plain   bool   // the function Dial
		Addr    string // path, ip, localhost, mapped, or itself after "="
		Peer    string // unix, unixgram, tcp4, tcp6, none, stale, staledgram, file, dir, stdio
		Ops     []dialOp
	}
	must(raw, &c)
	dir, err := os.MkdirTemp("", "s5")
	ck(err)
	defer os.RemoveAll(dir)
	data := make(chan dialChunk, 100000)
	p := &peer{kind: c.Peer, data: data}
	defer p.close()
	path := filepath.Join(dir, "s")
	fams := []int{}
	addr := path
	port := ""
	if named[c.Addr] || c.Addr == "ip" || c.Addr == "mapped" || c.Addr == "other" {
		port = freePort()
		if c.Peer == "tcp6" && !has6() {
			return M{"unavailable": true, "ev": []M{}}
		}
	}
	switch c.Peer {
	case "unix", "unixgram":
		p.addr = path
	case "tcp4":
		p.addr = "127.0.0.1:" + port
	case "tcp6":
		p.addr = "[::1]:" + port
	case "stale":
		stale(path, "unix")
	case "staledgram":
		stale(path, "unixgram")
	case "file":
		ck(os.WriteFile(path, []byte("x"), 0644))
	case "dir":
		ck(os.Mkdir(path, 0755))
	}
	switch c.Addr {
	case "path":
	case "ip": // of the peer
		addr, fams = p.addr, []int{4}
		if c.Peer == "tcp6" {
			fams = []int{6}
		}
		if addr == "" {
			addr = "127.0.0.1:" + port
		}
	case "other": // of the other family
		addr, fams = "[::1]:"+port, []int{6}
		if c.Peer == "tcp6" {
			addr, fams = "127.0.0.1:"+port, []int{4}
		}
	case "mapped":
		addr, fams = "[::ffff:127.0.0.1]:"+port, []int{4}
	case "localhost", "both", "many", "six":
		name := c.Addr
		if name != "localhost" {
			name += ".verif.test"
		}
		addr = name + ":" + port
		ips, err := (&net.Resolver{PreferGo: true}).LookupIPAddr(ctx(), name)
		if err != nil {
			return M{"unavailable": true, "ev": []M{}}
		}
		for _, ip := range ips {
			if ip.IP.To4() != nil {
				fams = append(fams, 4)
			} else {
				fams = append(fams, 6)
			}
		}
	default:
		addr = c.Addr[1:]
	}
	lg := &Log{}
	var d dialed
	var sent int   // bytes
	var frames int // messages
	var got, gotn int
	drain := func() {
		for {
			select {
			case x := <-data:
				got += len(x.b)
				gotn++
				lg.Add(M{"e": "data", "d": ints(x.b), "on": x.on})
			default:
				return
			}
		}
	}
	overhead := func(b []byte) int {
		tr := c.Tr
		if tr == "rfc" {
			return len(strconv.Itoa(len(b))) + 1 + len(b)
		}
		return len(b) + 1
	}
	send := func(t string) {
		b, err := d.send(t)
		lg.Add(M{"e": "send", "d": ints(b), "err": err != nil})
		sent += overhead(b)
		frames++
	}
	sync := func() {
		if !awaitFor(dialPatience, func() bool { drain(); return got >= sent }) {
			timedOut()
		}
		drain()
	}
	stuck := guarded(lg, func() {
		for _, o := range c.Ops {
			switch o.O {
			case "up":
				p.up()
				lg.Add(M{"e": "up"})
			case "dial":
				t0 := time.Now()
				ok := false
				done := make(chan bool, 1)
				if c.Net == "stdio" {
					tr := c.Tr
					if c.Plain {
						tr = "plain"
					}
					ch, s := startChild(c.Net, addr, tr, c.Delay, data)
					defer ch.c.Process.Kill()
					if s == "stuck" {
						panic(errStuck{"Dial"})
					}
					d, ok = ch, s == "dialed"
				} else {
					go func() {
						var s *s5.Sender
						var ec <-chan error
						var err error
						if c.Plain {
							s, ec, err = s5.Dial(c.Net, addr)
						} else {
							s, ec, err = s5.Dialer{FlushDelay: time.Duration(c.Delay)*time.Microsecond + time.Duration(c.Nano)}.Dial(c.Net, addr, transportOf(c.Tr))
						}
						if err == nil {
							d = newLocal(s, ec)
							ok = s != nil && ec != nil
						}
						done <- true
					}()
					select {
					case <-done:
					case <-time.After(patience):
						panic(errStuck{"Dial"})
					}
				}
				_ = t0
				lg.Add(M{"e": "dial", "ok": ok})
			case "send":
				for i := 0; i < o.N; i++ {
					send(o.T + strconv.Itoa(i))
				}
			case "sync":
				sync()
				lg.Add(M{"e": "sync"})
			case "idle":
				time.Sleep(time.Duration(o.Us) * time.Microsecond)
				drain()
				lg.Add(M{"e": "idle"})
			case "err":
				wait := dialPatience / 3
				if frames == 0 { // nothing to send: nobody has to find out
					wait = 30 * time.Millisecond
				}
				select {
				case <-d.errs():
					lg.Add(M{"e": "err"})
				case <-time.After(wait):
					lg.Add(M{"e": "noerr"})
					if frames > 0 {
						timedOut()
					}
				}
			case "noerr": // no error is there
				select {
				case <-d.errs():
					lg.Add(M{"e": "err"})
				default:
				}
			case "late": // the smallest delay of several messages
				best := time.Hour
				for i := 0; i < o.N; i++ {
					t0 := time.Now()
					send("late " + strconv.Itoa(i))
					sync()
					if t := time.Since(t0); t < best {
						best = t
					}
				}
				most := time.Duration(10*c.Delay)*time.Microsecond + 150*time.Millisecond
				if c.Delay >= 100000 {
					most = time.Duration(5*c.Delay)*time.Microsecond + time.Second
				}
				lg.Add(M{"e": "late", "ok": best <= most, "ms": int(best / time.Millisecond)})
			case "end":
				lg.Add(M{"e": "endcall"})
				awaitChan("End", d.end())
				sync()
				lg.Add(M{"e": "endret"})
			case "endlate": // End is called while there's no peer
				lg.Add(M{"e": "endcall"})
				w := d.end()
				select {
				case <-d.errs():
					lg.Add(M{"e": "err"})
				case <-time.After(dialPatience / 3):
					lg.Add(M{"e": "noerr"})
					timedOut()
				}
				select {
				case <-w:
					lg.Add(M{"e": "endret"})
				default:
				}
				p.up()
				lg.Add(M{"e": "up"})
				awaitChan("End", w)
				sync()
				lg.Add(M{"e": "endret"})
			default:
				panic("op " + o.O)
			}
		}
	})
	res := M{"ev": lg.ev, "fams": fams, "net": c.Net, "tr": c.Tr, "auto": c.Delay > 1000 || (c.Delay == 1000 && c.Nano > 0), "peer": c.Peer, "addr": c.Addr, "plain": c.Plain}
	if stuck != nil {
		res["stuck"] = stuck
	}
	return res
}
