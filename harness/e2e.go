package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"log"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

func init() { runners["e2e"] = runE2E }

// e2eChild: "e2echild NETWORK ADDRESS TRANSPORT QUEUE SLOW RELAY": a receiver; what it receives on stdout.
// with an address as RELAY, it forwards what it receives there, and says only that it's ready.
func e2eChild(a []string) {
	queue, _ := strconv.Atoi(a[3])
	slow, _ := strconv.Atoi(a[4])
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	l, err := s5.GuessListener(a[0], a[1])
	if err != nil {
		fmt.Fprintln(w, "fail", err)
		w.Flush()
		os.Exit(0)
	}
	r, errc := s5.NewReceiver(l, queue, transportOf(a[2]))
	var mu sync.Mutex
	say := func(x ...interface{}) { mu.Lock(); fmt.Fprintln(w, x...); w.Flush(); mu.Unlock() }
	go func() {
		for e := range errc {
			say("err", strings.Replace(e.Error(), "\n", " ", -1))
		}
	}()
	var out *s5.Sender
	if a[5] != "" {
		f := strings.SplitN(a[5], "!", 2)
		out, _, err = s5.Dialer{FlushDelay: 2 * time.Millisecond}.Dial(f[0], f[1], s5.TransportRFC5425)
		ck(err)
	}
	say("ready")
	go func() { // the end of the parent process
		var b [1]byte
		os.Stdin.Read(b[:])
		os.Exit(0)
	}()
	for {
		m, err, ok := r.Receive()
		if !ok {
			say("over")
			return
		}
		switch {
		case err != nil:
			say("bad", base64.StdEncoding.EncodeToString([]byte(err.Error())))
		case out != nil:
			if err := out.Send(m.Writable()); err != nil {
				say("bad", base64.StdEncoding.EncodeToString([]byte("relay: "+err.Error())))
			}
		default:
			say("msg", base64.StdEncoding.EncodeToString([]byte(m.String())), base64.StdEncoding.EncodeToString([]byte(m.Text())))
		}
		if slow > 0 {
			time.Sleep(time.Duration(slow) * time.Microsecond)
		}
	}
}

type e2eRecv struct {
	c     *exec.Cmd
	in    interface{ Close() error }
	ready chan string
}

func (r *e2eRun) startRecv(network, addr, tr string, relay string, onLine func(f []string)) *e2eRecv {
	c := &e2eRecv{ready: make(chan string, 1)}
	c.c = exec.Command("/proc/self/exe", "e2echild", network, addr, tr, strconv.Itoa(r.c.Queue), strconv.Itoa(r.c.Slow), relay)
	c.in, _ = c.c.StdinPipe()
	out, _ := c.c.StdoutPipe()
	var stderr strings.Builder
	c.c.Stderr = &stderr
	ck(c.c.Start())
	go func() {
		in := bufio.NewReaderSize(out, 1<<20)
		for {
			line, err := in.ReadString('\n')
			if err != nil {
				break
			}
			f := strings.Fields(line)
			if f[0] == "ready" || f[0] == "fail" {
				c.ready <- line
			} else {
				onLine(f)
			}
		}
		c.c.Wait()
		if s := stderr.String(); s != "" {
			r.mu.Lock()
			r.crash += s
			r.mu.Unlock()
		}
		close(c.ready)
	}()
	select {
	case s := <-c.ready:
		if !strings.HasPrefix(s, "ready") {
			r.mu.Lock()
			s += r.crash
			r.mu.Unlock()
			panic(errStuck{"listener: " + s})
		}
	case <-time.After(patience):
		panic(errStuck{"listener"})
	}
	return c
}

func (c *e2eRecv) kill() {
	c.c.Process.Kill()
	for range c.ready {
	}
}

type e2eMsg struct {
	s, g, k int
	whole   string // "" when only the text is known
	text    string
}

type e2eRun struct {
	Log
	c struct {
		Net, Tr  string // of the senders
		Listen   string // network of the listener
		Addr     string // path, ip, localhost, ip6
		Queue    int
		Slow     int
		Sizes    []int
		Alphabet string // ascii, utf8, bytes
		Seed     int64
		Auto     []bool
		Lanes    []int
		DelayUs  int
		Via      string // send, chan, logger, mixed
		Relay    bool
		Ops      []struct {
			O    string
			S, N int
			Us   int
		}
	}
	want  map[string]*e2eMsg
	got   int
	sent  map[int]int // by sender
	crash string
	fails int
}

func (r *e2eRun) line(f []string) {
	if f[0] == "err" || f[0] == "over" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if f[0] == "bad" {
		b, _ := base64.StdEncoding.DecodeString(f[1])
		r.fails++
		if r.fails < 5 {
			r.add(M{"e": "recv", "ok": false, "s": 1, "g": 1, "k": 1, "what": string(b)})
		}
		return
	}
	whole, _ := base64.StdEncoding.DecodeString(f[1])
	var text []byte
	if len(f) > 2 {
		text, _ = base64.StdEncoding.DecodeString(f[2])
	}
	id := string(text)
	if i := strings.IndexByte(id, '#'); i >= 0 {
		id = id[:i]
	}
	m := r.want[id]
	what := ""
	switch {
	case m == nil:
		what = "an unknown message"
		m = &e2eMsg{s: 1, g: 1, k: 1}
	case m.whole != "" && m.whole != string(whole):
		what = "not the bytes that were sent"
	case m.text != string(text):
		what = "not the text that was sent"
	}
	if what != "" {
		r.fails++
		if r.fails >= 5 {
			return
		}
		x := string(whole)
		if len(x) > 300 {
			x = x[:300]
		}
		r.add(M{"e": "recv", "ok": false, "s": m.s, "g": m.g, "k": m.k, "what": what, "got": x, "len": len(whole)})
		return
	}
	r.got++
	if r.got > 2*len(r.want)+50 {
		r.cut = true // messages again and again
	}
	r.add(M{"e": "recv", "ok": true, "s": m.s, "g": m.g, "k": m.k})
}

func (r *e2eRun) body(rnd *rand.Rand, n int) string {
	if n == 0 {
		return ""
	}
	b := make([]byte, 0, n+8)
	for len(b) < n {
		switch r.c.Alphabet {
		case "bytes":
			b = append(b, byte(rnd.Intn(256)))
		case "utf8":
			b = append(b, []string{"a", "é", "€", "𝄞", " ", "\"", "]", "\\", "z", "\t"}[rnd.Intn(10)]...)
		default:
			b = append(b, byte(33+rnd.Intn(94)))
		}
	}
	if r.c.Alphabet == "bytes" {
		b = b[:n]
	}
	return string(b) + "."
}

func (r *e2eRun) total() int {
	n := 0
	for _, k := range r.sent {
		n += k
	}
	return n
}

type e2eSender struct {
	s       *s5.Sender
	chans   []s5.Channel
	loggers []*log.Logger
	st      string
	k       []int
	rnd     []*rand.Rand
	ended   chan struct{}
}

func runE2E(raw json.RawMessage) M {
	r := &e2eRun{want: map[string]*e2eMsg{}, sent: map[int]int{}}
	must(raw, &r.c)
	c := &r.c
	dir, err := os.MkdirTemp("", "s5")
	ck(err)
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "s")
	laddr := addr
	if strings.HasPrefix(c.Net, "tcp") {
		ip := map[string]string{"ip": "127.0.0.1", "localhost": "127.0.0.1", "ip6": "::1", "many": "127.0.0.1", "both": "::1"}[c.Addr]
		if ip == "::1" && !has6() {
			return M{"unavailable": true, "ev": []M{}}
		}
		port := freePort()
		laddr = net.JoinHostPort(ip, port)
		addr = laddr
		if c.Addr == "localhost" {
			addr = "localhost:" + port
		}
		if c.Addr == "many" || c.Addr == "both" {
			addr = c.Addr + ".verif.test:" + port
		}
	}
	relayTo := ""
	relay := ""
	if c.Relay {
		relayTo = filepath.Join(dir, "r")
		relay = "unix!" + relayTo
	}
	var recv, last *e2eRecv
	defer func() {
		if recv != nil {
			recv.kill()
		}
		if last != nil {
			last.kill()
		}
	}()
	listen := func() {
		if c.Relay {
			if last == nil {
				last = r.startRecv("unix", relayTo, "rfc", "", r.line)
			}
			recv = r.startRecv(c.Listen, laddr, c.Tr, relay, r.line)
		} else {
			recv = r.startRecv(c.Listen, laddr, c.Tr, "", r.line)
		}
	}
	senders := make([]*e2eSender, len(c.Auto))
	for i := range senders {
		senders[i] = &e2eSender{st: "new", k: make([]int, c.Lanes[i])}
		for g := range senders[i].k {
			senders[i].rnd = append(senders[i].rnd, rand.New(rand.NewSource(c.Seed+int64(100*i+g))))
		}
	}
	leaves := func() int {
		n := 0
		for i, s := range senders {
			if s.st == "ended" || s.st == "open" && c.Auto[i] {
				n += r.sent[i]
			}
		}
		return n
	}
	// what was sent by senders that keep it does not come
	sync := func() {
		if recv == nil {
			time.Sleep(time.Millisecond)
			return
		}
		need := leaves()
		p := dialPatience
		ok := false
		seen := -1
		for { // as long as something comes
			ok = awaitFor(p, func() bool {
				r.mu.Lock()
				defer r.mu.Unlock()
				return r.got+r.fails >= need || r.crash != ""
			})
			r.mu.Lock()
			n := r.got
			r.mu.Unlock()
			if ok || n == seen {
				break
			}
			seen = n
		}
		if !ok {
			timedOut()
		}
	}
	batch := func(i, n int, us int) {
		s := senders[i]
		var wg syncWG
		for g := 0; g < c.Lanes[i]; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for x := 0; x < n; x++ {
					s.k[g]++
					k := s.k[g]
					size := c.Sizes[s.rnd[g].Intn(len(c.Sizes))]
					id := fmt.Sprintf("%d.%d.%d", i+1, g+1, k)
					text := id + "#" + r.body(s.rnd[g], size)
					m := &e2eMsg{s: i + 1, g: g + 1, k: k, text: text}
					via := c.Via
					if via == "mixed" {
						via = []string{"send", "chan", "logger"}[s.rnd[g].Intn(3)]
					}
					var msg s5.Message
					if via == "send" {
						msg = s5.EmptyMessage().Priority(s5.Priority(s.rnd[g].Intn(24)*8 + s.rnd[g].Intn(8))).Time(fixedTime).Host("host").AppName("app").ProcID("42").MsgID("m").Msg(text)
						if s.rnd[g].Intn(3) == 0 {
							msg = msg.StructuredData(timequality.TimeQuality{TzKnown: true, IsSynced: true, SyncAccuracy: &k})
						}
						b, err := msg.Marshal5424()
						ck(err)
						m.whole = string(b)
					}
					r.mu.Lock()
					r.want[id] = m
					r.add(M{"e": "call", "s": i + 1, "g": g + 1})
					r.sent[i]++
					r.mu.Unlock()
					switch via {
					case "send":
						if err := s.s.Send(msg); err != nil {
							panic("send: " + err.Error())
						}
					case "chan":
						s.chans[g].Log(text)
					case "logger":
						if k%2 == 0 {
							s.chans[g].Write([]byte(text))
						} else {
							s.loggers[g].Print(text)
						}
					}
					r.Add(M{"e": "ret", "s": i + 1, "g": g + 1})
					if us > 0 {
						time.Sleep(time.Duration(us) * time.Microsecond)
					}
				}
			}(g)
		}
		wg.Wait()
	}
	end := func(i int) {
		s := senders[i]
		r.Add(M{"e": "endcall", "s": i + 1})
		s.st = "ending"
		s.ended = make(chan struct{})
		go func() { s.s.End(); close(s.ended) }()
	}
	ended := func(i int) {
		awaitChan("End", senders[i].ended)
		senders[i].st = "ended"
		r.Add(M{"e": "endret", "s": i + 1})
	}
	up := func() {
		r.Add(M{"e": "up"})
		listen()
	}
	stuck := guarded(&r.Log, func() {
		for _, o := range c.Ops {
			i := o.S - 1
			switch o.O {
			case "up":
				up()
			case "down":
				sync()
				r.Add(M{"e": "sync"})
				recv.kill()
				recv = nil
				r.Add(M{"e": "down"})
			case "dial":
				r.Add(M{"e": "dial", "s": o.S})
				d := s5.Dialer{}
				if c.Auto[i] {
					d.FlushDelay = time.Duration(c.DelayUs) * time.Microsecond
				}
				s, errc, err := d.Dial(c.Net, addr, transportOf(c.Tr))
				ck(err)
				go func() {
					for range errc {
					}
				}()
				sl, err := s5.New(s, s5.LogDAEMON|s5.LogDEBUG, "app")
				ck(err)
				senders[i].s = s
				senders[i].st = "open"
				for g := range senders[i].k {
					x := sl
					if g > 0 {
						x = sl.SubSyslog("lane" + strconv.Itoa(g))
					}
					ch := x.Channel(s5.Priority(g % 7)).Msgid("id")
					senders[i].chans = append(senders[i].chans, ch)
					senders[i].loggers = append(senders[i].loggers, ch.Logger(""))
				}
			case "send":
				within("Send", func() { batch(i, o.N, o.Us) })
			case "sendall": // every open sender at once
				var wg syncWG
				for i, s := range senders {
					if s.st == "open" {
						wg.Add(1)
						go func(i int) { defer wg.Done(); batch(i, o.N, o.Us) }(i)
					}
				}
				within("Send", wg.Wait)
			case "sync":
				sync()
				r.Add(M{"e": "sync"})
			case "sleep":
				time.Sleep(time.Duration(o.Us) * time.Microsecond)
			case "stall": // the receiver stands still for a while
				if p := recv.c.Process; p.Signal(syscall.SIGSTOP) == nil {
					time.AfterFunc(time.Duration(o.Us)*time.Microsecond, func() { p.Signal(syscall.SIGCONT) })
				}
			case "end":
				end(i)
				ended(i)
			case "endup":
				end(i)
				time.Sleep(3 * time.Millisecond)
				up()
				ended(i)
			case "endall":
				var open []int
				for i, s := range senders {
					if s.st == "open" {
						end(i)
						open = append(open, i)
					}
				}
				for _, i := range open {
					ended(i)
				}
			default:
				panic("op " + o.O)
			}
		}
		sync()
		// nothing more comes
		time.Sleep(2 * time.Millisecond)
		r.Add(M{"e": "sync"})
	})
	r.mu.Lock()
	res := M{"ev": r.ev, "auto": c.Auto, "lanes": c.Lanes, "got": r.got}
	if r.crash != "" {
		res["crash"] = r.crash
	}
	r.mu.Unlock()
	if stuck != nil {
		res["stuck"] = stuck
	}
	return res
}

type syncWG = sync.WaitGroup

// within runs f, that must end
func within(what string, f func()) {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	awaitChan(what, done)
}
