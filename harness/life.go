package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { runners["life"] = runLife }

var stacks = make([]byte, 1<<18)

// heldNow counts the goroutines that the library made, and the descriptors of this process
func heldNow() (g, f int) {
	n := runtime.Stack(stacks, true)
	for n == len(stacks) {
		stacks = make([]byte, 2*len(stacks))
		n = runtime.Stack(stacks, true)
	}
	b := stacks[:n]
	g = bytes.Count(b, []byte("created by github.com/nathanaelle/syslog5424"))
	l, err := os.ReadDir("/proc/self/fd")
	ck(err)
	for _, e := range l {
		to, err := os.Readlink("/proc/self/fd/" + e.Name())
		// not the directory itself, nor what the runtime uses
		if err == nil && !strings.HasPrefix(to, "anon_inode") && !strings.HasPrefix(to, "/proc/") {
			f++
		}
	}
	return
}

// peerOf is where senders send to: it remembers the highest number that it received
type peerOf struct {
	l     net.Listener
	g     *net.UnixConn
	mu    sync.Mutex
	conns map[net.Conn]bool
	done  bool
	last  map[int]*int64
}

func (p *peerOf) of(gen int) *int64 {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.last[gen] == nil {
		p.last[gen] = new(int64)
	}
	return p.last[gen]
}

func (p *peerOf) number(b []byte) {
	// "#generation.number#"
	for {
		i := bytes.IndexByte(b, '#')
		if i < 0 {
			return
		}
		b = b[i+1:]
		j := bytes.IndexByte(b, '#')
		if j < 0 {
			return
		}
		var s, k int
		if n, _ := fmt.Sscanf(string(b[:j]), "%d.%d", &s, &k); n == 2 {
			b = b[j+1:]
			if last := p.of(s); int64(k) > atomic.LoadInt64(last) {
				atomic.StoreInt64(last, int64(k))
			}
		}
	}
}

func (p *peerOf) read(c net.Conn) {
	defer c.Close()
	b := make([]byte, 1<<18)
	keep := 0
	for {
		n, err := c.Read(b[keep:])
		n += keep
		p.number(b[:n])
		if keep = n; keep > 40 {
			keep = 40
		}
		copy(b, b[n-keep:n])
		if err != nil {
			break
		}
	}
	p.mu.Lock()
	delete(p.conns, c)
	p.mu.Unlock()
}

func (p *peerOf) open(network, addr string) {
	p.conns, p.done = map[net.Conn]bool{}, false
	if network == "unixgram" {
		os.Remove(addr)
		g, err := net.ListenUnixgram(network, &net.UnixAddr{Name: addr, Net: network})
		ck(err)
		p.g = g
		go p.read(g)
		return
	}
	l, err := net.Listen(network, addr)
	ck(err)
	p.l = l
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			p.mu.Lock()
			if p.done {
				c.Close()
			} else {
				p.conns[c] = true
				go p.read(c)
			}
			p.mu.Unlock()
		}
	}()
}

func (p *peerOf) drop() {
	p.mu.Lock()
	for c := range p.conns {
		c.Close()
	}
	p.mu.Unlock()
}

func (p *peerOf) close() {
	p.mu.Lock()
	p.done = true
	p.mu.Unlock()
	if p.g != nil {
		p.g.Close()
		p.g = nil
	}
	if p.l != nil {
		p.l.Close()
		p.l = nil
	}
	p.drop()
}

type sndOf struct {
	s     *s5.Sender
	errs  int64
	n     int
	gen   int // no two senders of a scenario have the same
	state string
}

type rcvOf struct {
	r     *s5.Receiver
	addr  string
	over  chan struct{}
	state string
}

type cliOf struct {
	c    net.Conn
	r, n int
	got  int64
}

func runLife(raw json.RawMessage) M {
	var c struct {
		Net, Tr string
		Guess   bool
		Ops     []struct {
			O       string
			I, R, N int
			Size    int
		}
	}
	must(raw, &c)
	dir, err := os.MkdirTemp("", "lf")
	ck(err)
	defer os.RemoveAll(dir)
	ip := "127.0.0.1"
	if c.Net == "tcp6" {
		if ip = "::1"; !has6() {
			return M{"unavailable": true, "ev": []M{}}
		}
	}
	place := func(name string) string {
		if strings.HasPrefix(c.Net, "tcp") {
			return net.JoinHostPort(ip, freePort())
		}
		return filepath.Join(dir, name)
	}
	lg := &Log{}
	t := transportOf(c.Tr)
	frame := func(text string) []byte {
		m, err := simpleMsg(text).Marshal5424()
		ck(err)
		switch c.Tr {
		case "lf":
			return append(append([]byte{}, m...), '\n')
		case "rfc":
			return append([]byte(strconv.Itoa(len(m))+" "), m...)
		}
		return append(append([]byte{}, m...), 0)
	}
	peer := &peerOf{last: map[int]*int64{}}
	peerAddr, nowhere := place("peer"), place("nowhere")
	peerUp, gen := false, 0
	senders, receivers, clients := map[int]*sndOf{}, map[int]*rcvOf{}, map[int]*cliOf{}
	var cmu sync.Mutex // clients, for the readers
	stop := make(chan struct{})

	// how many of each there are, and what was held with as many
	type cfg [6]int
	seen := map[cfg][2]int{}
	now := func() (k cfg) {
		if peerUp {
			k[0] = 1
		}
		for _, s := range senders {
			switch s.state {
			case "up":
				k[1]++
			case "down":
				k[2]++
			}
		}
		for _, r := range receivers {
			switch r.state {
			case "listens":
				k[3]++
			case "ending":
				k[4]++
			}
		}
		k[5] = len(clients)
		return
	}
	measure := func() {
		k := now()
		settled := peerUp || k[1] == 0
		for _, s := range senders {
			settled = settled && s.state != "fresh"
		}
		bound := [2]int{-1, -1}
		for x, m := range seen {
			more := settled
			for i := range k {
				more = more && x[i] >= k[i] && (i > 0 || x[0] == k[0] || k[0] == 0)
			}
			for i := range bound {
				if more && (bound[i] < 0 || m[i] < bound[i]) {
					bound[i] = m[i]
				}
			}
		}
		var g, f int
		if bound[0] < 0 {
			// the first time: what there is when everything is quiet
			for i, same := 0, 0; same < 8 && i < 60; i++ {
				x, y := heldNow()
				if same++; x != g || y != f {
					same = 0
					if i > 20 {
						// something comes and goes
						x, y = min(x, g), min(y, f)
					}
				}
				g, f = x, y
				time.Sleep(5 * time.Millisecond)
			}
		} else if !awaitFor(dialPatience, func() bool {
			g, f = heldNow()
			if g <= bound[0] && f <= bound[1] {
				return true
			}
			time.Sleep(2 * time.Millisecond)
			return false
		}) {
			timedOut()
		}
		if _, ok := seen[k]; !ok && settled {
			seen[k] = [2]int{g, f}
		}
		lg.Add(M{"e": "held", "g": g, "f": f})
	}
	// the garbage collector closes what nobody closed: it does so only when the memory is measured
	collect := debug.SetGCPercent(-1)
	limit := debug.SetMemoryLimit(500 << 20)
	defer debug.SetMemoryLimit(limit)
	defer debug.SetGCPercent(collect)
	defer func() {
		close(stop)
		peer.close()
		for _, x := range clients {
			x.c.Close()
		}
	}()
	text := func(i, k, size int) string {
		s := fmt.Sprintf("#%d.%d#", i, k)
		if len(s) < size {
			s += strings.Repeat("x", size-len(s))
		}
		return s
	}
	send := func(i, n, size int) {
		s := senders[i]
		for j := 0; j < n; j++ {
			s.n++
			s.s.Send(simpleMsg(text(s.gen, s.n, size)))
		}
	}
	arrives := func(what string, i int) {
		s := senders[i]
		await(what, func() bool { return atomic.LoadInt64(peer.of(s.gen)) >= int64(s.n) })
	}
	stuck := guarded(lg, func() {
		for _, o := range c.Ops {
			i := o.I
			switch o.O {
			case "held":
				measure()
			case "memory":
				runtime.GC()
				runtime.GC()
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				lg.Add(M{"e": "memory", "kb": int(ms.HeapAlloc >> 10)})
			case "peer":
				peer.open(c.Net, peerAddr)
				peerUp = true
				lg.Add(M{"e": "peer", "up": true})
			case "nopeer":
				peer.close()
				peerUp = false
				lg.Add(M{"e": "peer", "up": false})
			case "dial":
				n, addr := c.Net, peerAddr
				if c.Guess && n != "tcp" && strings.HasPrefix(n, "unix") {
					n = "local"
				}
				s, errc, err := s5.Dialer{FlushDelay: 4 * time.Millisecond}.Dial(n, addr, t)
				ck(err)
				gen++
				x := &sndOf{s: s, state: "fresh", gen: gen}
				senders[i] = x
				lg.Add(M{"e": "dial", "s": i})
				go func() {
					for {
						select {
						case _, ok := <-errc:
							if !ok {
								return
							}
							atomic.AddInt64(&x.errs, 1)
						case <-stop:
							return
						}
					}
				}()
			case "send": // and it arrives: the sender has a connection
				send(i, o.N, o.Size)
				arrives("message", i)
				senders[i].state = "up"
				lg.Add(M{"e": "up", "s": i})
			case "fail": // sends until the connection is seen to have failed
				s := senders[i]
				n := atomic.LoadInt64(&s.errs)
				await("error", func() bool {
					if atomic.LoadInt64(&s.errs) > n+1 {
						return true
					}
					send(i, 1, o.Size)
					time.Sleep(5 * time.Millisecond)
					return false
				})
				s.state = "down"
				lg.Add(M{"e": "down", "s": i})
			case "drop": // the peer loses its connections
				peer.drop()
				lg.Add(M{"e": "idle"})
			case "again": // until it has another one
				s := senders[i]
				await("message", func() bool {
					send(i, 1, o.Size)
					time.Sleep(8 * time.Millisecond)
					return atomic.LoadInt64(peer.of(s.gen)) >= int64(s.n)
				})
				s.state = "up"
				lg.Add(M{"e": "up", "s": i})
			case "end":
				s := senders[i]
				within("End", s.s.End)
				delete(senders, i)
				lg.Add(M{"e": "ended", "s": i})
			case "listen":
				x := receivers[i]
				if x == nil {
					x = &rcvOf{addr: place("r" + strconv.Itoa(i))}
					receivers[i] = x
				}
				l, err := s5.GuessListener(c.Net, x.addr)
				lg.Add(M{"e": "listen", "r": i, "ok": err == nil})
				if err != nil {
					panic(errStuck{"listener: " + err.Error()})
				}
				r, errc := s5.NewReceiver(l, 1, t)
				x.r, x.over, x.state = r, make(chan struct{}), "listens"
				over := x.over
				go func() {
					for {
						select {
						case <-errc:
						case <-stop:
							return
						}
					}
				}()
				go func() {
					defer close(over)
					for {
						m, err, ok := r.Receive()
						if !ok {
							return
						}
						var a, k int
						if err == nil {
							fmt.Sscanf(m.Text(), "#%d.%d#", &a, &k)
						}
						cmu.Lock()
						x := clients[a]
						cmu.Unlock()
						if x != nil {
							atomic.StoreInt64(&x.got, int64(k))
						}
					}
				}()
			case "stop":
				within("End", receivers[i].r.End)
				receivers[i].state = "ending"
				lg.Add(M{"e": "stop", "r": i})
			case "over":
				awaitChan("over", receivers[i].over)
				receivers[i].state = "over"
				_, err := os.Lstat(receivers[i].addr)
				lg.Add(M{"e": "over", "r": i, "left": err == nil})
			case "client":
				d, err := net.Dial(c.Net, receivers[o.R].addr)
				if err != nil {
					panic(errStuck{"connect: " + err.Error()})
				}
				x := &cliOf{c: d, r: o.R}
				cmu.Lock()
				clients[i] = x
				cmu.Unlock()
				x.n = 1
				d.Write(frame(text(i, x.n, 0)))
				await("accepted", func() bool { return atomic.LoadInt64(&x.got) >= 1 })
				lg.Add(M{"e": "client", "c": i, "r": o.R})
			case "say":
				x := clients[i]
				for j := 0; j < o.N; j++ {
					x.n++
					x.c.Write(frame(text(i, x.n, o.Size)))
				}
				await("received", func() bool { return atomic.LoadInt64(&x.got) >= int64(x.n) })
			case "noise": // no messages, or parts of them
				x := clients[i]
				x.c.Write([]byte([]string{"", "no message", "5 ab", "12x4 <13>1 - - - - - - ", "<13>1 -", "-7 \n\x00\n<999>1\x00", "99999999999999999999 a"}[o.N]))
			case "leave", "reset":
				x := clients[i]
				if t, ok := x.c.(*net.TCPConn); ok && o.O == "reset" {
					t.SetLinger(0)
				}
				x.c.Close()
				cmu.Lock()
				delete(clients, i)
				cmu.Unlock()
				lg.Add(M{"e": "leave", "c": i})
			case "refused": // what can't be, is refused, many times
				file := filepath.Join(dir, "file")
				ck(os.WriteFile(file, nil, 0o600))
				for j := 0; j < o.N; j++ {
					var k s5.Connector
					switch o.I {
					case 0:
						k = s5.TCPConnector("tcp", "127.0.0.1:"+freePortOf(nowhere))
					case 1:
						k = s5.LocalConnector("", filepath.Join(dir, "absent"))
					case 2:
						k = s5.LocalConnector("unix", file)
					case 3:
						k = s5.LocalConnector("unixgram", file)
					case 4:
						s5.GuessListener("unix", file)
					case 5:
						s5.GuessListener("unixgram", file)
					case 6:
						s5.GuessListener("tcp", "192.0.2.1:999")
					case 7:
						s5.Dialer{FlushDelay: time.Hour}.Dial("nothing", "", nil)
					case 8:
						s5.NewReceiver(nil, 1, nil)
					}
					if k != nil {
						if w, err := k.Connect(); err == nil && w != nil {
							w.Close()
						}
					}
				}
				lg.Add(M{"e": "idle"})
			case "connect": // connections that users make themselves, and close
				for j := 0; j < o.N; j++ {
					var k s5.Connector
					switch {
					case strings.HasPrefix(c.Net, "tcp"):
						k = s5.TCPConnector(c.Net, peerAddr)
					case j%2 == 0:
						k = s5.LocalConnector("", peerAddr)
					default:
						k = s5.LocalConnector(c.Net, peerAddr)
					}
					if w, err := k.Connect(); err == nil && w != nil {
						w.Close()
					}
				}
				lg.Add(M{"e": "idle"})
			}
		}
	})
	r := M{"ev": lg.ev}
	if stuck != nil {
		r["stuck"] = stuck
	}
	return r
}

var refusedPort string

// freePortOf is a port where nothing listens
func freePortOf(string) string {
	if refusedPort == "" {
		refusedPort = freePort()
	}
	return refusedPort
}
