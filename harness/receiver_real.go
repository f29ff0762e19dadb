package main

import (
	"encoding/base64"
	"net"
	"os"
	"path/filepath"
	"strings"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

// realSide is the listener and the clients of a Receiver whose connections are real.
// What is logged is what the clients do; how the bytes are read can't be known.
type realSide struct {
	network  string
	dir      string
	addr     string
	listener s5.Listener
	clients  []net.Conn // of unixgram
	turn     int
}

func newRealSide(network string) *realSide {
	dir, err := os.MkdirTemp("", "s5")
	ck(err)
	x := &realSide{network: network, dir: dir, addr: filepath.Join(dir, "s")}
	if strings.HasPrefix(network, "tcp") {
		if network == "tcp6" && !has6() {
			os.RemoveAll(dir)
			return nil
		}
		ip := "127.0.0.1"
		if network == "tcp6" {
			ip = "::1"
		}
		x.addr = net.JoinHostPort(ip, freePort())
	}
	x.listener, err = s5.GuessListener(network, x.addr)
	ck(err)
	return x
}

func (x *realSide) dial() net.Conn {
	d := net.Dialer{Timeout: patience}
	c, err := d.Dial(x.network, x.addr)
	if err != nil {
		panic(errStuck{"dial: " + err.Error()})
	}
	return c
}

func (x *realSide) gram() bool { return x.network == "unixgram" }

func (x *realSide) write(r *recvRun, c *recvConn, n int) {
	if n < 0 || n > len(c.stream)-c.fed {
		n = len(c.stream) - c.fed
	}
	b := c.stream[c.fed : c.fed+n]
	r.mu.Lock()
	c.fed += n
	if n > 0 {
		r.add(M{"e": "feed", "c": c.id, "n": n})
	}
	r.mu.Unlock()
	to := c.client
	if x.gram() {
		x.turn++
		to = x.clients[x.turn%len(x.clients)]
	} else if n == 0 {
		return
	}
	to.SetWriteDeadline(time.Now().Add(patience))
	// a connection that can't be decoded anymore may be closed
	to.Write(b)
}

func (x *realSide) apply(r *recvRun, o recvOp) bool {
	switch o.Op {
	case "accept":
		c := r.conns[o.C-1]
		r.mu.Lock()
		c.taken = true
		r.add(M{"e": "accept", "c": c.id})
		r.mu.Unlock()
		if !x.gram() {
			c.client = x.dial()
		} else if len(x.clients) == 0 {
			for i := 0; i < 3; i++ {
				x.clients = append(x.clients, x.dial())
			}
		}
	case "feed":
		x.write(r, r.conns[o.C-1], o.N)
	case "until":
		x.write(r, r.conns[o.C-1], o.N)
		want, err := base64.StdEncoding.DecodeString(o.Text)
		ck(err)
		from := 0
		await("message after "+string(want), r.locked(func() bool {
			for ; from < len(r.got); from++ {
				if r.got[from].String() == string(want) {
					return true
				}
			}
			return false
		}))
	case "eof":
		c := r.conns[o.C-1]
		x.write(r, c, o.N)
		x.leave(r, c)
	default:
		return false
	}
	return true
}

func (x *realSide) leave(r *recvRun, c *recvConn) {
	r.mu.Lock()
	c.ended = true
	r.add(M{"e": "eof", "c": c.id})
	r.mu.Unlock()
	c.client.Close()
}

// finish closes the connections; tells if the end of the receiver can be awaited
func (x *realSide) finish(r *recvRun) bool {
	if x.gram() {
		r.Add(M{"e": "quiet"})
		return false
	}
	for _, c := range r.conns {
		if c.client != nil && !c.ended {
			x.leave(r, c)
		}
	}
	return true
}

func (x *realSide) done(r *recvRun) {
	for _, c := range r.conns {
		if c.client != nil {
			c.client.Close()
		}
	}
	for _, c := range x.clients {
		c.Close()
	}
	if x.gram() {
		// datagrams go on until their socket is closed
		r.recv.End()
		x.listener.Close()
	}
	os.RemoveAll(x.dir)
}
