package main

import (
	"encoding/json"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { runners["realend"] = runRealEnd }

func runRealEnd(raw json.RawMessage) M {
	var c struct {
		Net, Tr string
		Queue   int
		WaitMs  int
		Late    bool // Receive is only called after End
		Ops     []struct {
			O    string
			C, K int
			Us   int
		}
	}
	must(raw, &c)
	dir, err := os.MkdirTemp("", "s5")
	ck(err)
	defer os.RemoveAll(dir)
	addr := filepath.Join(dir, "s")
	if strings.HasPrefix(c.Net, "tcp") {
		ip := "127.0.0.1"
		if c.Net == "tcp6" {
			ip = "::1"
		}
		if ip == "::1" && !has6() {
			return M{"unavailable": true, "ev": []M{}}
		}
		addr = net.JoinHostPort(ip, freePort())
	}
	wait := dialPatience
	if c.WaitMs > 0 {
		wait = time.Duration(c.WaitMs) * time.Millisecond
	}
	lg := &Log{}
	var recv *s5.Receiver
	var lis s5.Listener
	var over, got, fails int64
	conns := map[int]net.Conn{}
	said := map[int]int{}
	total := int64(0)
	finish := make(chan struct{})
	loop := func() {
		for {
			m, err, ok := recv.Receive()
			if !ok {
				lg.Add(M{"e": "over"})
				atomic.StoreInt64(&over, 1)
				return
			}
			var a, k int
			if err == nil {
				_, err = fmt.Sscanf(m.Text(), "%d.%d", &a, &k)
			}
			if err == nil && m.Text() != fmt.Sprintf("%d.%d", a, k) {
				err = fmt.Errorf("not what was sent: %q", m.Text())
			}
			if err != nil {
				if atomic.AddInt64(&fails, 1) < 5 {
					lg.Add(M{"e": "recv", "ok": false, "c": 1, "k": 1, "what": err.Error()})
				}
				continue
			}
			lg.Add(M{"e": "recv", "ok": true, "c": a, "k": k})
			atomic.AddInt64(&got, 1)
		}
	}
	defer func() {
		for _, x := range conns {
			x.Close()
		}
		close(finish)
	}()
	ended := false
	stuck := guarded(lg, func() {
		for _, o := range c.Ops {
			switch o.O {
			case "listen":
				l, err := s5.GuessListener(c.Net, addr)
				if err != nil {
					panic(errStuck{"listener: " + err.Error()})
				}
				r, errc := s5.NewReceiver(l, c.Queue, transportOf(c.Tr))
				go func() {
					for {
						select {
						case <-errc:
						case <-finish:
							return
						}
					}
				}()
				recv, lis = r, l
				lg.Add(M{"e": "listen"})
				if !c.Late {
					go loop()
				}
			case "connect":
				d := net.Dialer{Timeout: patience}
				x, err := d.Dial(c.Net, addr)
				lg.Add(M{"e": "connect", "c": o.C, "ok": err == nil})
				if err == nil {
					conns[o.C] = x
				}
			case "say":
				x := conns[o.C]
				if x == nil {
					continue
				}
				lg.Add(M{"e": "say", "c": o.C, "k": o.K})
				var b []byte
				for i := 0; i < o.K; i++ {
					said[o.C]++
					total++
					m, err := simpleMsg(strconv.Itoa(o.C) + "." + strconv.Itoa(said[o.C])).Marshal5424()
					ck(err)
					f := append(append([]byte{}, m...), 0)
					switch c.Tr {
					case "lf":
						f[len(m)] = '\n'
					case "rfc":
						f = append([]byte(strconv.Itoa(len(m))+" "), m...)
					}
					if c.Net == "unixgram" {
						x.Write(f)
					} else {
						b = append(b, f...)
					}
				}
				x.SetWriteDeadline(time.Now().Add(patience))
				x.Write(b)
			case "leave":
				if x := conns[o.C]; x != nil {
					lg.Add(M{"e": "leave", "c": o.C})
					x.Close()
					delete(conns, o.C)
				}
			case "sync":
				if !ended && !c.Late {
					if !awaitFor(wait, func() bool { return atomic.LoadInt64(&got)+atomic.LoadInt64(&fails) >= total }) {
						timedOut()
					}
					lg.Add(M{"e": "sync"})
				}
			case "close":
				within("Close", func() { lis.Close() })
				lg.Add(M{"e": "close"})
			case "end":
				lg.Add(M{"e": "end"})
				within("End", recv.End)
				ended = true
				if c.Late {
					go loop()
				}
			case "sleep":
				time.Sleep(time.Duration(o.Us) * time.Microsecond)
			case "quit": // every client leaves, and Receive must say that it's over
				for k, x := range conns {
					lg.Add(M{"e": "leave", "c": k})
					x.Close()
					delete(conns, k)
				}
				fallthrough
			case "over":
				if !awaitFor(wait, func() bool { return atomic.LoadInt64(&over) == 1 }) {
					if c.WaitMs == 0 {
						timedOut()
					}
					lg.Add(M{"e": "notover"})
				} else {
					lg.Add(M{"e": "settle"})
				}
			default:
				panic("op " + o.O)
			}
		}
	})
	lg.mu.Lock()
	res := M{"ev": append([]M{}, lg.ev...), "net": c.Net}
	lg.cut = true
	lg.mu.Unlock()
	if stuck != nil {
		res["stuck"] = stuck
	}
	return res
}
