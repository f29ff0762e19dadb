package main

import (
	"encoding/json"
	"io"
	"net"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { caseModes["make"] = caseMake }

func isNil(x interface{}) bool {
	if x == nil {
		return true
	}
	v := reflect.ValueOf(x)
	switch v.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.Slice:
		return v.IsNil()
	}
	return false
}

// tree is what's in a directory
func tree(dir string) string {
	var l []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil {
			l = append(l, p+" "+i.Mode().String())
		}
		return nil
	})
	return strings.Join(l, "\n")
}

// caseMake makes something of a network and an address of some class, and uses it
func caseMake(raw json.RawMessage) M {
	var c struct {
		Op, By, Net, A string
	}
	must(raw, &c)
	r := M{"op": c.Op, "by": c.By, "net": c.Net, "a": c.A, "v6": has6()}
	dir, err := os.MkdirTemp("", "mk")
	ck(err)
	defer os.RemoveAll(dir)
	addr := c.A
	path := filepath.Join(dir, "s")
	var peerL net.Listener
	var gram *net.UnixConn
	port := freePort()
	switch c.A {
	case "ip4", "refused":
		addr = "127.0.0.1:" + port
	case "ip6":
		addr = "[::1]:" + port
	case "all":
		addr = ":" + port
	case "local":
		addr = "localhost:" + port
	case "used", "peer4":
		peerL, err = net.Listen("tcp4", "127.0.0.1:0")
		ck(err)
		addr = peerL.Addr().String()
	case "peer6":
		addr = "[::1]:" + port
		if has6() {
			peerL, err = net.Listen("tcp6", "[::1]:0")
			ck(err)
			addr = peerL.Addr().String()
		}
	case "foreign":
		addr = "192.0.2.1:" + port
	case "noport":
		addr = "127.0.0.1"
	case "badport":
		addr = "127.0.0.1:x1"
	case "bigport":
		addr = "127.0.0.1:65536"
	case "negport":
		addr = "127.0.0.1:-1"
	case "junk":
		addr = "a:b:c"
	case "brackets":
		addr = "[::1:" + port
	case "path", "free":
		addr = path
	case "empty":
		addr = ""
	case "file":
		addr = path
		ck(os.WriteFile(path, []byte("kept"), 0o600))
	case "infile":
		addr = filepath.Join(path, "x")
		ck(os.WriteFile(path, []byte("kept"), 0o600))
	case "dir":
		addr = path
		ck(os.Mkdir(path, 0o700))
	case "nodir":
		addr = filepath.Join(path, "no", "s")
	case "longpath":
		addr = filepath.Join(dir, strings.Repeat("n", 150))
	case "peerunix":
		addr = path
		peerL, err = net.Listen("unix", path)
		ck(err)
	case "peergram":
		addr = path
		gram, err = net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
		ck(err)
	case "staleunix":
		addr = path
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: path, Net: "unix"})
		ck(err)
		l.SetUnlinkOnClose(false)
		l.Close()
	case "stalegram":
		addr = path
		l, err := net.ListenUnixgram("unixgram", &net.UnixAddr{Name: path, Net: "unixgram"})
		ck(err)
		f, err := l.File()
		ck(err)
		_ = f
		f.Close()
		// the path of a closed unixgram socket stays when it's renamed
		ck(os.Rename(path, path+"2"))
		l.Close()
		ck(os.Rename(path+"2", path))
	}
	if peerL != nil {
		defer peerL.Close()
	}
	if gram != nil {
		defer gram.Close()
	}
	before := tree(dir)
	// an attempt: something was got, an error, whether what was got works
	other := false
	try := func() (got, failed, works bool) {
		switch c.Op {
		case "listen":
			var l s5.Listener
			var err error
			switch c.By {
			case "guess":
				l, err = s5.GuessListener(c.Net, addr)
			case "tcp":
				l, err = s5.TCPListener(c.Net, addr)
			case "unix":
				l, err = s5.UnixListener(addr)
			default:
				l, err = s5.UnixgramListener(addr)
			}
			if err != nil {
				_ = err.Error()
			}
			got, failed = !isNil(l), err != nil
			if !got {
				return
			}
			defer func() {
				l.Close()
				if strings.HasPrefix(addr, dir) {
					os.Remove(addr)
				}
			}()
			dial := addr
			n := c.Net
			if c.By == "unix" || c.By == "unixgram" {
				n = c.By
			}
			if strings.HasPrefix(dial, ":") {
				h := "127.0.0.1"
				if n == "tcp6" {
					h = "[::1]"
				}
				dial = h + dial
			}
			// nobody of the other family is let in
			if strings.HasPrefix(addr, ":") && (n == "tcp4" || n == "tcp6") && has6() {
				on, oh := "tcp6", "[::1]"
				if n == "tcp6" {
					on, oh = "tcp4", "127.0.0.1"
				}
				if x, err := net.DialTimeout(on, oh+addr, patience); err == nil {
					other = true
					x.Close()
				}
			}
			conn, err := net.DialTimeout(n, dial, patience)
			if err != nil {
				return
			}
			defer conn.Close()
			conn.Write([]byte("x"))
			res := make(chan bool, 1)
			go func() {
				d, err := l.Accept()
				if err != nil || isNil(d) {
					res <- false
					return
				}
				b := make([]byte, 10)
				k, _ := d.Read(b)
				d.RemoteAddr()
				d.Close()
				// unixgram: messages are ended by the transport
				res <- k >= 1 && b[0] == 'x'
			}()
			select {
			case works = <-res:
			case <-time.After(patience):
			}
		case "connect":
			var k s5.Connector
			switch c.By {
			case "tcp":
				k = s5.TCPConnector(c.Net, addr)
			case "local":
				k = s5.LocalConnector(c.Net, addr)
			case "stdio":
				k = s5.StdioConnector(addr)
			case "invalid":
				k = s5.InvalidConnector{}
			}
			w, err := k.Connect()
			if err != nil {
				_ = err.Error()
			}
			got, failed = !isNil(w), err != nil
			if !got {
				return
			}
			if c.By == "stdio" {
				// the streams of this program, that it still needs
				f, ok := w.(*os.File)
				works = ok && (c.A == "stdout:") == (f == os.Stdout) && (c.A == "stderr:") == (f == os.Stderr)
				return
			}
			defer w.Close()
			n, err := w.Write([]byte("x"))
			if n != 1 || err != nil {
				return
			}
			b := make([]byte, 10)
			k2 := 0
			switch {
			case gram != nil:
				gram.SetReadDeadline(time.Now().Add(patience))
				k2, _ = gram.Read(b)
			case peerL != nil:
				p, err := peerL.Accept()
				if err == nil {
					p.SetReadDeadline(time.Now().Add(patience))
					k2, _ = io.ReadAtLeast(p, b, 1)
					p.Close()
				}
			}
			works = k2 == 1 && b[0] == 'x'
		case "dial":
			s, errc, err := s5.Dialer{}.Dial(c.Net, addr, nil)
			got, failed = s != nil && errc != nil, err != nil
			if (s != nil) != (errc != nil) {
				return got, failed, false
			}
			if got {
				works = true
				if c.Net != "stdio" {
					s.End()
				}
			}
		case "receiver":
			l := &idleListener{closed: make(chan struct{})}
			var t s5.Transport
			if c.A != "nil" {
				t = transportOf(c.A)
			}
			q := map[string]int{"-1": -1, "0": 0, "5": 5}[c.Net]
			rc, errc := s5.NewReceiver(l, q, t)
			got, failed = rc != nil, rc == nil && errc == nil
			if got {
				done := make(chan bool)
				go func() {
					_, _, ok := rc.Receive()
					done <- ok
				}()
				rc.End()
				select {
				case ok := <-done:
					works = errc != nil && !ok
				case <-time.After(patience):
				}
			}
		case "syslog":
			snd, _ := s5.NewSender(s5.InvalidConnector{}, s5.TransportLFEnded, make(chan time.Time))
			x, err := s5.New(snd, s5.LogDAEMON|s5.LogINFO, c.A)
			got, failed = x != nil, err != nil
			works = got && !x.Channel(s5.LogERR).IsDevNull()
			snd.End()
		}
		return
	}
	got, failed, works := try()
	clean := tree(dir) == before
	got2, failed2, works2 := try()
	r["got"], r["err"], r["works"], r["clean"] = got, failed, works, clean
	r["other"] = other
	r["again"] = got == got2 && failed == failed2 && works == works2
	return r
}

// idleListener has no connections
type idleListener struct{ closed chan struct{} }

func (l *idleListener) Accept() (s5.DataReader, error) {
	<-l.closed
	return nil, io.ErrClosedPipe
}
func (l *idleListener) Close() error { close(l.closed); return nil }
