package main

import (
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"syscall"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

func init() { runners["receiver"] = runReceiver }

type recvOp struct {
	Op    string // accept, feed, eof, afail, rend, quiet, par, sleep, readerr
	C     int
	N     int
	How   string // eof: eof, err, op, closed ; with the last N bytes in the same read
	Async bool
	Text  string // until: the message after which to go on
	Par   [][]recvOp
}

type recvScn struct {
	ID        string
	Mode      string
	Queue     int
	Receivers int
	Slow      int    // microseconds between two calls of Receive
	Late      bool   // Receive is only called from the operation "go" on
	ErrReader string // drain, none
	Conns     []string
	Net       string // "": connections that are directed here; else real ones
	Hash      bool
	Ops       []recvOp
}

type chunk struct {
	n   int
	how string // "" or how the connection ends after these bytes
}

type recvConn struct {
	r       *recvRun
	id      int
	stream  []byte
	fed     int
	todo    []chunk
	cond    *sync.Cond
	waiting bool
	ended   bool
	closed  bool
	taken   bool
	client  net.Conn // the other end of a real connection
}

type recvRun struct {
	Log
	scn      recvScn
	recv     *s5.Receiver
	conns    []*recvConn
	errc     <-chan error
	offers   chan interface{}
	lclosed  bool
	lclose   chan struct{}
	waiting  bool // in Accept
	acalls   int
	faults   int
	got      []s5.MessageImmutable
	recvs    sync.WaitGroup
	recvSeen int
	endSeen  int
	rended   bool
	fails    int // offered failures that Accept returned
	sentinel int
	start    chan struct{}
	started  bool
	stopErr  chan struct{}
	errDone  chan struct{}
	real     *realSide
}

func (r *recvRun) Accept() (s5.DataReader, error) {
	r.mu.Lock()
	r.acalls++
	if r.acalls > 5000 {
		r.cut = true
	}
	r.add(M{"e": "acall"})
	if r.lclosed {
		r.mu.Unlock()
		return nil, errors.New("listener closed")
	}
	r.waiting = true
	r.mu.Unlock()
	for {
		var x interface{}
		select {
		case x = <-r.offers:
		case <-r.lclose:
		}
		r.mu.Lock()
		if r.lclosed {
			r.waiting = false
			r.mu.Unlock()
			return nil, errors.New("listener closed")
		}
		if c, ok := x.(*recvConn); ok {
			c.taken = true
			r.waiting = false
			r.add(M{"e": "accept", "c": c.id})
			r.mu.Unlock()
			return c, nil
		}
		if x != nil {
			r.faults++
			r.fails++
			err := fmt.Errorf("fault#%d#", r.faults)
			r.waiting = false
			r.add(M{"e": "afail", "k": r.faults})
			r.mu.Unlock()
			return nil, err
		}
		r.mu.Unlock()
	}
}

func (r *recvRun) Close() error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if !r.lclosed {
		r.lclosed = true
		r.add(M{"e": "lclose"})
		close(r.lclose)
	}
	return nil
}

func (c *recvConn) RemoteAddr() net.Addr { return &s5.Addr{} }

func (c *recvConn) Close() error {
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if !c.closed {
		c.closed = true
		r.add(M{"e": "close", "c": c.id})
		c.cond.Broadcast()
	}
	return nil
}

func (c *recvConn) Read(p []byte) (int, error) {
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(p) == 0 && !c.ended {
		// nothing can ever be read this way
		r.add(M{"e": "zeroread", "c": c.id})
		c.ended = true
		return 0, io.EOF
	}
	if c.ended || c.closed {
		r.add(M{"e": "badread", "c": c.id})
		return 0, io.ErrClosedPipe
	}
	for len(c.todo) == 0 {
		c.waiting = true
		c.cond.Wait()
		if c.closed {
			c.waiting = false
			return 0, net.ErrClosed
		}
	}
	c.waiting = false
	ch := &c.todo[0]
	n := ch.n
	if n > len(p) {
		n = len(p)
	}
	if n > 0 {
		copy(p, c.stream[c.fed:c.fed+n])
		c.fed += n
		ch.n -= n
		r.add(M{"e": "feed", "c": c.id, "n": n})
	}
	if ch.n > 0 {
		return n, nil
	}
	how := ch.how
	c.todo = c.todo[1:]
	switch how {
	case "":
		return n, nil
	case "none":
		r.add(M{"e": "none", "c": c.id})
		return 0, nil
	case "eof":
		c.ended = true
		r.add(M{"e": "eof", "c": c.id})
		return n, io.EOF
	}
	c.ended = true
	r.faults++
	txt := fmt.Sprintf("fault#%d#", r.faults)
	r.add(M{"e": "rfail", "c": c.id, "k": r.faults})
	switch how {
	case "op":
		return n, &net.OpError{Op: "read", Net: txt, Err: syscall.ECONNRESET}
	case "timeout":
		return n, &net.OpError{Op: "read", Net: txt, Err: timeoutErr{}}
	case "temp":
		return n, &net.OpError{Op: "read", Net: txt, Err: syscall.EINTR}
	case "closed":
		return n, fmt.Errorf("%s %w", txt, net.ErrClosed)
	case "uneof":
		return n, fmt.Errorf("%s %w", txt, io.ErrUnexpectedEOF)
	}
	return n, errors.New(txt)
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (r *recvRun) content(m s5.MessageImmutable) interface{} {
	s := m.String()
	if r.scn.Hash {
		h := sha1.Sum([]byte(s))
		return hex.EncodeToString(h[:])
	}
	return ints([]byte(s))
}

func (r *recvRun) receiver() {
	defer r.recvs.Done()
	<-r.start
	for {
		if r.scn.Slow > 0 {
			time.Sleep(time.Duration(r.scn.Slow) * time.Microsecond)
		}
		m, err, ok := r.recv.Receive()
		if !ok {
			r.mu.Lock()
			r.endSeen++
			r.add(M{"e": "recvend"})
			r.mu.Unlock()
			return
		}
		d := r.content(m)
		r.mu.Lock()
		r.recvSeen++
		if r.recvSeen > 200000 {
			r.cut = true
		}
		r.add(M{"e": "recv", "d": d, "err": err != nil, "inc": errors.Is(err, s5.ErrTransportIncomplete)})
		r.got = append(r.got, m)
		r.mu.Unlock()
	}
}

func (r *recvRun) readErr(err error) {
	var k int
	s := err.Error()
	for i := range s {
		if n, _ := fmt.Sscanf(s[i:], "fault#%d#", &k); n == 1 {
			r.Add(M{"e": "rerr", "k": k})
			return
		}
	}
	r.Add(M{"e": "strangeerr", "what": s})
}

func (r *recvRun) locked(f func() bool) func() bool {
	return func() bool {
		r.mu.Lock()
		defer r.mu.Unlock()
		return f()
	}
}

func (r *recvRun) idle(c *recvConn) func() bool {
	return r.locked(func() bool { return c.closed || !c.taken || (c.waiting && len(c.todo) == 0) })
}

func (r *recvRun) give(c *recvConn, ch chunk, async bool) {
	r.mu.Lock()
	if c.closed || c.ended {
		r.mu.Unlock()
		return
	}
	c.todo = append(c.todo, ch)
	c.cond.Broadcast()
	r.mu.Unlock()
	if async {
		return
	}
	await(fmt.Sprintf("reading connection %d", c.id), r.idle(c))
}

func (r *recvRun) apply(o recvOp) {
	if r.real != nil && r.real.apply(r, o) {
		return
	}
	switch o.Op {
	case "accept":
		c := r.conns[o.C-1]
		select {
		case r.offers <- c:
			if !o.Async {
				await("accept", r.locked(func() bool { return c.taken || r.lclosed }))
			}
		case <-r.lclose:
		case <-time.After(patience):
			panic(errStuck{"accept"})
		}
	case "afail":
		n := r.fails
		select {
		case r.offers <- "fail":
			await("accept after a failure", r.locked(func() bool { return r.lclosed || (r.fails > n && r.waiting) }))
		case <-r.lclose:
		case <-time.After(patience):
			panic(errStuck{"accept"})
		}
	case "feed":
		c := r.conns[o.C-1]
		n := o.N
		if left := len(c.stream) - r.planned(c); n < 0 || n > left {
			n = left
		}
		if n > 0 {
			r.give(c, chunk{n: n}, o.Async)
		}
	case "none":
		r.give(r.conns[o.C-1], chunk{how: "none"}, o.Async)
	case "eof":
		c := r.conns[o.C-1]
		n := o.N
		if left := len(c.stream) - r.planned(c); n < 0 || n > left {
			n = left
		}
		r.give(c, chunk{n: n, how: o.How}, o.Async)
	case "rend":
		if r.rended {
			return
		}
		r.rended = true
		done := make(chan struct{})
		go func() {
			r.Add(M{"e": "rendcall"})
			r.recv.End()
			r.Add(M{"e": "rendret"})
			close(done)
		}()
		awaitChan("End", done)
	case "go":
		r.begin()
	case "sleep":
		time.Sleep(time.Duration(o.N) * time.Microsecond)
	case "readerr":
		select {
		case err := <-r.errc:
			r.readErr(err)
		case <-time.After(patience):
			panic(errStuck{"an error"})
		}
	case "noerr":
		select {
		case err := <-r.errc:
			r.readErr(err)
		default:
			r.Add(M{"e": "noerr"})
		}
	case "par":
		var wg sync.WaitGroup
		stuck := make(chan errStuck, len(o.Par))
		for _, ops := range o.Par {
			wg.Add(1)
			go func(ops []recvOp) {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						s, ok := x.(errStuck)
						if !ok {
							panic(x)
						}
						stuck <- s
					}
				}()
				for _, o := range ops {
					r.apply(o)
				}
			}(ops)
		}
		wg.Wait()
		select {
		case s := <-stuck:
			panic(s)
		default:
		}
	case "quiet":
		r.quiet()
	}
}

func (r *recvRun) begin() {
	if !r.started {
		r.started = true
		close(r.start)
	}
}

// planned is how much of the stream was given
func (r *recvRun) planned(c *recvConn) int {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := c.fed
	for _, ch := range c.todo {
		n += ch.n
	}
	return n
}

// quiet waits until every connection waits for bytes and everything received was logged:
// the message sent on the first connection, of N bytes, comes last
func (r *recvRun) quiet() {
	if r.real != nil {
		return
	}
	for _, c := range r.conns {
		await(fmt.Sprintf("connection %d idle", c.id), r.idle(c))
		await("close", r.locked(func() bool { return !c.ended || c.closed }))
	}
	if len(r.conns) == 0 {
		return
	}
	c := r.conns[0]
	r.mu.Lock()
	usable := c.taken && !c.closed && !c.ended && r.scn.Receivers == 1 && r.started
	r.mu.Unlock()
	if !usable {
		return
	}
	frame := sentinelFrame(r.scn.Mode, r.sentinel)
	want := string(sentinelMsg(r.sentinel))
	r.sentinel++
	r.mu.Lock()
	c.stream = append(c.stream, frame...)
	r.mu.Unlock()
	r.give(c, chunk{n: len(frame)}, false)
	await("the sentinel", r.locked(func() bool {
		return len(r.got) > 0 && r.got[len(r.got)-1].String() == want || c.closed
	}))
	if r.rended && !awaitFor(dialPatience, r.locked(func() bool { return r.lclosed })) {
		timedOut()
	}
	r.Add(M{"e": "quiet"})
}

func sentinelMsg(k int) []byte {
	return []byte(fmt.Sprintf("<13>1 - s s s %d -", k+1))
}

func sentinelFrame(mode string, k int) []byte {
	return transports[mode].Encode(sentinelMsg(k))
}

var transports = map[string]s5.Transport{
	"nul": s5.TransportZeroEnded,
	"lf":  s5.TransportLFEnded,
	"rfc": s5.TransportRFC5425,
}

func runReceiver(raw json.RawMessage) M {
	r := &recvRun{
		offers:  make(chan interface{}),
		lclose:  make(chan struct{}),
		start:   make(chan struct{}),
		stopErr: make(chan struct{}),
		errDone: make(chan struct{}),
	}
	if err := json.Unmarshal(raw, &r.scn); err != nil {
		panic(err)
	}
	if r.scn.Receivers == 0 {
		r.scn.Receivers = 1
	}
	for i, s := range r.scn.Conns {
		b, err := base64.StdEncoding.DecodeString(s)
		if err != nil {
			panic(err)
		}
		c := &recvConn{r: r, id: i + 1, stream: b}
		c.cond = sync.NewCond(&r.mu)
		r.conns = append(r.conns, c)
	}
	var lis s5.Listener = r
	if r.scn.Net != "" {
		r.real = newRealSide(r.scn.Net)
		if r.real == nil {
			return M{"unavailable": true, "ev": []M{}}
		}
		lis = r.real.listener
		defer r.real.done(r)
	}
	r.recv, r.errc = s5.NewReceiver(lis, r.scn.Queue, transports[r.scn.Mode])
	for i := 0; i < r.scn.Receivers; i++ {
		r.recvs.Add(1)
		go r.receiver()
	}
	if !r.scn.Late {
		r.begin()
	}
	if r.scn.ErrReader == "drain" {
		go func() {
			defer close(r.errDone)
			for {
				select {
				case err := <-r.errc:
					r.readErr(err)
				case <-r.stopErr:
					return
				}
			}
		}()
	} else {
		close(r.errDone)
	}

	var once sync.Once
	halt := func() { once.Do(func() { close(r.stopErr) }) }
	defer halt()
	stuck := guarded(&r.Log, func() {
		for _, o := range r.scn.Ops {
			r.apply(o)
		}
		r.begin()
		if r.real != nil && !r.real.finish(r) {
			return
		}
		r.quiet()
		// everything ends
		for _, c := range r.conns {
			r.mu.Lock()
			open := c.taken && !c.ended && !c.closed
			for _, ch := range c.todo {
				open = open && ch.how == ""
			}
			r.mu.Unlock()
			if open {
				r.give(c, chunk{how: "eof"}, true)
			}
		}
		r.apply(recvOp{Op: "rend"})
		await("the end", r.locked(func() bool { return r.endSeen == r.scn.Receivers }))
		await("close of the listener", r.locked(func() bool { return r.lclosed || r.real != nil }))
		r.Add(M{"e": "quiet"})
		halt()
		<-r.errDone
		for more := true; more; {
			select {
			case err, ok := <-r.errc:
				if !ok {
					more = false
					break
				}
				r.readErr(err)
			default:
				more = false
			}
		}
		r.Add(M{"e": "noerr"})
		r.mu.Lock()
		for i, m := range r.got {
			r.add(M{"e": "recheck", "k": i + 1, "d": r.content(m)})
		}
		r.mu.Unlock()
	})
	r.mu.Lock()
	defer r.mu.Unlock()
	res := M{"t": r.scn.Mode, "r": r.scn.Receivers, "large": r.scn.Hash, "cut": r.cut}
	fed := make([]int, len(r.conns))
	streams := make([]interface{}, len(r.conns))
	for i, c := range r.conns {
		fed[i] = c.fed
		streams[i] = []int{}
		if !r.scn.Hash {
			streams[i] = ints(c.stream[:c.fed])
		}
	}
	res["fed"] = fed
	res["sentinels"] = r.sentinel
	if !r.scn.Hash {
		res["streams"] = streams
	}
	res["ev"] = r.ev
	if stuck != nil {
		res["stuck"] = stuck
	}
	return res
}
