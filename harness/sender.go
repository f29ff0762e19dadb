package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"strings"
	"sync"
	"syscall"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

func init() { runners["sender"] = runSender }

type senderMsg struct {
	Len int    // bytes of the frame with the unit transport, of the text otherwise
	Bad bool   // can't be encoded
	SD  string // value of a structured data parameter
	As  int    // the same content as this message
	N   int    // sent that many times: the frames together are one for the specification
}

type op struct {
	Op string
	M  int
	Ms []int
	N  int
	Us int
}

type step struct {
	R      string // ok, fail, failconn / ok, nobuf, op, plain, ...
	Budget int
	During []op
}

type senderScn struct {
	ID        string
	Mode      string
	Msgs      []senderMsg
	Ops       []op
	Connect   []step
	Write     []step
	Reader    string
	CloseErr  bool
	SlowClose int // microseconds
}

// unit transport: the frame of message i is k bytes made of i and the position
type unitTransport struct{ lens map[int]int }

func (u *unitTransport) Encode(d []byte) []byte {
	f := strings.Fields(string(d))
	id := 0
	if len(f) > 2 {
		fmt.Sscanf(f[2], "host%d", &id)
	}
	r := make([]byte, u.lens[id])
	for i := range r {
		r[i] = byte(id*8 + i)
	}
	return r
}
func (u *unitTransport) PrefixStrip(b []byte, _ bool) (d, r []byte, e error) { return b, nil, nil }
func (u *unitTransport) SuffixStrip(b []byte, _ bool) (d, r []byte, e error) { return b, nil, nil }
func (u *unitTransport) String() string                                      { return "unit" }

type badSD struct{}

func (badSD) SDID() sdata.SDID             { return nil }
func (badSD) Marshal5424() ([]byte, error) { return nil, errors.New("can't be encoded") }

type goodSD map[string]string

func (goodSD) GetPEN() uint64 { return 32473 }
func (goodSD) IsIANA() bool   { return false }
func (goodSD) String() string { return "x@32473" }

const letters = "abcdefghijklmnopqrstuvwxyz0123456789[]\"\\ ABCDEF=%"

// textOf is n bytes: plain ASCII, UTF-8 or anything but what delimits frames, depending on id
func textOf(id, n int, mode string) string {
	b := make([]byte, 0, n+8)
	for i := 0; len(b) < n; i++ {
		x := i*7 + id*13 + i/11
		switch id % 3 {
		case 0:
			b = append(b, letters[x%len(letters)])
		case 1:
			b = append(b, string([]rune("a\u00e9z\u20ac\U0001d11e\t-\ufeff")[x%8])...)
		default:
			c := byte(x * 5)
			if mode == "nul" && c == 0 || mode == "lf" && c == '\n' {
				c = '0'
			}
			b = append(b, c)
		}
	}
	b = b[:n]
	// trailing white space isn't a part of the text
	for i := n - 1; i >= 0 && i >= n-4; i-- {
		if b[i] <= ' ' || b[i] >= 127 {
			b[i] = '.'
		}
	}
	return string(b)
}

var fixedTime = time.Date(2024, 2, 29, 13, 14, 15, 123456000, time.UTC)

type senderRun struct {
	Log
	scn            senderScn
	frames         [][]byte // expected frame of message i+1
	msgs           []s5.Message
	sender         *s5.Sender
	conns          []*scriptConn
	nconn          int
	nwrite         int
	used           int // bytes of the budget of the current write step
	faults         int
	lastTickFaults int
	tickRet        map[int]bool // messages returned before the last tick
	returned       map[int]bool
	written        int // bytes accepted
	failedOpen     int // failed connections not closed
	spawned        sync.WaitGroup
	endDone        chan struct{}
	made           chan struct{}
	ended          bool
	errc           <-chan error
	jitter         int
}

type accepted struct {
	off, n int
}

type scriptConn struct {
	r      *senderRun
	id     int
	data   []byte
	failed bool
	closed bool
}

// during runs operations while the flushing goroutine is in a callback. the lock isn't held
func (r *senderRun) during(ops []op) {
	select { // the Sender is known
	case <-r.made:
	case <-time.After(patience / 8):
		return
	}
	for _, o := range ops {
		r.apply(o, true)
	}
}

func (r *senderRun) Connect() (s5.WriteCloser, error) {
	st := step{R: "ok"}
	r.mu.Lock()
	if r.nconn < len(r.scn.Connect) {
		st = r.scn.Connect[r.nconn]
	}
	r.nconn++
	r.mu.Unlock()
	r.during(st.During)
	r.mu.Lock()
	defer r.mu.Unlock()
	switch st.R {
	case "fail", "failconn":
		r.faults++
		r.add(M{"e": "cfail", "k": r.faults})
		err := connectErr(r.faults)
		if st.R == "failconn" {
			return &scriptConn{r: r, id: 0}, err
		}
		return nil, err
	}
	c := &scriptConn{r: r, id: len(r.conns) + 1}
	r.conns = append(r.conns, c)
	r.add(M{"e": "conn", "c": c.id})
	return c, nil
}

func faultErr(kind string, k int) error {
	txt := fmt.Sprintf("fault#%d#", k)
	switch kind {
	case "nobuf":
		return &net.OpError{Op: "write", Net: txt, Err: &os.SyscallError{Syscall: "write", Err: syscall.ENOBUFS}}
	case "op":
		return &net.OpError{Op: "write", Net: txt, Err: &os.SyscallError{Syscall: "write", Err: syscall.EPIPE}}
	case "opbare":
		return &net.OpError{Op: "write", Net: txt, Err: syscall.ECONNRESET}
	case "timeout":
		return &net.OpError{Op: "write", Net: txt, Err: os.ErrDeadlineExceeded}
	case "eof":
		return fmt.Errorf("%s %w", txt, io.EOF)
	case "short":
		return fmt.Errorf("%s %w", txt, io.ErrShortWrite)
	}
	if e, ok := errnos[kind]; ok {
		return &net.OpError{Op: "write", Net: txt, Err: &os.SyscallError{Syscall: "write", Err: e}}
	}
	return errors.New(txt)
}

// what a failing system call may say
var errnos = map[string]syscall.Errno{
	"EAGAIN": syscall.EAGAIN, "EMSGSIZE": syscall.EMSGSIZE, "ECONNREFUSED": syscall.ECONNREFUSED, "ECONNRESET": syscall.ECONNRESET,
	"EINTR": syscall.EINTR, "ENOMEM": syscall.ENOMEM, "ENOSPC": syscall.ENOSPC, "ENOTCONN": syscall.ENOTCONN,
	"ETIMEDOUT": syscall.ETIMEDOUT, "EDESTADDRREQ": syscall.EDESTADDRREQ, "EPIPE": syscall.EPIPE, "EIO": syscall.EIO,
	"EHOSTUNREACH": syscall.EHOSTUNREACH, "ENETUNREACH": syscall.ENETUNREACH, "EBADF": syscall.EBADF, "EINVAL": syscall.EINVAL,
	"ENOENT": syscall.ENOENT, "EACCES": syscall.EACCES, "EPROTOTYPE": syscall.EPROTOTYPE, "EMFILE": syscall.EMFILE,
}

// connectErr is an error of any kind, even one that says it is temporary
func connectErr(k int) error {
	txt := fmt.Sprintf("fault#%d#", k)
	kinds := []string{"ECONNREFUSED", "", "ENOENT", "EAGAIN", "timeout", "EACCES", "ETIMEDOUT", "eof", "ENOBUFS", "EMFILE", "EINTR", "EPROTOTYPE"}
	switch kind := kinds[k%len(kinds)]; kind {
	case "":
		return errors.New(txt)
	case "ENOBUFS":
		return &net.OpError{Op: "dial", Net: txt, Err: os.NewSyscallError("connect", syscall.ENOBUFS)}
	default:
		return faultErr(kind, k)
	}
}

func (c *scriptConn) Write(b []byte) (n int, err error) {
	r := c.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.closed || c.failed || c.id == 0 {
		r.add(M{"e": "badwrite", "c": c.id})
		return 0, errors.New("closed")
	}
	for {
		if r.nwrite >= len(r.scn.Write) {
			c.accept(b[n:])
			return len(b), nil
		}
		st := r.scn.Write[r.nwrite]
		left := st.Budget - r.used
		if left > len(b)-n {
			r.used += len(b) - n
			c.accept(b[n:])
			return len(b), nil
		}
		if st.R == "ok" && left == len(b)-n && left > 0 && len(st.During) == 0 {
			r.nwrite++
			r.used = 0
			c.accept(b[n:])
			return len(b), nil
		}
		// the budget is used up within this write
		c.accept(b[n : n+left])
		n += left
		r.nwrite++
		r.used = 0
		if len(st.During) > 0 {
			r.mu.Unlock()
			r.during(st.During)
			r.mu.Lock()
		}
		switch st.R {
		case "ok":
			if n == len(b) {
				return n, nil
			}
			continue
		case "nobuf":
			r.faults++
			r.add(M{"e": "nobuf", "c": c.id, "k": r.faults})
		default:
			r.faults++
			c.failed = true
			r.failedOpen++
			r.add(M{"e": "wfail", "c": c.id, "k": r.faults})
		}
		return n, faultErr(st.R, r.faults)
	}
}

func (c *scriptConn) accept(b []byte) {
	if len(b) == 0 {
		return
	}
	off := len(c.data)
	c.data = append(c.data, b...)
	c.r.written += len(b)
	if k := len(c.r.ev) - 1; k >= 0 && c.r.ev[k]["e"] == "w" && c.r.ev[k]["c"] == c.id {
		c.r.ev[k]["n"] = c.r.ev[k]["n"].(int) + len(b)
		return
	}
	c.r.add(M{"e": "w", "c": c.id, "off": off, "n": len(b)})
}

func (c *scriptConn) Close() error {
	r := c.r
	time.Sleep(time.Duration(r.scn.SlowClose) * time.Microsecond)
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.failed && !c.closed {
		r.failedOpen--
	}
	c.closed = true
	r.add(M{"e": "close", "c": c.id})
	if r.scn.CloseErr {
		return errors.New("close failed")
	}
	return nil
}

func (r *senderRun) send(m int) {
	r.Add(M{"e": "call", "m": m})
	err := r.sender.Send(r.msgs[m-1])
	for i := 1; i < r.scn.Msgs[m-1].N && err == nil; i++ {
		err = r.sender.Send(r.msgs[m-1])
	}
	r.mu.Lock()
	if err == nil {
		r.returned[m] = true
		r.add(M{"e": "ret", "m": m})
	} else {
		r.add(M{"e": "refuse", "m": m})
	}
	r.mu.Unlock()
}

func (r *senderRun) apply(o op, callback bool) {
	switch o.Op {
	case "send":
		if callback {
			r.apply(op{Op: "spawn", Ms: []int{o.M}}, true)
			return
		}
		done := make(chan struct{})
		go func() { r.send(o.M); close(done) }()
		awaitChan("send", done)
	case "spawn":
		r.spawned.Add(1)
		started := make(chan struct{})
		go func() {
			defer r.spawned.Done()
			for i, m := range o.Ms {
				if i == 0 {
					close(started)
				} else if o.Us > 0 {
					time.Sleep(time.Duration(o.Us) * time.Microsecond)
				}
				r.send(m)
			}
		}()
		<-started
		if callback {
			time.Sleep(200 * time.Microsecond)
		}
	case "join":
		done := make(chan struct{})
		go func() { r.spawned.Wait(); close(done) }()
		awaitChan("join", done)
	case "tick":
		r.mu.Lock()
		if r.ended {
			r.mu.Unlock()
			return
		}
		r.add(M{"e": "tick"})
		r.lastTickFaults = r.faults
		r.tickRet = map[int]bool{}
		for m := range r.returned {
			r.tickRet[m] = true
		}
		r.mu.Unlock()
		select {
		case ticker <- time.Now():
		case <-r.endDone:
		case <-time.After(patience):
			panic(errStuck{"tick"})
		}
	case "ticks":
		for i := 0; i < o.N; i++ {
			r.Add(M{"e": "tick"})
			select {
			case ticker <- time.Now():
			case <-time.After(patience):
				panic(errStuck{"tick"})
			}
			if o.Us > 0 {
				time.Sleep(time.Duration(o.Us) * time.Microsecond)
			}
		}
	case "settle":
		if r.tickRet == nil {
			return
		}
		// a violation is decided by the specification, here we only give time enough
		said := false
		awaitFor(patience/3, func() bool {
			r.mu.Lock()
			defer r.mu.Unlock()
			if r.failedOpen > 0 {
				return false
			}
			if r.faults <= r.lastTickFaults {
				done := r.completed()
				for m := range r.tickRet {
					if !done[m] {
						return false
					}
				}
			}
			// at once: End may be going on
			r.add(M{"e": "quiet"})
			said = true
			return true
		})
		if !said {
			r.Add(M{"e": "quiet"})
		}
	case "readerr":
		select {
		case err, ok := <-r.errc:
			r.logErr(err, ok)
		case <-time.After(300 * time.Millisecond):
			r.Add(M{"e": "noerr"})
		}
	case "end", "endbg":
		r.mu.Lock()
		if r.ended {
			r.mu.Unlock()
			return
		}
		r.ended = true
		r.add(M{"e": "endcall"})
		r.mu.Unlock()
		go func() {
			r.sender.End()
			r.Add(M{"e": "endret"})
			close(r.endDone)
		}()
		if o.Op == "end" {
			awaitChan("end", r.endDone)
		} else if callback {
			time.Sleep(200 * time.Microsecond)
		}
	case "sleep":
		time.Sleep(time.Duration(o.Us) * time.Microsecond)
	}
}

func (r *senderRun) logErr(err error, ok bool) {
	if !ok {
		r.Add(M{"e": "errclosed"})
		return
	}
	k := 0
	if err != nil {
		if i := strings.Index(err.Error(), "fault#"); i >= 0 {
			fmt.Sscanf(err.Error()[i:], "fault#%d#", &k)
		}
	}
	r.Add(M{"e": "err", "k": k})
}

// completed returns the messages whose frames were completely accepted. the lock is held
func (r *senderRun) completed() map[int]bool {
	done := map[int]bool{}
	segs := make([][]segment, len(r.conns))
	for i, c := range r.conns {
		segs[i] = r.segments(c, 0)
	}
	r.assign(segs)
	for _, l := range segs {
		for _, s := range l {
			if s.m > 0 && s.to == len(r.frames[s.m-1]) {
				done[s.m] = true
			}
		}
	}
	return done
}

// assign gives the frames of messages of one content to these messages, in order
func (r *senderRun) assign(segs [][]segment) {
	class := map[int][]int{}
	for i, m := range r.scn.Msgs {
		if m.As > 0 {
			class[m.As] = append(class[m.As], i+1)
		}
	}
	if len(class) == 0 {
		return
	}
	for rep := range class {
		class[rep] = append([]int{rep}, class[rep]...)
	}
	for _, l := range segs {
		for i, s := range l {
			ids := class[s.m]
			if len(ids) == 0 {
				continue
			}
			l[i].m = ids[0]
			if s.to == len(r.frames[s.m-1]) && len(ids) > 1 {
				class[s.m] = ids[1:]
			}
		}
	}
}

type segment struct{ m, from, to, off int }

// segments cuts what a connection accepted into frames. when its end is too short to tell which frame it
// belongs to, pref is preferred
func (r *senderRun) segments(c *scriptConn, pref int) (segs []segment) {
	data := c.data
	off := 0
	for off < len(data) {
		best := 0
		for i, f := range r.frames {
			if len(f) > 0 && len(f) <= len(data)-off && string(data[off:off+len(f)]) == string(f) {
				best = i + 1
				break
			}
		}
		if best > 0 {
			l := len(r.frames[best-1])
			segs = append(segs, segment{best, 0, l, off})
			off += l
			continue
		}
		rest := data[off:]
		var cand []int
		for i, f := range r.frames {
			if len(f) > len(rest) && string(f[:len(rest)]) == string(rest) {
				cand = append(cand, i+1)
			}
		}
		if len(cand) == 0 {
			return append(segs, segment{0, 0, len(rest), off})
		}
		best = cand[0]
		for _, m := range cand {
			if m == pref {
				best = m
			}
		}
		return append(segs, segment{best, 0, len(rest), off})
	}
	return
}

var ticker chan time.Time

func runSender(raw json.RawMessage) M {
	r := &senderRun{returned: map[int]bool{}, endDone: make(chan struct{}), made: make(chan struct{})}
	if err := json.Unmarshal(raw, &r.scn); err != nil {
		panic(err)
	}
	var tr s5.Transport
	unit := &unitTransport{lens: map[int]int{}}
	switch r.scn.Mode {
	case "unit":
		tr = unit
	case "nul":
		tr = s5.TransportZeroEnded
	case "lf":
		tr = s5.TransportLFEnded
	case "rfc":
		tr = s5.TransportRFC5425
	}
	for i, m := range r.scn.Msgs {
		id := i + 1
		if m.As > 0 {
			r.msgs = append(r.msgs, r.msgs[m.As-1])
			r.frames = append(r.frames, r.frames[m.As-1])
			continue
		}
		var text string
		var frame []byte
		host := fmt.Sprintf("host%d", id)
		if r.scn.Mode == "unit" {
			unit.lens[id] = m.Len
		} else {
			text = textOf(id, m.Len, r.scn.Mode)
		}
		msg := s5.CreateWholeMessage(s5.Priority(id%192), fixedTime, host, "app", "42", "id", text)
		sd := "-"
		if m.SD != "" {
			msg = msg.StructuredData(s5.GenericSD(goodSD{"k": m.SD}))
			sd = `[x@32473 k="` + m.SD + `"]`
		}
		if m.Bad {
			msg = msg.StructuredData(badSD{})
		}
		r.msgs = append(r.msgs, msg)
		enc := fmt.Sprintf("<%d>1 2024-02-29T13:14:15.123456Z %s app 42 id %s", id%192, host, sd)
		if text != "" {
			enc += " " + text
		}
		switch {
		case m.Bad:
		case r.scn.Mode == "unit":
			for p := 0; p < m.Len; p++ {
				frame = append(frame, byte(id*8+p))
			}
		case r.scn.Mode == "nul":
			frame = append([]byte(enc), 0)
		case r.scn.Mode == "lf":
			frame = append([]byte(enc), '\n')
		case r.scn.Mode == "rfc":
			frame = []byte(fmt.Sprintf("%d %s", len(enc), enc))
		}
		if m.N > 1 {
			frame = bytes.Repeat(frame, m.N)
		}
		r.frames = append(r.frames, frame)
	}
	ticker = make(chan time.Time)
	r.sender, r.errc = s5.NewSender(s5.ConnectorFunc(r.Connect), tr, ticker)
	close(r.made)

	readDone := make(chan struct{})
	reader := func() {
		for {
			err, ok := <-r.errc
			r.logErr(err, ok)
			if !ok {
				close(readDone)
				return
			}
		}
	}
	if r.scn.Reader == "drain" {
		go reader()
	}
	stuck := guarded(&r.Log, func() {
		for _, o := range r.scn.Ops {
			r.apply(o, false)
		}
		r.apply(op{Op: "endbg"}, false)
		awaitChan("end", r.endDone)
		if r.scn.Reader != "drain" {
			go reader()
		}
		r.apply(op{Op: "join"}, false)
		awaitChan("errclosed", readDone)
	})
	r.mu.Lock()
	defer r.mu.Unlock()
	r.cut = true

	// what was accepted, as parts of frames
	segs := make([][]segment, len(r.conns))
	var ord []int
	rank := make([]int, len(r.frames))
	pref := 0
	for i := len(r.conns) - 1; i >= 0; i-- {
		segs[i] = r.segments(r.conns[i], pref)
		if len(segs[i]) > 0 {
			pref = segs[i][0].m
		}
	}
	r.assign(segs)
	ev := []M{}
	published := map[int]bool{}
	for _, e := range r.ev {
		if e["e"] == "err" {
			published[e["k"].(int)] = true
		}
	}
	for _, e := range r.ev {
		switch e["e"] {
		case "w":
			c := e["c"].(int)
			off, n := e["off"].(int), e["n"].(int)
			for _, s := range segs[c-1] {
				a, b := s.off, s.off+s.to-s.from
				if a < off {
					a = off
				}
				if b > off+n {
					b = off + n
				}
				if a < b {
					if s.m > 0 && rank[s.m-1] == 0 {
						ord = append(ord, s.m)
						rank[s.m-1] = len(ord)
					}
					ev = append(ev, M{"e": "w", "c": c, "m": s.m, "a": a - s.off, "b": b - s.off})
				}
			}
		case "cfail", "wfail":
			e["p"] = published[e["k"].(int)]
			ev = append(ev, e)
		default:
			ev = append(ev, e)
		}
	}
	lens := make([]int, len(r.frames))
	for i, f := range r.frames {
		lens[i] = len(f)
	}
	if ord == nil {
		ord = []int{}
	}
	res := M{"lens": lens, "ord": ord, "rank": rank, "ev": ev}
	if stuck != nil {
		res["stuck"] = stuck
	}
	return res
}
