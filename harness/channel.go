package main

import (
	"encoding/json"
	"log"
	"os"
	"strconv"
	"sync"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
)

func init() { runners["channel"] = runChannel }

type chanOp struct {
	O, S     string
	To, From int
	P        int
	Rep      int
	App      string
	Text     string
	Els      []msgSD
	Ev       M
}

type chanEnv struct {
	mu     sync.Mutex
	objs   map[int]interface{}
	sender *s5.Sender
	buf    []byte
}

// Write and Close make it the connection
func (e *chanEnv) Write(b []byte) (int, error) {
	e.mu.Lock()
	e.buf = append(e.buf, b...)
	e.mu.Unlock()
	return len(b), nil
}
func (e *chanEnv) Close() error { return nil }

func (e *chanEnv) get(i int) interface{} {
	e.mu.Lock()
	defer e.mu.Unlock()
	o, ok := e.objs[i]
	if !ok {
		panic("no such object")
	}
	return o
}

func (e *chanEnv) do(w int, o chanOp) M {
	ev := M{"e": "make", "o": o.O, "from": o.From, "to": o.To, "w": w, "err": false, "dev": false}
	for k, v := range o.Ev {
		ev[k] = v
	}
	var r interface{}
	lo := time.Now()
	switch o.O {
	case "new":
		hn, err := os.Hostname()
		if err != nil {
			hn = ""
		}
		ev["hn"], ev["pidtext"] = ints([]byte(hn)), ints([]byte(strconv.Itoa(os.Getpid())))
		s, err := s5.New(e.sender, s5.Priority(o.P), ub(o.App))
		ev["err"] = err != nil
		r = s
		if err != nil {
			return ev
		}
	case "sub":
		r = e.get(o.From).(*s5.Syslog).SubSyslog(ub(o.S))
	case "chan":
		r = e.get(o.From).(*s5.Syslog).Channel(s5.Priority(o.P))
	case "app":
		r = e.get(o.From).(s5.Channel).AppName(ub(o.S))
	case "mid":
		r = e.get(o.From).(s5.Channel).Msgid(ub(o.S))
	case "logger":
		r = e.get(o.From).(s5.Channel).Logger(ub(o.S))
	case "log":
		l := []sdata.StructuredData{}
		for _, x := range o.Els {
			l = append(l, x.sd())
		}
		e.get(o.From).(s5.Channel).Log(ub(o.Text), l...)
		for i := range l {
			l[i] = rawSD{b: "[overwritten]"}
		}
		ev["e"] = "log"
	case "write":
		b := unb64(o.Text)
		n, err := e.get(o.From).(s5.Channel).Write(b)
		if n == len(b) {
			n = len(unpumped(b, pumping))
		}
		ev["n"], ev["err"] = n, err != nil
		for i := range b {
			b[i] = 'X' // the buffer belongs to the caller
		}
		ev["e"] = "log"
	case "print":
		e.get(o.From).(*log.Logger).Print(ub(o.Text))
		ev["e"] = "log"
	default:
		panic("operation " + o.O)
	}
	ev["lo"], ev["hi"] = instant(lo), instant(time.Now())
	if c, ok := r.(s5.Channel); ok {
		ev["dev"] = c.IsDevNull()
	}
	if r != nil {
		e.mu.Lock()
		e.objs[o.To] = r
		e.mu.Unlock()
	}
	return ev
}

func runChannel(raw json.RawMessage) M {
	var c struct {
		Before []chanOp
		Par    [][]chanOp
		After  []chanOp
	}
	must(raw, &c)
	e := &chanEnv{objs: map[int]interface{}{}}
	var errc <-chan error
	e.sender, errc = s5.NewSender(s5.ConnectorFunc(func() (s5.WriteCloser, error) { return e, nil }), s5.TransportRFC5425, make(chan time.Time))
	go func() {
		for range errc {
		}
	}()
	evs := []M{}
	for _, o := range c.Before {
		evs = append(evs, e.do(1, o))
	}
	if len(c.Par) > 0 {
		res := make([][]M, len(c.Par))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range c.Par {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, o := range c.Par[i] {
					for n := 0; n <= o.Rep; n++ {
						res[i] = append(res[i], e.do(i+2, o))
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, r := range res {
			evs = append(evs, r...)
		}
	}
	for _, o := range c.After {
		evs = append(evs, e.do(len(c.Par)+2, o))
	}
	done := make(chan struct{})
	go func() { e.sender.End(); close(done) }()
	select {
	case <-done:
	case <-time.After(patience):
		return M{"stuck": "End", "ev": evs}
	}
	// the frames
	b := e.buf
	for len(b) > 0 {
		n, i := 0, 0
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			n = 10*n + int(b[i]-'0')
			i++
		}
		if i == 0 || i >= len(b) || b[i] != ' ' || i+1+n > len(b) {
			evs = append(evs, M{"e": "frame", "d": ints(b)})
			break
		}
		evs = append(evs, M{"e": "frame", "d": ints(b[i+1 : i+1+n])})
		b = b[i+1+n:]
	}
	evs = append(evs, M{"e": "end"})
	return M{"n": len(c.Par) + 2, "ev": evs}
}
