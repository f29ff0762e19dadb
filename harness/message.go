package main

import (
	"encoding/json"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"
	_ "time/tzdata"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

func init() {
	// the traces are in UTC, except when the scenario tells another zone
	time.Local = time.UTC
	runners["message"] = runMessage
	runners["clock"] = runClock
}

type msgSD struct {
	K        string
	B        string
	Tz, Sync bool
	Acc      *int
	E        sdElem
}

func (x msgSD) sd() sdata.StructuredData {
	switch x.K {
	case "raw":
		return rawSD{b: string(unb64(x.B))}
	case "bad":
		return rawSD{err: true}
	case "tq":
		return timequality.TimeQuality{TzKnown: x.Tz, IsSynced: x.Sync, SyncAccuracy: x.Acc}
	}
	return x.E.sd()
}

// Off: minutes, OffS: seconds more
type msgTime struct{ Y, Mo, D, H, Mi, S, Ns, Off, OffS int }

func (t msgTime) time() time.Time {
	l := time.UTC
	if t.Off != 0 || t.OffS != 0 {
		l = time.FixedZone("", t.Off*60+t.OffS)
	}
	return time.Date(t.Y, time.Month(t.Mo), t.D, t.H, t.Mi, t.S, t.Ns, l)
}

type msgOp struct {
	O                         string
	To, From                  int
	P                         int
	S, Host, App, Pid, Mid, X string // base64
	T                         msgTime
	Sec, Nsec                 string
	Els                       []msgSD
	Ev                        M // the operation, for the specification
}

func instant(t time.Time) []int {
	u := t.Unix()
	return []int{int(u / 86400), int(u % 86400), t.Nanosecond() / 1000}
}

type msgEnv struct {
	mu   sync.Mutex
	vals map[int]s5.Message
}

func (e *msgEnv) get(i int) s5.Message {
	e.mu.Lock()
	defer e.mu.Unlock()
	m, ok := e.vals[i]
	if !ok && i != 0 {
		panic("no such message")
	}
	return m
}

func encode(ev M, m s5.Message) {
	b, err := m.Marshal5424()
	ev["err"], ev["enc"] = err != nil, ints(b)
	if s := m.String(); err == nil && s != string(b) {
		ev["enc"] = ints([]byte("String is different: " + s))
	}
	for i := range b {
		b[i] = 'X' // the encoding belongs to the caller
	}
}

func ub(s string) string { return string(unb64(s)) }

func (e *msgEnv) do(o msgOp) M {
	ev := M{}
	for k, v := range o.Ev {
		ev[k] = v
	}
	ev["o"], ev["from"], ev["to"] = o.O, o.From, o.To
	ev["e"] = "op"
	switch o.O {
	case "again":
		ev["e"], ev["i"] = "again", o.From
		encode(ev, e.get(o.From))
		return ev
	case "parse":
		ev["e"], ev["i"] = "parse", o.From
		b, err := e.get(o.From).Marshal5424()
		if err != nil {
			ev["err"] = true
			return ev
		}
		m, rest, err := s5.Parse(b, nil, true)
		ev["err"] = err != nil || len(rest) > 0
		if err != nil {
			return ev
		}
		accessors(ev, m, 0)
		l := [][]int{}
		for _, sd := range m.StructuredData() {
			x, err := sd.Marshal5424()
			if err != nil {
				x = []byte("error")
			}
			l = append(l, ints(x))
		}
		ev["sdl"] = l
		w, err := m.Writable().Marshal5424()
		if err != nil {
			w = []byte("error")
		}
		ev["wenc"] = ints(w)
		return ev
	}
	m := e.get(o.From)
	hn, err := os.Hostname()
	if err != nil {
		hn = ""
	}
	lo := time.Now()
	var r s5.Message
	switch o.O {
	case "create":
		r = s5.CreateMessage(ub(o.App), s5.Priority(o.P), ub(o.X))
	case "whole":
		r = s5.CreateWholeMessage(s5.Priority(o.P), o.T.time(), ub(o.Host), ub(o.App), ub(o.Pid), ub(o.Mid), ub(o.X))
	case "empty":
		r = s5.EmptyMessage()
	case "host":
		r = m.Host(ub(o.S))
	case "local":
		r = m.LocalHost()
	case "app":
		r = m.AppName(ub(o.S))
	case "pid":
		r = m.ProcID(ub(o.S))
	case "mid":
		r = m.MsgID(ub(o.S))
	case "msg":
		r = m.Msg(ub(o.S))
	case "prio":
		r = m.Priority(s5.Priority(o.P))
	case "time":
		r = m.Time(o.T.time())
	case "now":
		r = m.Now()
	case "epoch":
		r = m.Epoch(o.Sec, o.Nsec)
	case "delta":
		r = m.Delta(o.T.time(), o.Sec, o.Nsec)
	case "stamp":
		r = m.Timestamp(ub(o.S))
	case "copy":
		r = m
	case "reparse":
		r = m
		if b, err := m.Marshal5424(); err == nil {
			p, _, err := s5.Parse(b, nil, true)
			if err != nil {
				r = s5.EmptyMessage().Msg("does not parse")
			} else {
				r = p.Writable()
				for i := range b {
					b[i] = 'X'
				}
			}
		}
	case "sd":
		l := []sdata.StructuredData{}
		for _, x := range o.Els {
			l = append(l, x.sd())
		}
		l = append(make([]sdata.StructuredData, 0, len(l)+3), l...)
		r = m.StructuredData(l...)
		// the arguments belong to the caller
		l = l[:cap(l)]
		for i := range l {
			l[i] = rawSD{b: "[overwritten]"}
		}
	default:
		panic("operation " + o.O)
	}
	hi := time.Now()
	ev["hn"], ev["lo"], ev["hi"] = ints([]byte(hn)), instant(lo), instant(hi)
	ns := []M{}
	for _, t := range []time.Time{lo, hi, lo.UTC(), hi.UTC()} {
		ns = append(ns, M{"y": t.Year(), "mo": int(t.Month())})
	}
	ev["ns"] = ns
	encode(ev, r)
	e.mu.Lock()
	e.vals[o.To] = r
	e.mu.Unlock()
	return ev
}

func runMessage(raw json.RawMessage) M {
	var c struct {
		Before []msgOp
		Par    [][]msgOp
		After  []msgOp
		Zone   string // the local one
	}
	must(raw, &c)
	time.Local = time.UTC
	if c.Zone != "" {
		l, err := time.LoadLocation(c.Zone)
		if err != nil {
			panic("zone " + c.Zone + ": " + err.Error())
		}
		time.Local = l
		defer func() { time.Local = time.UTC }()
	}
	e := &msgEnv{vals: map[int]s5.Message{}}
	evs := []M{}
	for _, o := range c.Before {
		evs = append(evs, e.do(o))
	}
	if len(c.Par) > 0 {
		res := make([][]M, len(c.Par))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range c.Par {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, o := range c.Par[i] {
					res[i] = append(res[i], e.do(o))
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for _, r := range res {
			evs = append(evs, r...)
		}
	}
	for _, o := range c.After {
		evs = append(evs, e.do(o))
	}
	return M{"ev": evs}
}

var theTest *testing.T

// inTest runs f as a test, which synctest needs, and exits
func inTest(f func()) {
	os.Args = os.Args[:1]
	testing.Main(func(_, _ string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "harness", F: func(t *testing.T) {
		theTest = t
		f()
		os.Exit(0)
	}}}, nil, nil)
}

// runClock runs operations on messages while the clock tells another date: At seconds after the begin of the year 2000
func runClock(raw json.RawMessage) (r M) {
	var c struct{ At int64 }
	must(raw, &c)
	synctest.Test(theTest, func(*testing.T) {
		time.Sleep(time.Duration(c.At) * time.Second)
		r = runMessage(raw)
	})
	return
}
