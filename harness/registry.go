package main

import (
	"bytes"
	"encoding/json"
	"runtime"
	"sync"
	"time"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

// regDec is a decoder that a user could register
type regDec struct {
	name, kind string
	id         []byte
	k          int
	slow       bool
}

type regItem struct {
	d   *regDec
	raw []byte
}

func (r regItem) SDID() sdata.SDID             { return r.d }
func (r regItem) Marshal5424() ([]byte, error) { return r.raw, nil }

func (d *regDec) String() string               { return d.name }
func (d *regDec) IsIANA() bool                 { return false }
func (d *regDec) GetPEN() uint64               { return 1 }
func (d *regDec) MarshalText() ([]byte, error) { return []byte(d.name), nil }
func (d *regDec) Found(data []byte) (sdata.StructuredData, bool) {
	if d.slow {
		runtime.Gosched()
	}
	ok := bytes.HasPrefix(data, append([]byte{'['}, d.id...))
	switch {
	case !ok:
	case d.kind == "exact":
		c := data[len(d.id)+1]
		ok = c == ' ' || c == ']'
	case d.kind == "picky":
		ok = data[len(d.id)+1] == ' ' && !bytes.Contains(data, []byte{'!'})
	}
	if !ok {
		return nil, false
	}
	return regItem{d, append([]byte{}, data...)}, true
}

type bareID struct{ name string }

func (b bareID) String() string { return b.name }
func (b bareID) IsIANA() bool   { return false }
func (b bareID) GetPEN() uint64 { return 1 }

func init() { runners["registry"] = runRegistry }

func runRegistry(raw json.RawMessage) M {
	var c struct {
		Msgs []string
		Decs []struct{ Name, Kind, Id string }
		W    [][]struct {
			O  string
			Ds []int
			M  int
			N  int
		}
		Serial bool
	}
	must(raw, &c)
	bare := map[string]int{}
	decs := []sdata.SDID{}
	tdecs := []M{}
	for i, d := range c.Decs {
		tdecs = append(tdecs, M{"name": ints([]byte(d.Name)), "kind": d.Kind, "sid": ints([]byte(d.Id)), "tq": d.Name == timequality.TQ.String()})
		if d.Kind == "bare" {
			bare[d.Name] = i + 1
			decs = append(decs, s5.GenericSD(bareID{d.Name}).SDID())
			continue
		}
		decs = append(decs, &regDec{d.Name, d.Kind, []byte(d.Id), i + 1, i%2 == 0})
	}
	msgs := [][]byte{}
	tmsgs := [][]int{}
	parsed := []s5.MessageImmutable{}
	for _, m := range c.Msgs {
		b := unb64(m)
		msgs = append(msgs, b)
		tmsgs = append(tmsgs, ints(b))
		p, _, err := s5.Parse(b, nil, true)
		if err != nil {
			return M{"e": "bad message", "stuck": "bad message " + string(b)}
		}
		parsed = append(parsed, p)
	}
	item := func(sd sdata.StructuredData) M {
		out, err := sd.Marshal5424()
		if err != nil {
			out = []byte("error")
		}
		who := -2
		switch x := sd.(type) {
		case regItem:
			who = x.d.k
		case timequality.TimeQuality:
			who = -1
		default:
			n := sd.SDID().String()
			if n == "unknown Structured Data" {
				who = 0
			} else if k, ok := bare[n]; ok {
				who = k
			}
		}
		return M{"who": who, "b": ints(out)}
	}
	l := &Log{}
	worker := func(w int) {
		for _, o := range c.W[w] {
			switch o.O {
			case "reg":
				d := decs[o.Ds[0]-1]
				l.Add(M{"e": "rcall", "w": w + 1, "ds": o.Ds})
				if sdata.Register(d) != d {
					panic("Register returned something else")
				}
				l.Add(M{"e": "rret", "w": w + 1})
			case "group":
				ds := []sdata.SDID{}
				for _, k := range o.Ds {
					ds = append(ds, decs[k-1])
				}
				l.Add(M{"e": "rcall", "w": w + 1, "ds": o.Ds})
				sdata.RegisterGroup(ds...)
				l.Add(M{"e": "rret", "w": w + 1})
			case "spin":
				for i := 0; i < o.N; i++ {
					parsed[o.M-1].StructuredData()
				}
			case "parse", "fresh", "writable":
				l.Add(M{"e": "pcall", "w": w + 1, "m": o.M})
				p := parsed[o.M-1]
				if o.O == "fresh" {
					p, _, _ = s5.Parse(append([]byte{}, msgs[o.M-1]...), nil, true)
				}
				items := []M{}
				for _, sd := range p.StructuredData() {
					items = append(items, item(sd))
				}
				l.Add(M{"e": "pret", "w": w + 1, "items": items})
			}
		}
	}
	if c.Serial {
		for w := range c.W {
			worker(w)
		}
	} else {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for w := range c.W {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				worker(w)
			}(w)
		}
		close(start)
		end := make(chan struct{})
		go func() { wg.Wait(); close(end) }()
		select {
		case <-end:
		case <-time.After(patience):
			l.mu.Lock()
			defer l.mu.Unlock()
			l.cut = true
			return M{"stuck": "registering or parsing never ends", "ev": l.ev}
		}
	}
	return M{"n": len(c.W), "decs": tdecs, "msgs": tmsgs, "ev": l.ev}
}
