package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"reflect"
	"runtime/debug"
	"strconv"
	"sync"

	s5 "github.com/nathanaelle/syslog5424/v2"
)

// caseModes runs the cases of pure functions
var caseModes = map[string]func(json.RawMessage) M{
	"parse":    caseParse,
	"priority": casePriority,
}

func init() {
	runners["cases"] = func(raw json.RawMessage) M {
		var b struct {
			Mode  string
			Cases []json.RawMessage
		}
		if err := json.Unmarshal(raw, &b); err != nil {
			panic(err)
		}
		var mu sync.Mutex
		crashes := []M{}
		one := func(i int) (r M) {
			r = M{}
			defer func() {
				if x := recover(); x != nil {
					mu.Lock()
					crashes = append(crashes, M{"k": i, "what": fmt.Sprintf("%v\n%s", x, debug.Stack())})
					mu.Unlock()
					r = nil
				}
			}()
			return caseModes[b.Mode](b.Cases[i])
		}
		res := make([]M, len(b.Cases))
		for i := range b.Cases {
			if res[i] = one(i); res[i] == nil {
				res[i] = M{}
			}
		}
		// again, several at the same time: what differs is judged too
		more := []M{}
		if len(crashes) == 0 {
			var wg sync.WaitGroup
			seen := make([]string, len(b.Cases))
			for i := range res {
				x, _ := json.Marshal(res[i])
				seen[i] = string(x)
			}
			for w := 0; w < 4; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for j := range b.Cases {
						i := (j + w*len(b.Cases)/8) % len(b.Cases)
						r := one(i)
						if r == nil {
							continue
						}
						if x, _ := json.Marshal(r); string(x) != seen[i] {
							mu.Lock()
							if len(more) < 20 {
								more = append(more, M{"k": i, "r": r})
							}
							mu.Unlock()
						}
					}
				}(w)
			}
			wg.Wait()
		}
		return M{"cases": res, "crashes": crashes, "more": more}
	}
}

func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	b, _ = pumped(b, false, pumping)
	return b
}

func must(raw json.RawMessage, v interface{}) {
	if err := json.Unmarshal(raw, v); err != nil {
		panic(err)
	}
}

const layout = "2006-01-02T15:04:05.999999Z07:00"

func accessors(r M, m s5.MessageImmutable, x int) {
	put := func(k, v string) { r[k] = ints(unpumped([]byte(v), x)) }
	put("d", m.String())
	r["prio"] = int(m.Priority())
	r["ts"] = ints([]byte(m.TimeStamp().Format(layout)))
	put("host", m.Hostname())
	put("app", m.AppName())
	put("pid", m.ProcID())
	put("mid", m.MsgID())
	put("text", m.Text())
}

// the byte that stands for many
const pump = 'Q'

// pumped makes x of each pump; at tells where a position comes from
func pumped(b []byte, header bool, x int) (l []byte, at func(int) int) {
	if x == 0 {
		return b, func(i int) int { return i }
	}
	start := 0
	if header {
		start = bytes.IndexByte(b, ' ') + 1
		n, err := strconv.Atoi(string(b[:start-1]))
		if err != nil {
			panic(err)
		}
		// the part of the frame that is there, and what is missing
		in := b[start:min(len(b), start+n)]
		l = append(strconv.AppendInt(nil, int64(n+(x-1)*bytes.Count(in, []byte{pump})), 10), ' ')
	}
	froms := map[int]int{len(l): start}
	for i := start; i < len(b); i++ {
		froms[len(l)] = i
		if b[i] == pump {
			l = append(l, bytes.Repeat(b[i:i+1], x)...)
		} else {
			l = append(l, b[i])
		}
	}
	froms[len(l)] = len(b)
	return l, func(i int) int {
		if i, ok := froms[i]; ok {
			return i
		}
		return -3
	}
}

// unpumped makes one pump of x
func unpumped(b []byte, x int) []byte {
	if x == 0 {
		return b
	}
	r := []byte{}
	for i := 0; i < len(b); {
		n := 0
		for i+n < len(b) && b[i+n] == pump {
			n++
		}
		switch {
		case n == 0:
			r = append(r, b[i])
			n = 1
		case n%x == 0:
			r = append(r, b[i:i+n/x]...)
		default:
			// it cannot be taken for anything that is expected
			r = append(r, "?pump?"...)
		}
		i += n
	}
	return r
}

func caseParse(raw json.RawMessage) M {
	var c struct {
		T   string
		EOF bool
		B   string
		X   int // instead of one byte pumped: X of them
	}
	must(raw, &c)
	short := unb64(c.B)
	b, at := pumped(short, c.T == "rfc", c.X)
	orig := append([]byte{}, b...)
	var t s5.Transport
	if c.T != "none" {
		t = transports[c.T]
	}
	m, rest, err := s5.Parse(b, t, c.EOF)
	r := M{"t": c.T, "eof": c.EOF, "b": ints(short), "rest": -1}
	if rest != nil {
		i := len(orig) - len(rest)
		if i < 0 || !bytes.Equal(rest, orig[i:]) {
			i = -3
		} else {
			i = at(i)
		}
		r["rest"] = i + 1
	}
	has := !reflect.DeepEqual(m, s5.MessageImmutable{})
	inc := errors.Is(err, s5.ErrTransportIncomplete)
	switch {
	case has && err == nil:
		r["res"] = "msg"
	case has && inc:
		r["res"] = "incmsg"
	case has:
		r["res"] = "errmsg"
	case err == nil:
		r["res"] = "nothing"
	case inc:
		r["res"] = "inc"
	default:
		r["res"] = "err"
		_ = err.Error()
	}
	if has {
		accessors(r, m, c.X)
		m.StructuredData()
		m.Writable()
		var w bytes.Buffer
		if n, err := m.WriteTo(&w); err != nil || int(n) != w.Len() || w.String() != m.String() {
			r["res"] = "badwrite"
		}
		r["d"] = ints(unpumped([]byte(m.String()), c.X))
	}
	r["same"] = bytes.Equal(b, orig)
	return r
}

func casePriority(raw json.RawMessage) M {
	var c struct {
		Op     string
		P      int
		B      string
		S      string
		Before int
	}
	must(raw, &c)
	r := M{"op": c.Op}
	p := s5.Priority(c.Before)
	switch c.Op {
	case "marshal":
		out, err := s5.Priority(c.P).Marshal5424()
		r["p"], r["out"], r["err"] = c.P, ints(out), err != nil
	case "unmarshal":
		b := unb64(c.B)
		err := p.Unmarshal5424(b)
		r["b"], r["err"], r["before"], r["after"] = ints(b), err != nil, c.Before, int(p)
	case "set":
		err := p.Set(c.S)
		r["s"], r["err"], r["before"], r["after"] = c.S, err != nil, c.Before, int(p)
	case "string":
		r["p"], r["s"] = c.P, s5.Priority(c.P).String()
	case "both":
		out, err := s5.Priority(c.P).Marshal5424()
		if err == nil {
			err = p.Unmarshal5424(out)
		}
		r["p"], r["err"], r["after"] = c.P, err != nil, int(p)
		r["fac"], r["sev"] = int(s5.Priority(c.P).Facility()), int(s5.Priority(c.P).Severity())
	}
	return r
}
