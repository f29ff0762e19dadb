package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"strconv"

	s5 "github.com/nathanaelle/syslog5424/v2"
	"github.com/nathanaelle/syslog5424/v2/sdata"
	"github.com/nathanaelle/syslog5424/v2/sdata/timequality"
)

func init() {
	caseModes["sd"] = caseSD
	caseModes["tq"] = caseTQ
}

// ids of the elements made from maps
type idt interface{ id() string }
type (
	idA struct{}
	idB struct{}
	idC struct{}
	idD struct{}
)

func (idA) id() string { return "x@32473" }
func (idB) id() string { return "origin" }
func (idC) id() string { return "a" }
func (idD) id() string { return "exampleSDID-_.!#$%&'()*+,/:;<>?@[1" }

// the elements that a user could define, for the four ids
type (
	mapSS[I idt] map[string]string
	mapSI[I idt] map[string]interface{}
	mapSL[I idt] map[string][]string
	mapSP[I idt] map[string]*string
	mapSR[I idt] map[string]sdata.StructuredData
	mapSN[I idt] map[string]int
	mapSF[I idt] map[string]func()
	keyT         string
	mapKS[I idt] map[keyT]string
	mapIS[I idt] map[int]string
)

func (mapSS[I]) String() string { var i I; return i.id() }
func (mapSS[I]) IsIANA() bool   { return false }
func (mapSS[I]) GetPEN() uint64 { return 32473 }
func (mapSI[I]) String() string { var i I; return i.id() }
func (mapSI[I]) IsIANA() bool   { return false }
func (mapSI[I]) GetPEN() uint64 { return 32473 }
func (mapSL[I]) String() string { var i I; return i.id() }
func (mapSL[I]) IsIANA() bool   { return false }
func (mapSL[I]) GetPEN() uint64 { return 32473 }
func (mapSR[I]) String() string { var i I; return i.id() }
func (mapSR[I]) IsIANA() bool   { return false }
func (mapSR[I]) GetPEN() uint64 { return 32473 }
func (mapSP[I]) String() string { var i I; return i.id() }
func (mapSP[I]) IsIANA() bool   { return false }
func (mapSP[I]) GetPEN() uint64 { return 32473 }
func (mapSN[I]) String() string { var i I; return i.id() }
func (mapSN[I]) IsIANA() bool   { return false }
func (mapSN[I]) GetPEN() uint64 { return 32473 }
func (mapSF[I]) String() string { var i I; return i.id() }
func (mapSF[I]) IsIANA() bool   { return false }
func (mapSF[I]) GetPEN() uint64 { return 32473 }
func (mapKS[I]) String() string { var i I; return i.id() }
func (mapKS[I]) IsIANA() bool   { return false }
func (mapKS[I]) GetPEN() uint64 { return 32473 }
func (mapIS[I]) String() string { var i I; return i.id() }
func (mapIS[I]) IsIANA() bool   { return false }
func (mapIS[I]) GetPEN() uint64 { return 32473 }

type str string

// structs
type (
	structA struct {
		First  string
		Second string `sd5424:"second"`
		hidden string
		Skip   string `sd5424:"-"`
		List   []string
		Ptr    *string `sd5424:"ptr"`
		Any    interface{}
		Num    int
		Flag   bool
	}
	structB struct {
		Must  string `sd5424:"must,mandatory"`
		Other string `sd5424:"other,omitempty"`
		Named str
		Anys  []interface{}
		Arr   [2]string `sd5424:"arr"`
		PP    **string
		U     uint64
		I8    int8
		F     float64
	}
	structC struct {
		Nested sdata.StructuredData
		Bad    interface{}
		PL     []*string `sd5424:"pl"`
		LL     [][]string
		Ints   []int `sd5424:"ints,mandatory"`
		M      map[string]string
		RL     []sdata.StructuredData
	}
	structD struct {
		Name string `sd5424:",mandatory"`
		Fn   func()
	}
	structE struct{}
)

func (structA) String() string { return "structA@1" }
func (structA) IsIANA() bool   { return false }
func (structA) GetPEN() uint64 { return 1 }
func (structB) String() string { return "structB@1" }
func (structB) IsIANA() bool   { return false }
func (structB) GetPEN() uint64 { return 1 }
func (structC) String() string { return "structC@1" }
func (structC) IsIANA() bool   { return false }
func (structC) GetPEN() uint64 { return 1 }
func (structD) String() string { return "structD@1" }
func (structD) IsIANA() bool   { return false }
func (structD) GetPEN() uint64 { return 1 }
func (structE) String() string { return "structE@1" }
func (structE) IsIANA() bool   { return false }
func (structE) GetPEN() uint64 { return 1 }

// rawSD is an element with its own encoding
type rawSD struct {
	b   string
	err bool
}

func (r rawSD) SDID() sdata.SDID { return nil }
func (r rawSD) Marshal5424() ([]byte, error) {
	if r.err {
		return nil, errors.New("no encoding")
	}
	return []byte(r.b), nil
}

// ptrSD is one that only a pointer to it can encode
type ptrSD struct{ b string }

func (r *ptrSD) SDID() sdata.SDID             { return nil }
func (r *ptrSD) Marshal5424() ([]byte, error) { return []byte(r.b), nil }

type sdVal struct {
	K    string // str int bool float uint nil list strs ptr iface bad raw badraw
	B    string
	N    int64
	X    float64
	L    []sdVal
	V    *sdVal
	Name string
}

// the go value, as what an interface holds
func (v *sdVal) value() interface{} {
	if v == nil {
		return nil
	}
	switch v.K {
	case "str":
		return string(unb64(v.B))
	case "named":
		return str(unb64(v.B))
	case "int":
		return v.N
	case "uint":
		return uint16(v.N)
	case "bool":
		return v.N != 0
	case "float":
		return v.X
	case "nil":
		return nil
	case "list":
		l := []interface{}{}
		for i := range v.L {
			l = append(l, v.L[i].value())
		}
		return l
	case "strs":
		return v.strs()
	case "array":
		var a [2]interface{}
		for i := range a {
			a[i] = v.L[i].value()
		}
		return a
	case "ptr":
		return v.ptr()
	case "nilptr":
		return (*string)(nil)
	case "nillist":
		return []string(nil)
	case "raw":
		return rawSD{b: string(unb64(v.B))}
	case "ptrraw":
		return &ptrSD{string(unb64(v.B))}
	case "nilraw":
		return (*ptrSD)(nil)
	case "bytes":
		return unb64(v.B)
	case "pp":
		p := v.V.ptr()
		return &p
	case "f32":
		return float32(v.X)
	case "u64":
		return uint64(v.N)
	case "badraw":
		return rawSD{err: true}
	case "bad":
		switch v.N {
		case 0:
			return func() {}
		case 1:
			return make(chan int)
		case 2:
			return complex(1, 2)
		case 3:
			return map[string]string{"a": "b"}
		case 4:
			return struct{ A int }{1}
		case 5:
			return []func(){nil}
		case 6:
			return &struct{ A int }{1}
		}
	}
	panic("value " + v.K)
}

func (v *sdVal) strs() []string {
	l := []string{}
	for i := range v.L {
		l = append(l, string(unb64(v.L[i].B)))
	}
	return l
}

func (v *sdVal) ptr() *string {
	if v == nil || v.V == nil {
		return nil
	}
	s := string(unb64(v.V.B))
	return &s
}

func (v *sdVal) marshaler() sdata.StructuredData {
	m, _ := v.value().(sdata.StructuredData)
	return m
}

type sdElem struct {
	Type    string // SS SI ... A B C E default
	ID      string // A..D
	Nil     bool
	Entries []sdVal
}

func mkMap[I idt](e sdElem) sdata.SDIDLight {
	switch e.Type {
	case "SS":
		if e.Nil {
			return mapSS[I](nil)
		}
		m := mapSS[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = string(unb64(e.Entries[i].B))
		}
		return m
	case "KS":
		m := mapKS[I]{}
		for i := range e.Entries {
			m[keyT(e.Entries[i].Name)] = string(unb64(e.Entries[i].B))
		}
		return m
	case "SI":
		if e.Nil {
			return mapSI[I](nil)
		}
		m := mapSI[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = e.Entries[i].value()
		}
		return m
	case "SL":
		m := mapSL[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = e.Entries[i].strs()
		}
		return m
	case "SR":
		m := mapSR[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = e.Entries[i].marshaler()
		}
		return m
	case "SP":
		m := mapSP[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = e.Entries[i].ptr()
		}
		return m
	case "SN":
		m := mapSN[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = int(e.Entries[i].N)
		}
		return m
	case "SF":
		m := mapSF[I]{}
		for i := range e.Entries {
			m[e.Entries[i].Name] = func() {}
		}
		return m
	case "IS":
		return mapIS[I]{1: "a"}
	}
	panic("map " + e.Type)
}

func (e sdElem) build() sdata.SDIDLight {
	get := func(n string) *sdVal {
		for i := range e.Entries {
			if e.Entries[i].Name == n {
				return &e.Entries[i]
			}
		}
		return nil
	}
	gs := func(n string) string {
		if v := get(n); v != nil {
			return string(unb64(v.B))
		}
		return ""
	}
	gn := func(n string) int64 {
		if v := get(n); v != nil {
			return v.N
		}
		return 0
	}
	switch e.Type {
	case "A":
		a := structA{First: gs("First"), Second: gs("second"), hidden: "]\" bad", Skip: "]\" bad", Ptr: get("ptr").ptr(), Any: get("Any").value(),
			Num: int(gn("Num")), Flag: gn("Flag") != 0}
		if v := get("List"); v != nil {
			a.List = v.strs()
		}
		return a
	case "B":
		b := structB{Must: gs("must"), Other: gs("other"), Named: str(gs("Named")), U: uint64(gn("U")), I8: int8(gn("I8"))}
		if v := get("F"); v != nil {
			b.F = v.X
		}
		if v := get("Anys"); v != nil {
			b.Anys = v.value().([]interface{})
		}
		if v := get("arr"); v != nil {
			copy(b.Arr[:], v.strs())
		}
		if v := get("PP"); v != nil && v.V != nil {
			p := v.V.ptr()
			b.PP = &p
		}
		return b
	case "C":
		c := structC{}
		if v := get("Nested"); v != nil {
			c.Nested = v.marshaler()
		}
		if v := get("RL"); v != nil {
			for i := range v.L {
				c.RL = append(c.RL, v.L[i].marshaler())
			}
		}
		c.Bad = get("Bad").value()
		if v := get("pl"); v != nil {
			for i := range v.L {
				c.PL = append(c.PL, v.L[i].ptr())
			}
		}
		if v := get("LL"); v != nil {
			for i := range v.L {
				c.LL = append(c.LL, v.L[i].strs())
			}
		}
		if v := get("ints"); v != nil {
			for i := range v.L {
				c.Ints = append(c.Ints, int(v.L[i].N))
			}
		}
		if v := get("M"); v != nil && v.K == "bad" {
			c.M = map[string]string{"a": "]"}
		}
		return c
	case "D":
		return structD{Name: gs("Name"), Fn: func() {}}
	case "E":
		return structE{}
	}
	switch e.ID {
	case "A":
		return mkMap[idA](e)
	case "B":
		return mkMap[idB](e)
	case "C":
		return mkMap[idC](e)
	}
	return mkMap[idD](e)
}

func (e sdElem) sd() sdata.StructuredData {
	if e.Type == "default" {
		d, ok := s5.GenericSD(e2("SS", e.ID).build()).SDID().(interface{ Default() sdata.StructuredData })
		if ok {
			return d.Default()
		}
	}
	return s5.GenericSD(e.build())
}

func e2(t, id string) sdElem { return sdElem{Type: t, ID: id} }

// caseSD encodes an element, alone and in a message, and reads it back
func caseSD(raw json.RawMessage) M {
	var c struct {
		E  sdElem
		El json.RawMessage // for the specification
		W  string
	}
	must(raw, &c)
	r := M{"el": c.El, "want": ints([]byte(c.W)), "n": 0, "re": []int{}, "text": []int{}, "direct": []int{}}
	sd := c.E.sd()
	enc, err := sd.Marshal5424()
	r["err"], r["enc"] = err != nil, ints(enc)
	if err != nil {
		_ = err.Error()
	}
	m := s5.EmptyMessage().StructuredData(sd).Msg(c.W)
	all, err2 := m.Marshal5424()
	if (err2 != nil) != (err != nil) {
		r["direct"] = ints([]byte("error lost"))
		return r
	}
	_ = m.String()
	if c.E.Type == "default" {
		r["direct"] = r["enc"]
	} else {
		r["direct"] = ints(sdata.MarshalSD(c.E.build()))
	}
	if err != nil {
		return r
	}
	p, _, err := s5.Parse(all, nil, true)
	if err != nil {
		return r
	}
	l := p.StructuredData()
	r["n"] = len(l)
	if len(l) == 1 {
		re, err := l[0].Marshal5424()
		if err == nil {
			r["re"] = ints(re)
		}
	}
	r["text"] = ints([]byte(p.Text()))
	return r
}

func caseTQ(raw json.RawMessage) M {
	var c struct {
		Op   string
		Tz   bool
		Sync bool
		Acc  *int
		B    string
	}
	must(raw, &c)
	r := M{"op": c.Op}
	seen := func(b []byte) {
		r["found"], r["tz"], r["sync"], r["has"], r["acc"], r["out"] = false, false, false, false, []int{}, []int{}
		keep := append([]byte{}, b...)
		sd, ok := timequality.TQ.Found(b)
		if ok {
			q := sd.(timequality.TimeQuality)
			r["found"], r["tz"], r["sync"] = true, q.TzKnown, q.IsSynced
			if q.SyncAccuracy != nil {
				r["has"], r["acc"] = true, ints([]byte(strconv.Itoa(*q.SyncAccuracy)))
			}
			out, err := q.Marshal5424()
			if err != nil {
				out = []byte("error")
			}
			r["out"] = ints(out)
		}
		if string(keep) != string(b) {
			panic("the element was changed")
		}
		// the way a message is read
		p, ok := sdata.Parse(b)
		r["parsed"] = false
		if ok {
			q, ok := p.(timequality.TimeQuality)
			r["parsed"] = ok
			if ok && fmt.Sprint(q.IsValid()) != "true" {
				r["parsed"] = false
			}
		}
	}
	if c.Op == "enc" {
		q := timequality.TimeQuality{TzKnown: c.Tz, IsSynced: c.Sync, SyncAccuracy: c.Acc}
		acc := []int{}
		if c.Acc != nil {
			acc = ints([]byte(strconv.Itoa(*c.Acc)))
		}
		r["q"] = M{"tz": c.Tz, "sync": c.Sync, "has": c.Acc != nil, "acc": acc}
		r["valid"] = q.IsValid()
		out, err := q.Marshal5424()
		r["err"] = err != nil
		if err == nil {
			seen(out)
		} else {
			// as a part of a message
			if _, err := s5.EmptyMessage().StructuredData(q).Marshal5424(); err == nil {
				r["err"] = false
			}
		}
		r["out"] = ints(out)
		return r
	}
	b := unb64(c.B)
	r["b"] = ints(b)
	seen(b)
	return r
}
