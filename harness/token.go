package main

import (
	"bytes"
	"encoding/json"

	"github.com/nathanaelle/syslog5424/v2/sdata"
)

func init() { caseModes["token"] = caseToken }

// caseToken calls one reader, or all of them in turn as a decoder does
func caseToken(raw json.RawMessage) M {
	var c struct{ Op, B string }
	must(raw, &c)
	b := unb64(c.B)
	_, at := pumped(unpumped(b, pumping), false, pumping)
	orig := append([]byte{}, b...)
	r := M{"op": c.Op, "b": ints(orig)}
	one := func(op string, b []byte) (string, []byte, error) {
		switch op {
		case "header":
			return sdata.NextHeader(b)
		case "space":
			rest, err := sdata.NextNonSpace(b)
			return "", rest, err
		case "name":
			return sdata.NextSDName(b)
		default:
			return sdata.NextSDValue(b)
		}
	}
	if c.Op != "walk" {
		tok, rest, err := one(c.Op, b)
		// where the remainder is in b, -1 if there is none
		pos := at(len(b)-len(rest)) + 1
		if rest == nil {
			pos = -1
		} else if !bytes.HasSuffix(orig, rest) {
			pos = -2
		}
		if err != nil {
			_ = err.Error()
		}
		r["tok"], r["rest"], r["err"] = ints([]byte(tok)), pos, err != nil
		r["same"] = bytes.Equal(b, orig)
		return r
	}
	id, rest, err := one("header", b)
	l := [][][]int{}
	for err == nil && len(rest) > 0 {
		var name, value string
		if _, rest, err = one("space", rest); err != nil {
			break
		}
		if name, rest, err = one("name", rest); err != nil {
			break
		}
		if value, rest, err = one("value", rest); err != nil {
			break
		}
		l = append(l, [][]int{ints([]byte(name)), ints([]byte(value))})
		if len(l) > len(orig) {
			panic("reading never ends")
		}
	}
	r["id"], r["l"], r["err"], r["same"] = ints([]byte(id)), l, err != nil, bytes.Equal(b, orig)
	return r
}
