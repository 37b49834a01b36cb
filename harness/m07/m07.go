// Package m07: positional params decode into exported struct fields in order.
package m07

import (
	"encoding/json"
	"math"
	"reflect"
	"strconv"

	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m07.CheckScalars", CheckScalars)
var _ = v.Reg("m07.CheckComposite", CheckComposite)
var _ = v.Reg("m07.CheckNarrow", CheckNarrow)
var _ = v.Reg("m07.CheckNativeNumbers", CheckNativeNumbers)
var _ = v.Reg("m07.CheckOrder", CheckOrder)
var _ = v.Reg("m07.CheckDestination", CheckDestination)
var _ = v.Reg("m07.CheckInterface", CheckInterface)

type inner struct {
	A    int
	B    string `json:"b"`
	priv int
}

func one() v.Shape {
	return v.Shape{Depth: v.N(1, 2), Width: v.N(1, 2), StrLen: 2, Keys: []string{"a", "b"}, Kinds: "nbifsao"}
}

// want says whether x must be accepted by (yes), must be rejected by (no) or
// may be either for a Go type, and what it is there.
func want(x interface{}, t string) (val interface{}, yes, no bool) {
	switch t {
	case "string":
		switch s := x.(type) {
		case nil:
			return "", true, false
		case string:
			return s, true, false
		case json.Number:
			return s.String(), false, false // a number may be given as its text
		}
	case "int":
		switch s := x.(type) {
		case nil:
			return 0, true, false
		case json.Number:
			i, err := strconv.ParseInt(string(s), 10, 64)
			if err == nil {
				return int(i), true, false
			}
		}
	case "float":
		switch s := x.(type) {
		case nil:
			return 0.0, true, false
		case json.Number:
			f, err := s.Float64()
			if err == nil {
				return f, true, false
			}
		}
	case "bool":
		switch s := x.(type) {
		case nil:
			return false, true, false
		case bool:
			return s, true, false
		}
	case "any":
		return x, true, false
	}
	return nil, false, true
}

func compare(got interface{}, x interface{}, t string, err error) {
	w, yes, no := want(x, t)
	if err != nil {
		v.Assert(!yes, "a value that fits the field is accepted")
		v.Reach("error")
		return
	}
	v.Assert(!no, "a value that does not fit the field is an error")
	if no {
		return
	}
	v.Assert(reflect.DeepEqual(got, w), "the field holds exactly the given value")
	v.Reach("stored")
}

// one param of any JSON kind (depth 1, 2 thorough) into one field of kind string, int, int64, float64, bool, any or pointer
//v:reach=stored,error
func CheckScalars() {
	x := v.Value("x", one())
	params := []interface{}{x}
	switch v.Choose("field", 7) {
	case 0:
		var o struct{ F string }
		err := jlib.DecodeParams(params, &o)
		compare(o.F, x, "string", err)
	case 1:
		var o struct{ F int }
		err := jlib.DecodeParams(params, &o)
		compare(o.F, x, "int", err)
	case 2:
		var o struct{ F int64 }
		err := jlib.DecodeParams(params, &o)
		compare(int(o.F), x, "int", err)
	case 3:
		var o struct{ F float64 }
		err := jlib.DecodeParams(params, &o)
		compare(o.F, x, "float", err)
	case 4:
		var o struct{ F bool }
		err := jlib.DecodeParams(params, &o)
		compare(o.F, x, "bool", err)
	case 5:
		o := struct{ F interface{} }{"old"}
		err := jlib.DecodeParams(params, &o)
		compare(o.F, x, "any", err)
	default:
		var o struct{ F *int }
		err := jlib.DecodeParams(params, &o)
		if x == nil {
			v.Assert(err == nil && o.F == nil, "null leaves a pointer nil")
			return
		}
		if err == nil {
			v.Assert(o.F != nil, "a value gives a pointer")
			if o.F == nil {
				return
			}
			compare(*o.F, x, "int", err)
			return
		}
		compare(nil, x, "int", err)
	}
}

// one param of any JSON kind into a list, a list of integers, a map, a struct or a pointer to a struct
//v:reach=stored,error
func CheckComposite() {
	sh := one()
	sh.Depth = 2
	sh.Width = v.N(1, 2)
	x := v.Value("x", sh)
	params := []interface{}{x}
	switch v.Choose("field", 5) {
	case 0:
		var o struct{ F []interface{} }
		err := jlib.DecodeParams(params, &o)
		l, ok := x.([]interface{})
		v.Assert((err == nil) == (ok || x == nil), "a list field accepts exactly lists")
		if err == nil && ok {
			v.Reach("stored")
			v.Assert(len(o.F) == len(l), "every item is stored")
			for i := range l {
				v.Assert(i < len(o.F) && reflect.DeepEqual(o.F[i], l[i]), "items are stored in order")
			}
		}
	case 1:
		var o struct{ F []int }
		err := jlib.DecodeParams(params, &o)
		l, ok := x.([]interface{})
		if !ok {
			v.Assert((err == nil) == (x == nil), "a list field accepts exactly lists")
			return
		}
		for i := range l {
			w, _, no := want(l[i], "int")
			if no {
				v.Assert(err != nil, "an item that does not fit is an error")
				return
			}
			if err == nil {
				v.Assert(len(o.F) == len(l) && o.F[i] == w, "the item is stored exactly")
			}
		}
		v.Assert(err == nil, "a list of integers is accepted")
	case 2:
		var o struct{ F map[string]interface{} }
		err := jlib.DecodeParams(params, &o)
		m, ok := x.(map[string]interface{})
		if !ok {
			v.Assert(err != nil || x == nil, "a map field accepts only objects")
			v.Reach("error")
			return
		}
		v.Assert(err == nil, "an object is accepted")
		v.Assert(len(o.F) == len(m), "every property is stored")
		for k := range m {
			e, has := o.F[k]
			v.Assert(has, "the property is stored")
			v.Assert(reflect.DeepEqual(e, m[k]), "the property holds exactly the given value")
		}
	case 3:
		var o struct{ F inner }
		err := jlib.DecodeParams(params, &o)
		checkInner(x, o.F, err)
	default:
		var o struct{ F *inner }
		err := jlib.DecodeParams(params, &o)
		if x == nil {
			v.Assert(err == nil && o.F == nil, "null leaves a pointer nil")
			return
		}
		if err == nil {
			v.Assert(o.F != nil, "a value gives a pointer")
			if o.F == nil {
				return
			}
			checkInner(x, *o.F, err)
		} else {
			checkInner(x, inner{}, err)
		}
	}
}

func checkInner(x interface{}, got inner, err error) {
	if x == nil {
		v.Assert(err == nil, "null is accepted")
		return
	}
	m, ok := x.(map[string]interface{})
	if !ok {
		v.Assert(err != nil, "a struct field accepts only objects")
		return
	}
	wa, yesA, noA := want(m["a"], "int")
	wb, yesB, noB := want(m["b"], "string")
	if err != nil {
		v.Assert(!yesA || !yesB, "an object that fits is accepted")
		return
	}
	v.Assert(!noA && !noB, "an object that does not fit is an error")
	if !noA && !noB {
		v.Assert(got.A == wa && got.B == wb && got.priv == 0, "the struct holds exactly the given properties")
	}
}

// any 64-bit integer param, decoded from JSON or native, into int8, int16, int32, uint8, uint16, uint32 and uint64 fields
//v:reach=stored,error
func CheckNarrow() {
	n := v.Int64("n")
	var x interface{} = n
	if v.Choose("form", 2) == 0 {
		x = json.Number(strconv.FormatInt(n, 10))
	}
	params := []interface{}{x}
	var got int64
	var err error
	var min, max int64
	switch v.Choose("field", 7) {
	case 0:
		var o struct{ F int8 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), -1<<7, 1<<7-1
	case 1:
		var o struct{ F int16 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), -1<<15, 1<<15-1
	case 2:
		var o struct{ F int32 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), -1<<31, 1<<31-1
	case 3:
		var o struct{ F uint8 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), 0, 1<<8-1
	case 4:
		var o struct{ F uint16 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), 0, 1<<16-1
	case 5:
		var o struct{ F uint32 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), 0, 1<<32-1
	default:
		var o struct{ F uint64 }
		err = jlib.DecodeParams(params, &o)
		got, min, max = int64(o.F), 0, 1<<63-1
	}
	fits := v.And(min <= n, n <= max)
	if err != nil {
		v.Reach("error")
		v.Assert(!fits, "a number in the range of the field is accepted")
		return
	}
	v.Reach("stored")
	v.Assert(fits, "a number outside the range of the field is an error")
	v.Assert(got == n, "the field holds exactly the given number")
}

// any finite float64 param into int and float64 fields, any int param into a float64 field
//v:reach=stored
func CheckNativeNumbers() {
	switch v.Choose("case", 3) {
	case 0:
		f := v.Float("f")
		var o struct{ F float64 }
		err := jlib.DecodeParams([]interface{}{f}, &o)
		v.Assert(err == nil && o.F == f, "a float is stored exactly")
		v.Reach("stored")
	case 1:
		f := v.Float("f")
		var o struct{ F int64 }
		err := jlib.DecodeParams([]interface{}{f}, &o)
		if err == nil {
			v.Assert(v.And(-0x1p63 <= f, f < 0x1p63) && v.And(math.Trunc(f) == f, o.F == int64(f)), "a float is stored in an integer field exactly or rejected")
		}
	default:
		n := v.Int("n")
		var o struct{ F float64 }
		err := jlib.DecodeParams([]interface{}{n}, &o)
		if err == nil {
			v.Assert(o.F == float64(n), "an integer is stored in a float field as the nearest float")
		}
	}
}

type mixed struct {
	A string
	p int
	B int `json:"-"`
	q string
	C bool `json:"x,omitempty"`
}

// 0..4 params of scalar kinds into a struct with three exported and two private fields holding previous values
//v:reach=short,exact,long,error
func CheckOrder() {
	n := v.Choose("n", 5)
	params := []interface{}{}
	for i := 0; i < n; i++ {
		params = append(params, v.Value("x"+strconv.Itoa(i), v.Shape{StrLen: 1, Kinds: "nbis"}))
	}
	o := mixed{"olda", 1, 2, "oldq", true}
	err := jlib.DecodeParams(params, &o)
	v.Assert(o.p == 1 && o.q == "oldq", "private fields are left alone")
	kinds := []string{"string", "int", "bool"}
	all := true
	for i := 0; i < n && i < 3; i++ {
		_, yes, no := want(params[i], kinds[i])
		if no {
			v.Assert(err != nil, "a value that does not fit the field is an error")
		}
		all = all && yes
	}
	if err != nil {
		v.Reach("error")
		v.Assert(!all, "params that all fit are accepted")
		return
	}
	got := []interface{}{o.A, o.B, o.C}
	old := []interface{}{"olda", 2, true}
	for i := 0; i < 3; i++ {
		if i >= n {
			v.Assert(got[i] == old[i], "a field without a param keeps its value")
			continue
		}
		w, _, _ := want(params[i], kinds[i])
		v.Assert(got[i] == w, "the i-th param goes to the i-th exported field")
	}
	switch {
	case n < 3:
		v.Reach("short")
	case n == 3:
		v.Reach("exact")
	default:
		v.Reach("long")
	}
}

// destinations that are not pointers to structs, including nil, with 0..1 params
//v:reach=rejected
func CheckDestination() {
	params := []interface{}{}
	if v.Choose("n", 2) == 1 {
		params = append(params, v.Value("x", v.Shape{StrLen: 1, Kinds: "nbis"}))
	}
	var dst interface{}
	i := 1
	s := "s"
	m := map[string]interface{}{}
	l := []interface{}{}
	pi := &i
	switch v.Choose("dst", 10) {
	case 0:
		dst = i
	case 1:
		dst = &i
	case 2:
		dst = s
	case 3:
		dst = &m
	case 4:
		dst = &l
	case 5:
		dst = mixed{}
	case 6:
		dst = &pi
	case 7:
		dst = m
	case 8:
		dst = nil
	default:
		dst = (*mixed)(nil)
	}
	var err error
	r := hx.Panics(func() { err = jlib.DecodeParams(params, dst) })
	v.Assert(r == nil, "decoding never panics")
	if r == nil && !(dst == interface{}((*mixed)(nil)) && len(params) == 0) {
		v.Assert(err != nil, "a destination that is not a pointer to a struct is rejected")
	}
	v.Reach("rejected")
}

// one JSON object into a struct through DecodeInterface
//v:reach=stored
func CheckInterface() {
	x := v.Value("x", one())
	var o inner
	err := jlib.DecodeInterface(x, &o)
	checkInner(x, o, err)
	v.Reach("stored")
}
