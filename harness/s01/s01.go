// Package s01: primitive schemas accept exactly the values they describe.
package s01

import (
	"bytes"
	"encoding/json"
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s01.CheckKinds", CheckKinds)
var _ = v.Reg("s01.CheckInteger", CheckInteger)
var _ = v.Reg("s01.CheckNumber", CheckNumber)
var _ = v.Reg("s01.CheckNumberOfInteger", CheckNumberOfInteger)
var _ = v.Reg("s01.CheckString", CheckString)
var _ = v.Reg("s01.CheckBytes", CheckBytes)

// value is any JSON value in decoded or native form.
func value() interface{} {
	sh := v.Shape{Depth: 1, Width: 1, StrLen: 3, Keys: []string{"a"}, Kinds: "nbifFsao"}
	switch v.Choose("form", 4) {
	case 0:
		return v.Value("x", sh)
	case 1:
		return v.Int("n")
	case 2:
		return v.Float("f")
	}
	return v.String("s", 3)
}

// every primitive schema (bounds on one side) against every kind of value
//v:reach=yes,no
func CheckKinds() {
	s := sx.Prim("s", "nb*FIS")
	x := value()
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "a primitive schema accepts exactly the values it describes")
	v.Observe("ok", got)
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

// every combination of integer bounds and flags, every 64-bit bound and value, decoded or native
//v:reach=yes,no
func CheckInteger() {
	s := sx.Integer("s")
	n := v.Int64("n")
	var x interface{} = int(n)
	if v.Choose("form", 2) == 0 {
		x = json.Number(strconv.FormatInt(n, 10))
	}
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "an integer schema accepts exactly the integers within its bounds")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

// every combination of number bounds and flags, every finite float bound and value, decoded or native
//v:reach=yes,no
func CheckNumber() {
	s := sx.Number("s")
	var x interface{} = v.Float("f")
	if v.Choose("form", 2) == 0 {
		x = v.Value("x", v.Shape{Kinds: "F"})
	}
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "a number schema accepts exactly the numbers within its bounds")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

// number schemas with any one-sided bound against every 64-bit integer, decoded or native
//v:reach=yes,no
func CheckNumberOfInteger() {
	s := jlibschema.NewNumberSchema()
	b, ex := v.Float("bound"), v.Bool("ex")
	if v.Choose("side", 2) == 0 {
		s.Minimum, s.ExclusiveMinimum = &b, &ex
	} else {
		s.Maximum, s.ExclusiveMaximum = &b, &ex
	}
	n := v.Int("n")
	var x interface{} = n
	if v.Choose("form", 2) == 0 {
		x = json.Number(strconv.Itoa(n))
	}
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "a number schema accepts exactly the integers within its bounds")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

// every combination of length limits against every byte string of at most 4 bytes (8 thorough)
//v:reach=yes,no
func CheckString() {
	s := sx.String("s")
	x := v.String("x", v.N(4, 8))
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "a string schema accepts exactly the strings within its limits")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

// every JSON document against every primitive schema through ValidateBytes
//v:reach=yes,no
func CheckBytes() {
	s := sx.Prim("s", "nb*FIS")
	doc := v.JSON("doc", v.Shape{Depth: 1, Width: 1, StrLen: 2, Keys: []string{"a"}, Kinds: "nbifsao"})
	var x interface{}
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	if d.Decode(&x) != nil {
		v.Assume(false)
	}
	got := jlibschema.NewSchemaValidator().ValidateBytes(s, doc) == nil
	v.Assert(got == sx.Accepts(s, x), "validating a document judges the value it holds")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}
