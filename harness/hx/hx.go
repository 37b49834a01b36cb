// Package hx holds helpers shared by the harnesses.
package hx

import (
	"encoding/json"
	"strconv"

	"github.com/superisaac/jlib"
	"verif/harness/v"
)

// Val is the shape of ordinary parameter and result values.
func Val() v.Shape {
	return v.Shape{Depth: v.N(1, 2), Width: v.N(1, 2), StrLen: 2, Keys: []string{"a", "b"}, Kinds: "nbifsao"}
}

// ID is an integer or string request id.
func ID(name string) interface{} {
	if v.Choose(name+".kind", 2) == 0 {
		return v.Int(name)
	}
	return v.ASCII(name, v.N(3, 5))
}

// Method is a non-empty method name.
func Method(name string) string {
	m := v.ASCII(name, v.N(3, 5))
	v.Assume(m != "")
	return m
}

// Params is what a caller may pass as params: a list of up to n values or a
// single value which is neither null nor a list.  The second result is the
// parameter list a reader of the message should see.
func Params(name string, n int) (interface{}, []interface{}) {
	k := v.Choose(name+".n", n+2)
	if k == n+1 {
		x := v.Value(name+".single", Val())
		if x == nil {
			v.Assume(false)
		}
		if _, ok := x.([]interface{}); ok {
			v.Assume(false)
		}
		return x, []interface{}{x}
	}
	lst := []interface{}{}
	for i := 0; i < k; i++ {
		lst = append(lst, v.Value(name+strconv.Itoa(i), Val()))
	}
	return lst, lst
}

// Copy of a list.
func Copy(a []interface{}) []interface{} {
	return append([]interface{}{}, a...)
}

// MustBytes encodes a message.
func MustBytes(m jlib.Message) []byte {
	b, err := jlib.MessageBytes(m)
	v.Assert(err == nil, "the message can be encoded")
	return b
}

// Enc encodes any value.
func Enc(x interface{}) []byte {
	b, err := json.Marshal(x)
	v.Assert(err == nil, "the value can be encoded")
	return b
}

// Panics runs f and returns what it panicked with.
func Panics(f func()) (r interface{}) {
	defer func() { r = recover() }()
	f()
	return nil
}

// Is32 tells an RPC error with the code.
func IsCode(x interface{}, code int) bool {
	e, ok := x.(*jlib.RPCError)
	return ok && e.Code == code
}
