// Package m02: any incoming document is classified exactly or rejected.
package m02

import (
	"encoding/json"
	"reflect"
	"strconv"

	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m02.CheckFields", CheckFields)
var _ = v.Reg("m02.CheckErrorBody", CheckErrorBody)
var _ = v.Reg("m02.CheckAny", CheckAny)
var _ = v.Reg("m02.CheckGarbage", CheckGarbage)

// isInt64: integer syntax within 64 bits.
func isInt(x interface{}) (int, bool) {
	n, ok := x.(json.Number)
	if !ok {
		return 0, false
	}
	i, err := strconv.ParseInt(string(n), 10, 64)
	return int(i), err == nil
}

// objects with any subset of the fields id, method, params, result, error, traceid, each holding any JSON value (depth 1)
//v:reach=request,notify,result,nullresult,error,rejected time=100
func CheckFields() {
	any := v.Shape{Depth: 1, Width: 1, StrLen: 2, Keys: []string{"a"}, Kinds: "nbifsao"}
	errBody := v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"message"}, Kinds: "nsao"}
	doc := map[string]interface{}{}
	field := func(name string, sh v.Shape) interface{} {
		if v.Choose("has."+name, 2) == 0 {
			return nil
		}
		x := v.Value(name, sh)
		doc[name] = x
		return x
	}
	id := field("id", any)
	method := field("method", any)
	params := field("params", any)
	result := field("result", any)
	errv := field("error", errBody)
	trace := field("traceid", v.Shape{Depth: 0, StrLen: 1, Kinds: "nbs"})
	in := hx.Enc(doc)
	m, err := jlib.ParseBytes(in)
	v.Observe("err", err)
	v.Assert((m == nil) == (err != nil), "exactly one of a message and an error")
	if m == nil && err == nil {
		return
	}
	if m != nil && err == nil {
		v.Observe("encoded", hx.MustBytes(m))
	}

	// what the document says
	name, nameStr := method.(string)
	traceStr, traceOK := trace.(string)
	if trace == nil {
		traceOK = true
	}
	_, idStr := id.(string)
	idInt, idIsInt := isInt(id)
	idOK := id == nil || idStr || idIsInt
	if (method != nil && !nameStr) || !traceOK {
		v.Assert(err != nil, "a field of the wrong type is rejected")
		v.Reach("rejected")
		return
	}
	checkID := func() {
		if idIsInt {
			v.Assert(m.MustId() == idInt, "the integer id is kept")
		} else {
			v.Assert(m.MustId() == id, "the id is kept")
		}
	}
	switch {
	case errv != nil && result != nil:
		v.Assert(err != nil, "result together with error is rejected")
		v.Reach("rejected")
	case errv != nil:
		if err != nil {
			eo, ok := errv.(map[string]interface{})
			bad := !ok || !idOK
			if ok {
				if ms, has := eo["message"]; has && ms != nil {
					if _, isS := ms.(string); !isS {
						bad = true
					}
				}
			}
			v.Assert(bad, "a well formed error document is accepted")
			return
		}
		v.Assert(idOK, "a bad id is rejected")
		v.Assert(m.IsError(), "an error field makes an error message")
		if !m.IsError() {
			return
		}
		v.Reach("error")
		checkID()
	case result != nil:
		v.Assert((err == nil) == idOK, "a result document is accepted exactly when its id is usable")
		if err != nil {
			return
		}
		v.Assert(m.IsResult(), "a result field makes a result")
		if !m.IsResult() {
			return
		}
		v.Assert(reflect.DeepEqual(m.MustResult(), result), "the result value is kept")
		v.Reach("result")
		checkID()
	case name != "":
		ok := params != nil && idOK
		v.Assert((err == nil) == ok, "a method document is accepted exactly when it has params and a usable id")
		if err != nil {
			v.Reach("rejected")
			return
		}
		if id != nil {
			v.Assert(m.IsRequest(), "method, params and id make a request")
			if !m.IsRequest() {
				return
			}
			v.Reach("request")
			checkID()
		} else {
			v.Assert(m.IsNotify(), "method and params without id make a notify")
			if !m.IsNotify() {
				return
			}
			v.Reach("notify")
		}
		v.Assert(m.MustMethod() == name, "the method is kept")
		if lst, isList := params.([]interface{}); isList {
			v.Assert(reflect.DeepEqual(m.MustParams(), lst), "list params are kept")
		} else {
			v.Assert(reflect.DeepEqual(m.MustParams(), []interface{}{params}), "a single param is kept")
		}
	case id != nil:
		v.Assert((err == nil) == idOK, "an id without a method is accepted exactly when usable")
		if err != nil {
			return
		}
		v.Assert(idOK, "a bad id is rejected")
		v.Assert(m.IsResult(), "an id alone makes a result")
		if !m.IsResult() {
			return
		}
		v.Assert(m.MustResult() == nil, "an id alone makes a null result")
		v.Reach("nullresult")
		checkID()
	default:
		v.Assert(err != nil, "a document without a recognisable field is rejected")
		v.Reach("rejected")
	}
	if m != nil {
		v.Assert(m.TraceId() == traceStr, "the trace id is kept")
	}
}

// error documents: any code, message and data; any integer id, a text id, or one of the wrong type
//v:reach=ok,bad
func CheckErrorBody() {
	body := map[string]interface{}{}
	scalar := v.Shape{Depth: 1, Width: 1, StrLen: 2, Keys: []string{"a"}, Kinds: "nbifsao"}
	get := func(name string) interface{} {
		if v.Choose("has."+name, 2) == 0 {
			return nil
		}
		x := v.Value(name, scalar)
		body[name] = x
		return x
	}
	code := get("code")
	msg := get("message")
	data := get("data")
	var id interface{} = v.Int("id")
	badID := false
	switch v.Choose("id.kind", 3) {
	case 1:
		id = v.Pick("id.str", "", "7")
	case 2:
		id, badID = []interface{}{}, true
	}
	m, err := jlib.ParseBytes(hx.Enc(map[string]interface{}{"id": id, "error": body}))
	ci, codeInt := isInt(code)
	ms, msgStr := msg.(string)
	ok := (code == nil || codeInt) && (msg == nil || msgStr)
	if badID {
		v.Assert(err != nil, "an error whose id is neither text nor an integer is rejected")
		v.Reach("bad")
		return
	}
	v.Assert((err == nil) == ok, "an error body is accepted exactly when code and message have the right type")
	if err != nil {
		v.Reach("bad")
		return
	}
	v.Reach("ok")
	v.Assert(m.IsError(), "it is an error message")
	if !m.IsError() {
		return
	}
	e := m.MustError()
	v.Assert(m.MustId() == id, "the id is kept")
	v.Assert(e.Code == ci, "the code is kept")
	v.Assert(e.Message == ms, "the message is kept")
	v.Assert(reflect.DeepEqual(e.Data, data), "the data is kept")
}

// any JSON document of depth 2, width 2 (3 thorough), over the field names, well formed or not: never a panic, exactly one outcome
//v:reach=ok,bad time=60
func CheckAny() {
	b := v.JSON("doc", v.Shape{Depth: 2, Width: v.N(2, 3), StrLen: 1, Keys: []string{"id", "method", "params", "result", "error", "code", "ID"}, Kinds: "nbifsao!"})
	m, err := jlib.ParseBytes(b)
	v.Observe("err", err)
	v.Assert((m == nil) == (err != nil), "exactly one of a message and an error")
	if err != nil {
		v.Reach("bad")
		return
	}
	v.Reach("ok")
	n := 0
	for _, x := range []bool{m.IsRequest(), m.IsNotify(), m.IsResult(), m.IsError()} {
		if x {
			n++
		}
	}
	v.Assert(n == 1, "the message is of exactly one kind")
	_, err = jlib.MessageBytes(m)
	v.Assert(err == nil, "a parsed message can be encoded")
}

// any byte string of up to 4 (quick) or 6 (thorough) bytes: never a panic, never a message
//v:reach=bad time=60
func CheckGarbage() {
	s := v.String("text", v.N(4, 6))
	m, err := jlib.ParseBytes([]byte(s))
	v.Observe("err", err)
	v.Assert((m == nil) == (err != nil), "exactly one of a message and an error")
	v.Assert(err != nil, "a text this short holds no message")
	v.Reach("bad")
}
