// Package m01: messages survive an encode/decode round trip.
package m01

import (
	"reflect"

	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m01.CheckRequest", CheckRequest)
var _ = v.Reg("m01.CheckNotify", CheckNotify)
var _ = v.Reg("m01.CheckResult", CheckResult)
var _ = v.Reg("m01.CheckError", CheckError)
var _ = v.Reg("m01.CheckNative", CheckNative)
var _ = v.Reg("m01.CheckReparse", CheckReparse)

func trip(m jlib.Message) jlib.Message {
	b := hx.MustBytes(m)
	v.Observe("doc", b)
	m2, err := jlib.ParseBytes(b)
	v.Assert(err == nil, "the encoded message parses")
	if err != nil {
		return nil
	}
	v.Assert(m2.TraceId() == m.TraceId(), "trace id survives")
	b2 := hx.MustBytes(m2)
	v.Assert(v.SameJSON(b, b2), "encoding the parsed message gives the same document")
	v.Assert(jlib.MessageString(m) == string(b), "MessageString is MessageBytes")
	p, err := jlib.EncodePretty(m)
	v.Assert(err == nil, "pretty encoding works")
	v.Assert(v.SameJSON([]byte(p), b), "the pretty encoding is the same document")
	return m2
}

// requests: id any int or ASCII string (3 bytes quick, 5 thorough), method ASCII, 0..2 params or a single value, each of depth/width 1 (2 thorough)
//v:reach=single,list
func CheckRequest() {
	id := hx.ID("id")
	method := hx.Method("method")
	params, want := hx.Params("p", 2)
	m := jlib.NewRequestMessage(id, method, params)
	m.SetTraceId(v.ASCII("trace", 2))
	v.Assert(reflect.DeepEqual(m.MustParams(), want), "the request holds the given params")
	m2 := trip(m)
	if m2 == nil {
		return
	}
	v.Assert(m2.IsRequest(), "a request comes back as a request")
	if !m2.IsRequest() {
		return
	}
	v.Assert(m2.MustId() == id, "the id survives")
	v.Assert(m2.MustMethod() == method, "the method survives")
	v.Assert(reflect.DeepEqual(m2.MustParams(), want), "the params survive")
	if _, ok := params.([]interface{}); ok {
		v.Reach("list")
	} else {
		v.Reach("single")
	}
}

// notifies with the same bounds
//v:reach=single,list
func CheckNotify() {
	method := hx.Method("method")
	params, want := hx.Params("p", 2)
	m := jlib.NewNotifyMessage(method, params)
	m.SetTraceId(v.ASCII("trace", 2))
	m2 := trip(m)
	if m2 == nil {
		return
	}
	v.Assert(m2.IsNotify(), "a notify comes back as a notify")
	if !m2.IsNotify() {
		return
	}
	v.Assert(m2.MustMethod() == method, "the method survives")
	v.Assert(reflect.DeepEqual(m2.MustParams(), want), "the params survive")
	if _, ok := params.([]interface{}); ok {
		v.Reach("list")
	} else {
		v.Reach("single")
	}
}

// results: any value of depth/width 1 (2 thorough), id int or string
//v:reach=null,value
func CheckResult() {
	id := hx.ID("id")
	req := jlib.NewRequestMessage(id, "m", nil)
	req.SetTraceId(v.ASCII("trace", 2))
	val := v.Value("result", hx.Val())
	m := jlib.NewResultMessage(req, val)
	m2 := trip(m)
	if m2 == nil {
		return
	}
	v.Assert(m2.IsResult(), "a result comes back as a result")
	if !m2.IsResult() {
		return
	}
	v.Assert(m2.MustId() == id, "the id survives")
	v.Assert(reflect.DeepEqual(m2.MustResult(), val), "the result survives")
	if val == nil {
		v.Reach("null")
	} else {
		v.Reach("value")
	}
}

// errors: any code, ASCII message of 2 bytes, any data or none, id int, string or null
//v:reach=data,nodata,noid
func CheckError() {
	var id interface{}
	if v.Choose("hasid", 2) == 1 {
		id = hx.ID("id")
	} else {
		v.Reach("noid")
	}
	code := v.Int("code")
	msg := v.ASCII("message", 2)
	var data interface{}
	if v.Choose("hasdata", 2) == 1 {
		data = v.Value("data", hx.Val())
		v.Reach("data")
	} else {
		v.Reach("nodata")
	}
	m := jlib.NewErrorMessageFromId(id, v.ASCII("trace", 2), &jlib.RPCError{Code: code, Message: msg, Data: data})
	m2 := trip(m)
	if m2 == nil {
		return
	}
	v.Assert(m2.IsError(), "an error comes back as an error")
	if !m2.IsError() {
		return
	}
	v.Assert(m2.MustId() == id, "the id survives")
	e := m2.MustError()
	v.Assert(e.Code == code, "the error code survives")
	v.Assert(e.Message == msg, "the error message survives")
	v.Assert(reflect.DeepEqual(e.Data, data), "the error data survives")
}

type point struct {
	X int    `json:"x"`
	Y string `json:"y"`
}

// native Go params and results: int64, uint64-range-safe int, bool, string, struct, pointer, map, typed slice; any id kind that Go offers for integers
//v:reach=done
func CheckNative() {
	id := v.Int("id")
	var x interface{}
	switch v.Choose("kind", 7) {
	case 0:
		x = v.Int64("i")
	case 1:
		x = v.Bool("b")
	case 2:
		x = v.ASCII("s", 3)
	case 3:
		x = point{v.Int("i"), v.ASCII("s", 2)}
	case 4:
		x = &point{v.Int("i"), v.ASCII("s", 2)}
	case 5:
		x = map[string]int{"k": v.Int("i")}
	case 6:
		x = int32(v.Int("i"))
	}
	list := v.Choose("list", 2) == 1
	var params interface{} = x
	if list {
		params = []interface{}{x, x}
	}
	var m jlib.Message
	switch v.Choose("msg", 3) {
	case 0:
		m = jlib.NewRequestMessage(id, "m", params)
	case 1:
		m = jlib.NewNotifyMessage("m", params)
	case 2:
		m = jlib.NewResultMessage(jlib.NewRequestMessage(id, "m", nil), x)
	}
	m2 := trip(m)
	if m2 == nil {
		return
	}
	if m2.IsRequestOrNotify() {
		ps := m2.MustParams()
		if list {
			v.Assert(len(ps) == 2, "two params come back")
			v.Assert(v.SameJSON(hx.Enc(ps), hx.Enc([]interface{}{x, x})), "native params keep their JSON value")
		} else {
			v.Assert(len(ps) == 1, "one param comes back")
			if len(ps) == 1 {
				v.Assert(v.SameJSON(hx.Enc(ps[0]), hx.Enc(x)), "a native single param keeps its JSON value")
			}
		}
	} else {
		v.Assert(v.SameJSON(hx.Enc(m2.MustResult()), hx.Enc(x)), "a native result keeps its JSON value")
	}
	v.Reach("done")
}

// any parsed request or notify document encodes back to a document with the same fields
//v:reach=req,ntf
func CheckReparse() {
	doc := map[string]interface{}{"jsonrpc": "2.0", "method": hx.Method("method")}
	p := v.Value("params", hx.Val())
	v.Assume(p != nil)
	doc["params"] = p
	withID := v.Choose("withid", 2) == 1
	if withID {
		doc["id"] = hx.ID("id")
	}
	if v.Choose("withtrace", 2) == 1 {
		t := v.ASCII("trace", 2)
		v.Assume(t != "")
		doc["traceid"] = t
	}
	in := hx.Enc(doc)
	m, err := jlib.ParseBytes(in)
	v.Assert(err == nil, "a well formed document parses")
	if err != nil {
		return
	}
	out := hx.MustBytes(m)
	v.Assert(v.SameJSON(in, out), "parsing and encoding gives the same document")
	if m.IsRequest() {
		v.Reach("req")
	} else {
		v.Reach("ntf")
	}
}
