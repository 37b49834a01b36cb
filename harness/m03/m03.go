// Package m03: message kind predicates and accessors agree.
package m03

import (
	"reflect"

	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m03.CheckKinds", CheckKinds)

// every message kind, built by constructor, by parsing or by re-identification, with symbolic contents and trace id; results and errors also without an id
//v:reach=request,notify,result,error
func CheckKinds() {
	id := hx.ID("id")
	method := hx.Method("method")
	val := v.Value("val", hx.Val())
	code := v.Int("code")
	body := &jlib.RPCError{Code: code, Message: v.ASCII("msg", 2), Data: nil}
	params := []interface{}{val}
	req := jlib.NewRequestMessage(id, method, params)
	var m jlib.Message
	kind := v.Choose("kind", 4)
	switch kind {
	case 0:
		m = req
	case 1:
		m = jlib.NewNotifyMessage(method, params)
	case 2:
		m = jlib.NewResultMessage(req, val)
	case 3:
		m = jlib.NewErrorMessage(req, body)
	}
	// set on the message itself as well, a parsed message carries it over
	trace := v.ASCII("trace", 1)
	m.SetTraceId(trace)
	if kind > 1 && v.Choose("noid", 2) == 1 {
		// only a parsed message can be without an id
		doc := map[string]interface{}{"jsonrpc": "2.0", "traceid": trace}
		if kind == 2 {
			v.Assume(val != nil)
			doc["result"] = val
		} else {
			doc["error"] = body
		}
		if v.Choose("nullid", 2) == 1 {
			doc["id"] = nil
		}
		m2, err := jlib.ParseBytes(hx.Enc(doc))
		v.Assert(err == nil, "a response without an id parses")
		if err != nil {
			return
		}
		m = m2
		id = nil
	}
	switch v.Choose("via", 3) {
	case 1:
		if kind == 2 && val == nil && id == nil {
			return
		}
		m2, err := jlib.ParseBytes(hx.MustBytes(m))
		v.Assert(err == nil, "parses")
		if err != nil {
			return
		}
		m = m2
	case 2:
		if kind != 1 {
			id = hx.ID("newid")
			m = m.ReplaceId(id)
		} else {
			r := hx.Panics(func() { m.ReplaceId(id) })
			v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "re-identifying a notify panics with a message type error")
		}
	}
	v.Assert(m.IsRequest() == (kind == 0), "IsRequest")
	v.Assert(m.IsNotify() == (kind == 1), "IsNotify")
	v.Assert(m.IsResult() == (kind == 2), "IsResult")
	v.Assert(m.IsError() == (kind == 3), "IsError")
	v.Assert(m.IsRequestOrNotify() == (kind == 0 || kind == 1), "IsRequestOrNotify")
	v.Assert(m.IsResultOrError() == (kind == 2 || kind == 3), "IsResultOrError")

	var got interface{}
	r := hx.Panics(func() { got = m.MustId() })
	if kind == 1 {
		v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "MustId of a notify panics with a message type error")
	} else {
		v.Assert(r == nil, "MustId does not panic on a message with an id")
		v.Assert(got == id, "MustId is the id")
	}
	r = hx.Panics(func() { got = m.MustMethod() })
	if kind <= 1 {
		v.Assert(r == nil, "MustMethod does not panic")
		v.Assert(got == method, "MustMethod is the method")
	} else {
		v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "MustMethod panics with a message type error")
	}
	var ps []interface{}
	r = hx.Panics(func() { ps = m.MustParams() })
	if kind <= 1 {
		v.Assert(r == nil, "MustParams does not panic")
		v.Assert(reflect.DeepEqual(ps, params), "MustParams are the params")
	} else {
		v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "MustParams panics with a message type error")
	}
	got = nil
	r = hx.Panics(func() { got = m.MustResult() })
	if kind == 2 {
		v.Assert(r == nil, "MustResult does not panic")
		v.Assert(reflect.DeepEqual(got, val), "MustResult is the result")
	} else {
		v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "MustResult panics with a message type error")
	}
	var e *jlib.RPCError
	r = hx.Panics(func() { e = m.MustError() })
	if kind == 3 {
		v.Assert(r == nil, "MustError does not panic")
		v.Assert(e != nil && e.Code == code && e.Message == body.Message, "MustError is the error body")
	} else {
		v.Assert(hx.IsCode(r, jlib.ErrMessageType.Code), "MustError panics with a message type error")
	}
	v.Reach([]string{"request", "notify", "result", "error"}[kind])
}
