// Package m04: derived messages keep everything except what was asked to change.
package m04

import (
	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m04.CheckReplaceId", CheckReplaceId)
var _ = v.Reg("m04.CheckFromRequest", CheckFromRequest)

// requests (list or single params), results and errors, built or parsed, with symbolic contents
//v:reach=request,result,error,single,noid
func CheckReplaceId() {
	id := hx.ID("id")
	newID := hx.ID("newid")
	trace := v.ASCII("trace", 2)
	doc := map[string]interface{}{"jsonrpc": "2.0"}
	kind := v.Choose("kind", 3)
	var m jlib.Message
	req := jlib.NewRequestMessage(id, "x", nil)
	switch kind {
	case 0:
		method := hx.Method("method")
		params, lst := hx.Params("p", 2)
		if _, ok := params.([]interface{}); !ok {
			v.Reach("single")
		}
		_ = lst
		m = jlib.NewRequestMessage(id, method, params)
		doc["method"] = method
		doc["params"] = params
		v.Reach("request")
	case 1:
		val := v.Value("val", hx.Val())
		m = jlib.NewResultMessage(req, val)
		doc["result"] = val
		v.Reach("result")
	case 2:
		val := v.Value("data", hx.Val())
		code := v.Int("code")
		m = jlib.NewErrorMessage(req, &jlib.RPCError{Code: code, Message: "e", Data: val})
		body := map[string]interface{}{"code": code, "message": "e"}
		if val != nil {
			body["data"] = val
		}
		doc["error"] = body
		v.Reach("error")
	}
	m.SetTraceId(trace)
	if kind > 0 && v.Choose("noid", 2) == 1 {
		// a response to a request that could not be read has no id
		in := map[string]interface{}{"jsonrpc": "2.0"}
		for k, x := range doc {
			in[k] = x
		}
		v.Assume(kind != 1 || doc["result"] != nil)
		if trace != "" {
			in["traceid"] = trace
		}
		if v.Choose("nullid", 2) == 1 {
			in["id"] = nil
		}
		p, err := jlib.ParseBytes(hx.Enc(in))
		v.Assert(err == nil, "a response without an id parses")
		if err != nil {
			return
		}
		m = p
		id = nil
		v.Reach("noid")
	} else if v.Choose("parsed", 2) == 1 {
		p, err := jlib.ParseBytes(hx.MustBytes(m))
		v.Assert(err == nil, "parses")
		if err != nil {
			return
		}
		m = p
	}
	before := hx.MustBytes(m)
	var d jlib.Message
	if kind == 0 && v.Choose("clone", 2) == 1 {
		d = m.(*jlib.RequestMessage).Clone(newID)
	} else {
		d = m.ReplaceId(newID)
	}
	after := hx.MustBytes(m)
	v.Assert(v.SameJSON(before, after), "the original is unchanged")
	v.Assert(m.MustId() == id && m.TraceId() == trace, "the original keeps its id and trace id")
	v.Assert(d.MustId() == newID, "the derived message has the new id")
	v.Assert(d.TraceId() == trace, "the derived message has the trace id")
	v.Assert(d.IsRequest() == m.IsRequest() && d.IsResult() == m.IsResult() && d.IsError() == m.IsError(), "the kind is kept")
	doc["id"] = newID
	if trace != "" {
		doc["traceid"] = trace
	}
	v.Assert(v.SameJSON(hx.MustBytes(d), hx.Enc(doc)), "the derived message is the same document with the new id")
}

// results and errors built from a request in every way the API offers
//v:reach=done
func CheckFromRequest() {
	id := hx.ID("id")
	trace := v.ASCII("trace", 2)
	req := jlib.NewRequestMessage(id, hx.Method("method"), nil)
	req.SetTraceId(trace)
	before := hx.MustBytes(req)
	code := v.Int("code")
	text := v.ASCII("text", 2)
	data := v.Value("data", hx.Val())
	body := &jlib.RPCError{Code: code, Message: text}
	full := body.WithData(data)
	v.Assert(body.Data == nil && body.Code == code && body.Message == text, "attaching data leaves the error value alone")
	v.Assert(full.Code == code && full.Message == text, "attaching data keeps code and message")
	var m jlib.Message
	how := v.Choose("how", 7)
	switch how {
	case 0:
		m = jlib.NewResultMessage(req, data)
	case 1:
		m = jlib.NewErrorMessage(req, full)
	case 2:
		m = jlib.NewErrorMessageFromId(id, trace, full)
	case 3:
		m = jlib.RPCErrorMessage(req, code, text, data)
	case 4:
		m = jlib.RPCErrorMessageFromId(id, trace, code, text, data)
	case 5:
		m = full.ToMessage(req)
	case 6:
		m = full.ToMessageFromId(id, trace)
	}
	v.Assert(m.MustId() == id, "the response has the request's id")
	v.Assert(m.TraceId() == trace, "the response has the request's trace id")
	doc := map[string]interface{}{"jsonrpc": "2.0", "id": id}
	if trace != "" {
		doc["traceid"] = trace
	}
	if how == 0 {
		v.Assert(m.IsResult(), "it is a result")
		doc["result"] = data
	} else {
		v.Assert(m.IsError(), "it is an error")
		b := map[string]interface{}{"code": code, "message": text}
		if data != nil {
			b["data"] = data
		}
		doc["error"] = b
	}
	v.Assert(v.SameJSON(hx.MustBytes(m), hx.Enc(doc)), "the response carries the given body")
	v.Assert(v.SameJSON(hx.MustBytes(req), before), "the request is unchanged")
	v.Reach("done")
}
