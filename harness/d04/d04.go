// Package d04: handler failures become the right JSON-RPC error.
package d04

import (
	"errors"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hd"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("d04.CheckRequest", CheckRequest)
var _ = v.Reg("d04.CheckNotify", CheckNotify)
var _ = v.Reg("d04.CheckRuntime", CheckRuntime)
var _ = v.Reg("d04.CheckStray", CheckStray)
var _ = v.Reg("d04.CheckOther", CheckOther)

// feed reports what a Feed did.
func feed(a *jlibhttp.Actor, m jlib.Message) (res jlib.Message, err error, p interface{}) {
	p = hx.Panics(func() { res, err = hd.FeedFrom(a, m) })
	return
}

// requests over every failing outcome: JSON-RPC errors with any code, message of at most 2 bytes and data of depth 1, wrapped responses, simple responses and plain errors, under up to two wrappers, returned or panicked, from plain, typed and missing handlers of the actor or its child, recovery on and off
//v:reach=rpc,wrapped,internal,propagates
func CheckRequest() {
	o := hd.Any("o", "plain", "rpc", "wrapped", "simple")
	rec := v.Choose("recover", 2) == 0
	a := build(o, rec)
	req := hd.Request("m", []interface{}{1})
	res, err, p := feed(a, req)
	if o.Panic && !rec {
		v.Reach("propagates")
		v.Assert(p != nil && p == interface{}(o.Err), "a panic propagates when recovery is off")
		return
	}
	v.Assert(p == nil, "an error or a panic with an error does not escape")
	if p != nil {
		return
	}
	switch o.Kind {
	case "rpc":
		v.Reach("rpc")
		v.Assert(err == nil && res != nil && res.IsError(), "a JSON-RPC error is answered as an error message")
		if err == nil && res != nil && res.IsError() {
			e := res.MustError()
			v.Assert(v.And(e.Code == o.RPC.Code, e.Message == o.RPC.Message), "the response carries exactly that code and message")
			v.Assert(v.SameJSON(hx.Enc(e.Data), hx.Enc(o.RPC.Data)), "the response carries exactly that data")
		}
	case "wrapped":
		v.Reach("wrapped")
		var w *jlibhttp.WrappedResponse
		v.Assert(res == nil && errors.As(err, &w) && w == o.Resp, "a wrapped response is handed back as such")
	default:
		v.Reach("internal")
		v.Assert(err == nil && res != nil && res.IsError(), "any other error is answered as an error message")
		if err == nil && res != nil && res.IsError() {
			e := res.MustError()
			v.Assert(v.And(e.Code == -32603, e.Message == "internal error", e.Data == nil), "any other error is the internal error and leaks no detail")
		}
	}
}

func build(o *hd.Outcome, rec bool) *jlibhttp.Actor {
	a := jlibhttp.NewActor()
	t := a
	if v.Choose("child", 2) == 1 {
		t = jlibhttp.NewActor()
		a.AddChild(t)
	}
	switch v.Choose("site", 3) {
	case 0:
		t.OnRequest("m", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) { return o.Do() })
	case 1:
		t.OnTyped("m", func(x int) (string, error) {
			_, err := o.Do()
			return "ok", err
		})
	default:
		t = a
		a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return o.Do() })
	}
	t.RecoverFromPanic = rec
	return a
}

// notifies over the same outcomes: never a response, the error handed back, panics recovered exactly when recovery is on
//v:reach=propagates,error
func CheckNotify() {
	o := hd.Any("o", "plain", "rpc", "wrapped", "simple")
	rec := v.Choose("recover", 2) == 0
	a := build(o, rec)
	res, err, p := feed(a, hd.Notify("m", []interface{}{1}))
	if o.Panic && !rec {
		v.Reach("propagates")
		v.Assert(p != nil && p == interface{}(o.Err), "a panic propagates when recovery is off")
		return
	}
	v.Reach("error")
	v.Assert(p == nil, "an error or a panic with an error does not escape")
	v.Assert(res == nil && err != nil, "a failing notify gives an error and no response")
	if o.Resp != nil {
		var w *jlibhttp.WrappedResponse
		v.Assert(errors.As(err, &w) && w == o.Resp, "a wrapped response is handed back as such")
	}
}

// panics with values that are not errors (text, integers, structs) from plain, typed and missing handlers on requests, notifies and stray results, recovery on and off
//v:reach=propagates
func CheckOther() {
	o := &hd.Outcome{Other: []interface{}{"text", v.Int("n"), 3.5, struct{ A int }{v.Int("a")}}[v.Choose("value", 4)]}
	a := build(o, v.Choose("recover", 2) == 0)
	var m jlib.Message = hd.Request("m", []interface{}{1})
	switch v.Choose("message", 3) {
	case 1:
		m = hd.Notify("m", []interface{}{1})
	case 2:
		m = jlib.NewResultMessage(m, 1)
		a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return o.Do() })
	}
	_, _, p := feed(a, m)
	v.Reach("propagates")
	v.Assert(p == o.Other, "a panic with a value that is not an error propagates unchanged")
}

// handlers that fail with a runtime error: nil map write, index out of range, nil dereference, failed conversion, division by zero
//v:reach=recovered,propagates
func CheckRuntime() {
	a := jlibhttp.NewActor()
	n := v.Int("n")
	bad := v.Choose("bad", 5)
	a.On("m", func(params []interface{}) (interface{}, error) {
		switch bad {
		case 0:
			var m map[string]int
			m["a"] = 1
		case 1:
			return params[n], nil
		case 2:
			var p *hd.Outcome
			return p.Kind, nil
		case 3:
			return params[0].(int), nil
		}
		return 10 / n, nil
	})
	a.RecoverFromPanic = v.Choose("recover", 2) == 0
	res, err, p := feed(a, hd.Request("m", []interface{}{"x"}))
	if p != nil {
		v.Assert(!a.RecoverFromPanic, "a panic with an error does not escape when recovery is on")
		v.Reach("propagates")
		return
	}
	v.Assert(err == nil && res != nil, "the request is answered")
	if res != nil && res.IsError() {
		v.Reach("recovered")
		v.Assert(a.RecoverFromPanic, "a panic propagates when recovery is off")
		e := res.MustError()
		v.Assert(v.And(e.Code == -32603, e.Message == "internal error", e.Data == nil), "a runtime failure is the internal error and leaks no detail")
	}
}

// result and error messages nobody asked for, handed to the missing handler, over the same outcomes: never a response, the error handed back, panics recovered exactly when recovery is on
//v:reach=propagates,error
func CheckStray() {
	o := hd.Any("o", "plain", "rpc", "wrapped", "simple")
	rec := v.Choose("recover", 2) == 0
	a := jlibhttp.NewActor()
	a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return o.Do() })
	a.RecoverFromPanic = rec
	var m jlib.Message = jlib.NewResultMessage(jlib.NewRequestMessage(hx.ID("id"), "m", nil), 1)
	if v.Choose("stray", 2) == 1 {
		m = jlib.ErrTimeout.ToMessageFromId(hx.ID("id"), "")
	}
	res, err, p := feed(a, m)
	if o.Panic && !rec {
		v.Reach("propagates")
		v.Assert(p != nil && p == interface{}(o.Err), "a panic propagates when recovery is off")
		return
	}
	v.Reach("error")
	v.Assert(p == nil, "an error or a panic with an error does not escape")
	v.Assert(res == nil && err != nil, "a failing stray message gives an error and no response")
}
