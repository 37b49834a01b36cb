// Package d01: every request gets exactly one response with its own id.
package d01

import (
	"context"
	"net/http"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"verif/harness/hd"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("d01.CheckRequest", CheckRequest)
var _ = v.Reg("d01.CheckNotify", CheckNotify)
var _ = v.Reg("d01.CheckTree", CheckTree)
var _ = v.Reg("d01.CheckStray", CheckStray)
var _ = v.Reg("d01.CheckOwn", CheckOwn)

func schema() jlibhttp.HandlerSetter {
	s := jlibschema.NewMethodSchema()
	s.Params = []jlibschema.Schema{&jlibschema.BoolSchema{}}
	return jlibhttp.WithSchema(s)
}

// answered is the property for a request.
func answered(req *jlib.RequestMessage, res jlib.Message, err error) {
	v.Assert((res == nil) != (err == nil), "a request gets exactly one of a response and an error")
	if res == nil {
		v.Reach("error")
		return
	}
	v.Assert(res.IsResultOrError(), "the response is a result or an error")
	v.Assert(res.MustId() == req.Id, "the response has the request's id")
	v.Assert(res.TraceId() == req.TraceId(), "the response has the request's trace id")
	if res.IsResult() {
		v.Reach("result")
	} else {
		v.Reach("errormessage")
	}
}

// setup makes an actor whose method, missing handler or child's method may be what answers.
func setup(o *hd.Outcome) (*jlibhttp.Actor, string) {
	a := jlibhttp.NewActor()
	t := a
	if v.Choose("child", 2) == 1 {
		t = jlibhttp.NewActor()
		a.AddChild(jlibhttp.NewActor())
		a.AddChild(t)
	}
	method := "a"
	switch v.Choose("site", 6) {
	case 0:
		t.On("a", func(params []interface{}) (interface{}, error) { return o.Do() })
	case 1:
		t.OnRequest("a", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) { return o.Do() }, schema())
	case 2:
		t.ValidateSchema = false
		t.OnRequest("a", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) { return o.Do() }, schema())
	case 3:
		a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return o.Do() })
	case 4:
		t.On("b", func(params []interface{}) (interface{}, error) { return 1, nil })
	default:
		t.OnTyped("a", func(x bool) (interface{}, error) { return o.Do() })
	}
	return a, method
}

func params() interface{} {
	if v.Choose("params", 2) == 0 {
		return []interface{}{v.Bool("p")}
	}
	return []interface{}{"text"}
}

// a request with any id and trace id to an actor or its second child, with and without schema, typed, missing and absent handlers, over every handler outcome (any value of depth 1, plain, JSON-RPC, wrapped and simple errors under up to two wrappers, returned or panicked)
//v:reach=result,errormessage,error
func CheckRequest() {
	o := hd.Any("o")
	a, method := setup(o)
	req := hd.Request(method, params())
	res, err := hd.FeedFrom(a, req)
	answered(req, res, err)
}

// the same for a notify, whose handler may also return any kind of message: never a response message
//v:reach=error,none
func CheckNotify() {
	o := hd.Any("o", "value", "message", "plain", "rpc", "wrapped", "simple")
	a, method := setup(o)
	m := jlib.NewNotifyMessage(method, params())
	m.SetTraceId(v.ASCII("trace", 2))
	res, err := hd.FeedFrom(a, m)
	v.Assert(res == nil, "a notify gets no response message")
	if err != nil {
		v.Reach("error")
	} else {
		v.Reach("none")
	}
}

// actors two levels deep, each of three with or without handlers for a and missing methods, fed any method name of at most 2 bytes
//v:reach=result,errormessage
func CheckTree() {
	mk := func(name string) *jlibhttp.Actor {
		a := jlibhttp.NewActor()
		if v.Choose(name+".a", 2) == 1 {
			a.On("a", func(params []interface{}) (interface{}, error) { return name, nil })
		}
		switch v.Choose(name+".missing", 3) {
		case 1:
			a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return nil, nil })
		case 2:
			a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return nil, jlib.ErrNotAllowed })
		}
		return a
	}
	root, child, grand := mk("root"), mk("child"), mk("grand")
	child.AddChild(grand)
	root.AddChild(child)
	m := v.ASCII("method", 2)
	v.Assume(m != "")
	req := hd.Request(m, []interface{}{})
	res, err := hd.FeedFrom(root, req)
	answered(req, res, err)
	n, err := hd.FeedFrom(root, jlib.NewNotifyMessage(m, nil))
	v.Assert(n == nil, "a notify gets no response message")
}

// result and error messages given to an actor with and without a missing handler never produce a response
//v:reach=done
func CheckStray() {
	a := jlibhttp.NewActor()
	seen := 0
	if v.Choose("missing", 2) == 1 {
		o := hd.Any("o", "value", "message", "plain", "rpc")
		o.Panic = false
		a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { seen++; return o.Do() })
	}
	a.On("a", func(params []interface{}) (interface{}, error) { v.Assert(false, "a method handler only runs for requests"); return nil, nil })
	var m jlib.Message = jlib.NewResultMessage(jlib.NewRequestMessage(hx.ID("id"), "a", nil), v.Value("r", hx.Val()))
	if v.Choose("kind", 2) == 1 {
		m = jlib.ErrTimeout.ToMessageFromId(hx.ID("id"), "")
	}
	res, _ := hd.FeedFrom(a, m)
	v.Assert(res == nil, "a message that is not a request gets no response message")
	v.Assert(seen <= 1, "the missing handler runs at most once")
	v.Reach("done")
}

type key struct{}

// handlers registered in every way (plain, with context or request, typed, missing) that answer with a response they make from the request: it passes on as it is, and what the handler is given is the request's own message, context, HTTP request, session and params
//v:reach=result,error
func CheckOwn() {
	r := &http.Request{Method: "POST", Header: http.Header{}, RemoteAddr: "127.0.0.1:9"}
	ctx := context.WithValue(context.Background(), key{}, "mine")
	session := &hd.Session{ID: "s"}
	req := hd.Request("m", []interface{}{v.Int("x"), "y"})
	req0 := jlibhttp.NewRPCRequest(ctx, req, jlibhttp.TransportWebsocket, r)
	v.Set(req0, "session", session)
	var own jlib.Message
	switch v.Choose("own", 3) {
	case 0:
		own = jlib.NewResultMessage(req, v.Value("r", hx.Val()))
	case 1:
		own = hd.RPCError("e").ToMessage(req)
	default:
		own = jlib.NewErrorMessage(req, hd.RPCError("e"))
	}
	runs := 0
	isCtx := func(c context.Context) {
		v.Assert(c.Value(key{}) == interface{}("mine"), "the handler is given the request's context")
	}
	isReq := func(q *jlibhttp.RPCRequest) {
		v.Assert(q.Msg() == jlib.Message(req), "the handler is given the request's message")
		v.Assert(q.HttpRequest() == r, "the handler is given the HTTP request")
		v.Assert(q.Session() == jlibhttp.RPCSession(session), "the handler is given the session")
		isCtx(q.Context())
	}
	isParams := func(ps ...interface{}) {
		runs++
		v.Assert(len(ps) == 2 && ps[0] == req.Params[0] && ps[1] == interface{}("y"), "the handler is given the params")
	}
	root := jlibhttp.NewActor()
	a := root
	if v.Choose("child", 2) == 1 {
		a = jlibhttp.NewActor()
		root.AddChild(jlibhttp.NewActor())
		root.AddChild(a)
	}
	switch v.Choose("site", 7) {
	case 0:
		a.On("m", func(ps []interface{}) (interface{}, error) { isParams(ps...); return own, nil })
	case 1:
		a.OnContext("m", func(c context.Context, ps []interface{}) (interface{}, error) { isCtx(c); isParams(ps...); return own, nil })
	case 2:
		a.OnRequest("m", func(q *jlibhttp.RPCRequest, ps []interface{}) (interface{}, error) { isReq(q); isParams(ps...); return own, nil })
	case 3:
		a.OnTyped("m", func(x int, y string) (interface{}, error) { isParams(x, y); return own, nil })
	case 4:
		v.Assert(a.OnTypedContext("m", func(c context.Context, x int, y string) (interface{}, error) { isCtx(c); isParams(x, y); return own, nil }) == nil, "the handler is registered")
	case 5:
		v.Assert(a.OnTypedRequest("m", func(q *jlibhttp.RPCRequest, x int, y string) (jlib.Message, error) { isReq(q); isParams(x, y); return own, nil }) == nil, "the handler is registered")
	default:
		root.OnMissing(func(q *jlibhttp.RPCRequest) (interface{}, error) { isReq(q); isParams(q.Msg().MustParams()...); return own, nil })
	}
	res, err := root.Feed(req0)
	answered(req, res, err)
	v.Assert(runs == 1, "the handler runs once")
	v.Assert(res == own, "a response the handler makes passes on as it is")
	if res == own && own.IsResult() {
		v.Reach("result")
	} else {
		v.Reach("error")
	}
}
