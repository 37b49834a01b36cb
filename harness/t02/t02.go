// Package t02: the HTTP/1.1 client reports exactly what the server said.
package t02

import (
	"context"
	"encoding/json"
	"errors"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hx"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t02.CheckCall", CheckCall)
var _ = v.Reg("t02.CheckBody", CheckBody)
var _ = v.Reg("t02.CheckLong", CheckLong)
var _ = v.Reg("t02.CheckUnwrap", CheckUnwrap)
var _ = v.Reg("t02.CheckSend", CheckSend)
var _ = v.Reg("t02.CheckUnencodable", CheckUnencodable)
var _ = v.Reg("t02.CheckSequence", CheckSequence)
var _ = v.Reg("t02.CheckTogether", CheckTogether)

func client(p *nx.Peer, opts ...jlibhttp.ClientOptions) *jlibhttp.H1Client {
	u, err := url.Parse(p.URL)
	v.Assert(err == nil, "the URL is good")
	return jlibhttp.NewH1Client(u, opts...)
}

func extra() http.Header {
	switch v.Choose("extra", 4) {
	case 1:
		return http.Header{"X-One": []string{v.StringOf("one", "ab1", 2)}}
	case 2:
		return http.Header{"X-One": []string{"b", "a"}, "X-Two": []string{v.StringOf("two", "ab1", 2)}}
	case 3:
		return http.Header{}
	}
	return nil
}

// sent states what the peer must have received for a message.
func sent(p *nx.Peer, i int, m jlib.Message, trace string, extra http.Header) {
	v.Assert(len(p.Seen) == i+1, "one HTTP request is made")
	if len(p.Seen) <= i {
		return
	}
	s := p.Seen[i]
	v.Assert(s.Method == "POST" && s.Path == "/rpc", "the request is a POST to the server's path")
	v.Assert(s.Header.Get("X-Trace-Id") == trace, "the trace id is in the trace header")
	for k, vs := range extra {
		v.Assert(nx.Contains(s.Header[k], vs), "every extra header is sent")
	}
	got, err := jlib.ParseBytes(s.Body)
	v.Assert(err == nil, "the request body is a JSON-RPC document")
	if err != nil {
		return
	}
	v.Assert(got.IsRequest() == m.IsRequest() && got.IsNotify() == m.IsNotify(), "the body is the message")
	if m.IsRequest() && got.IsRequest() {
		v.Assert(got.MustId() == m.MustId(), "the body has the message's id")
	}
	if m.IsRequestOrNotify() && got.IsRequestOrNotify() {
		v.Assert(got.MustMethod() == m.MustMethod(), "the body has the message's method")
		v.Assert(v.SameJSON(hx.Enc(got.MustParams()), hx.Enc(m.MustParams())), "the body has the message's params")
	}
}

// message makes a request and returns what it must still be after the call.
func message(trace string) *jlib.RequestMessage {
	ps := []interface{}{}
	if v.Choose("params", 2) == 1 {
		ps = append(ps, v.Value("p", hx.Val()))
	}
	m := jlib.NewRequestMessage(hx.ID("id"), "m", ps)
	m.SetTraceId(trace)
	return m
}

func status(name string) int {
	s := v.Int(name)
	v.Assume(v.And(s >= 200, s <= 999, s != 200, s != 204, s != 304))
	return s
}

// CheckCall: one call against a server that answers, refuses, breaks or
// stays silent.
//
// Any request message with a parameter of depth 1, trace ids of up to 2
// letters, 0 to 3 extra header values; an answer of status 200 with a result
// or error message, or of any other status but 204 and 304 with a body of up
// to 3 bytes (no Location header); timeouts of 1 s or the default
// and an own deadline of the caller of 300 ms, 20 s or none; the answer may stop
// inside its body and stay open; the answer may name a trace id of its own.
//
//v:reach=result,error,status,timeout,failed,cancelled time=60 ttime=300 samples=8
func CheckCall() {
	trace := v.StringOf("tracetext", "ab1", 2)
	m := message(trace)
	r := nx.Reply{Kind: []string{"answer", "status", "short", "shortstatus", "refuse", "drop", "silent", "stall"}[v.Choose("peer", 8)], Code: 200}
	kind := r.Kind
	var rpcErr *jlib.RPCError
	var result interface{}
	id := m.Id
	switch kind {
	case "answer":
		if v.Choose("iserror", 2) == 1 {
			rpcErr = &jlib.RPCError{Code: v.Int("code"), Message: v.ASCII("text", 1)}
			r.Body = hx.MustBytes(rpcErr.ToMessageFromId(id, v.Pick("theirs", "", "other")))
		} else {
			result = v.Value("result", hx.Val())
			answer := jlib.NewResultMessage(jlib.NewRequestMessage(id, "m", nil), result)
			answer.SetTraceId(v.Pick("theirs", "", "other"))
			r.Body = hx.MustBytes(answer)
		}
	case "status", "shortstatus":
		r.Code = status("status")
		r.Body = []byte(v.String("body", 2))
		r.Kind = map[string]string{"status": "answer", "shortstatus": "short"}[kind]
	case "short", "stall":
		r.Body = []byte(v.Pick("part", `{"id":1,"resu`, `{"id":1,"result":2}`, ``))
	}
	p := nx.Serve("/rpc", func(int) nx.Reply { return r })
	defer p.Close()
	opts := []jlibhttp.ClientOptions{}
	limit := 5 * time.Second
	if kind == "silent" || kind == "stall" || v.Choose("options", 2) == 1 {
		opts = append(opts, jlibhttp.ClientOptions{Timeout: 1})
		limit = time.Second
	}
	c := client(p, opts...)
	x := extra()
	c.SetExtraHeader(x)
	ctx := context.Background()
	cancelled := kind == "answer" && v.Choose("cancelled", 2) == 1
	if cancelled {
		cc, cancel := context.WithCancel(ctx)
		cancel()
		ctx = cc
	}
	// the caller's own limit: none, one that can be cancelled, one that comes first, one that comes later
	if !cancelled && (kind == "silent" || kind == "stall") {
		switch v.Choose("context", 4) {
		case 1:
			cc, cancel := context.WithCancel(ctx)
			defer cancel()
			ctx = cc
		case 2:
			cc, cancel := context.WithTimeout(ctx, 300*time.Millisecond)
			defer cancel()
			ctx = cc
			limit = 300 * time.Millisecond
		case 3:
			cc, cancel := context.WithTimeout(ctx, 20*time.Second)
			defer cancel()
			ctx = cc
		}
	}
	idBefore, paramsBefore := m.Id, hx.Enc(m.MustParams())
	start := time.Now()
	res, err := c.Call(ctx, m)
	took := time.Since(start)
	v.Assert(m.Id == idBefore && m.Method == "m" && m.TraceId() == trace, "the caller's message keeps its id, method and trace id")
	v.Assert(v.SameJSON(hx.Enc(m.MustParams()), paramsBefore), "the caller's message keeps its params")
	v.Assert((res == nil) == (err != nil), "a call gives exactly one of a message and an error")
	var wrapped *jlibhttp.WrappedResponse
	var simple *jlibhttp.SimpleResponse
	if cancelled {
		v.Reach("cancelled")
		v.Assert(err != nil, "a cancelled call fails")
		return
	}
	if kind != "refuse" {
		sent(p, 0, m, trace, x)
	}
	switch kind {
	case "answer":
		v.Assert(err == nil, "a good answer is no error")
		if res == nil {
			return
		}
		v.Assert(res.MustId() == id, "the message returned is the server's")
		v.Assert(res.TraceId() == trace, "the message returned has the request's trace id")
		if rpcErr != nil {
			v.Reach("error")
			v.Assert(res.IsError(), "an error message is returned as one")
			if res.IsError() {
				v.Assert(res.MustError().Code == rpcErr.Code && res.MustError().Message == rpcErr.Message, "the error is the server's")
			}
		} else {
			v.Reach("result")
			v.Assert(res.IsResult(), "a result message is returned as one")
			if res.IsResult() {
				v.Assert(v.SameJSON(hx.Enc(res.MustResult()), hx.Enc(result)), "the result is the server's")
			}
		}
	case "status":
		v.Reach("status")
		v.Assert(errors.As(err, &wrapped), "another status gives a wrapped response")
		if wrapped != nil {
			v.Assert(wrapped.Response.StatusCode == r.Code, "the wrapped response has the server's status")
			v.Assert(string(wrapped.Body) == string(r.Body), "the wrapped response has the server's body")
		}
	case "silent":
		v.Reach("timeout")
		v.Assert(errors.As(err, &simple), "a timeout gives a timeout response")
		if simple != nil {
			v.Assert(simple.Code == http.StatusRequestTimeout, "a timeout gives status 408")
		}
		v.Assert(took < limit+time.Second, "a call ends within the timeout")
	default:
		v.Reach("failed")
		v.Assert(err != nil, "any other failure is an error")
		v.Assert(!errors.As(err, &wrapped), "an answer that broke off is not given as the server's")
		v.Assert(took < limit+time.Second, "a call ends within the timeout")
	}
}

// CheckBody: a 200 answer with any body.
//
// Every JSON document of depth 2 with up to 3 members named id, result, error,
// method, params, and malformed texts; what it means is what the message
// parser says (M01 to M03).
//
//v:reach=good,bad,notanswer time=60 ttime=400
func CheckBody() {
	body := v.JSON("body", v.Shape{Depth: 2, Width: 3, StrLen: 1, Keys: []string{"id", "method", "params", "result", "error"}, Kinds: "nbisao!"})
	p := nx.Serve("/rpc", func(int) nx.Reply { return nx.Reply{Kind: "answer", Code: 200, Body: body} })
	defer p.Close()
	want, perr := jlib.ParseBytes(body)
	m := jlib.NewRequestMessage(1, "m", nil)
	res, err := client(p).Call(context.Background(), m)
	v.Assert((res == nil) == (err != nil), "a call gives exactly one of a message and an error")
	switch {
	case perr != nil:
		v.Reach("bad")
		v.Assert(err != nil, "a 200 answer that is no JSON-RPC document is an error")
	case !want.IsResultOrError():
		v.Reach("notanswer")
		v.Assert(err != nil, "a 200 answer that is neither result nor error message is an error")
	default:
		v.Reach("good")
		v.Assert(err == nil, "a 200 answer holding a result or error message is returned")
		if err == nil {
			v.Assert(res.IsResult() == want.IsResult() && res.MustId() == want.MustId(), "the message is the server's")
		}
	}
}

// CheckUnwrap: UnwrapCall gives the result in the caller's variable, or the
// error.
//
// Results of any kind of depth 1 into an any-typed or integer variable; error messages, statuses and any other message kinds.
//
//v:reach=result,error,status,odd time=30
func CheckUnwrap() {
	var r nx.Reply
	req := jlib.NewRequestMessage(1, "m", nil)
	kind := v.Choose("answer", 4)
	var rpcErr *jlib.RPCError
	var result interface{}
	r = nx.Reply{Kind: "answer", Code: 200}
	switch kind {
	case 0:
		result = v.Value("result", hx.Val())
		r.Body = hx.MustBytes(jlib.NewResultMessage(req, result))
	case 1:
		rpcErr = &jlib.RPCError{Code: v.Int("code"), Message: v.ASCII("text", 1)}
		r.Body = hx.MustBytes(rpcErr.ToMessage(req))
	case 2:
		r.Code = status("status")
	case 3:
		r.Body = []byte(v.Pick("odd", `{"method":"x","params":[]}`, `{"id":1,"method":"x","params":[]}`, `{}`, ``, `null`, `[]`, `1`, `{"id":null}`))
	}
	p := nx.Serve("/rpc", func(int) nx.Reply { return r })
	defer p.Close()
	c := client(p)
	var out interface{}
	if kind == 0 && v.Choose("typed", 2) == 1 {
		number := 17
		err := c.UnwrapCall(context.Background(), req, &number)
		if n, ok := result.(json.Number); ok {
			if i, e := n.Int64(); e == nil {
				v.Assert(err == nil && number == int(i), "the variable gets the result")
			}
		} else if result != nil {
			v.Assert(err != nil, "a result that does not fit the variable is an error")
		}
		return
	}
	err := c.UnwrapCall(context.Background(), req, &out)
	switch kind {
	case 0:
		v.Reach("result")
		v.Assert(err == nil, "a result is no error")
		v.Assert(v.SameJSON(hx.Enc(out), hx.Enc(result)), "the variable gets the result")
	case 1:
		v.Reach("error")
		var e *jlib.RPCError
		v.Assert(errors.As(err, &e), "an error message is returned as an error")
		if e != nil {
			v.Assert(e.Code == rpcErr.Code && e.Message == rpcErr.Message, "the error is the server's")
		}
		v.Assert(out == nil, "an error leaves the variable alone")
	case 2:
		v.Reach("status")
		var wrapped *jlibhttp.WrappedResponse
		v.Assert(errors.As(err, &wrapped) && wrapped.Response.StatusCode == r.Code, "another status gives a wrapped response")
	default:
		v.Reach("odd")
		v.Assert(err != nil, "an answer that is neither result nor error is an error")
	}
}

// CheckSend: one-way messages.
//
// A notify or a request, trace ids of up to 2 letters, extra headers; answers
// of any status, refused, broken and silent connections.
//
//v:reach=sent,status,failed time=30
func CheckSend() {
	trace := v.StringOf("tracetext", "ab1", 2)
	var m jlib.Message = jlib.NewNotifyMessage("m", []interface{}{v.Bool("p")})
	if v.Choose("request", 2) == 1 {
		m = jlib.NewRequestMessage(hx.ID("id"), "m", []interface{}{v.Bool("p")})
	}
	m.SetTraceId(trace)
	r := nx.Reply{Kind: "answer", Code: 200}
	kind := v.Choose("peer", 5)
	opts := []jlibhttp.ClientOptions{}
	switch kind {
	case 4:
		r.Kind = "silent"
		opts = append(opts, jlibhttp.ClientOptions{Timeout: 1})
	case 1:
		r.Code = status("status")
	case 2:
		r.Kind = "refuse"
	case 3:
		r.Kind = "drop"
	}
	p := nx.Serve("/rpc", func(int) nx.Reply { return r })
	defer p.Close()
	c := client(p, opts...)
	x := extra()
	c.SetExtraHeader(x)
	err := c.Send(context.Background(), m)
	v.Assert(m.TraceId() == trace, "the caller's message keeps its trace id")
	if kind != 2 {
		sent(p, 0, m, trace, x)
	}
	switch kind {
	case 0:
		v.Reach("sent")
		v.Assert(err == nil, "an accepted message is no error")
	case 1:
		v.Reach("status")
		var wrapped *jlibhttp.WrappedResponse
		v.Assert(errors.As(err, &wrapped) && wrapped.Response.StatusCode == r.Code, "another status gives a wrapped response")
	default:
		v.Reach("failed")
		v.Assert(err != nil, "a failure is an error")
	}
}

type bad struct{}

func (bad) MarshalJSON() ([]byte, error) { return nil, errors.New("no encoding") }

// CheckUnencodable: messages that JSON cannot hold.
//
// A call or a one-way request or notify with a channel, a function or a value
// whose encoder fails in its params, any trace id of up to 2 letters; nothing
// is sent and the message stays as it was; a good call afterwards works.
//
//v:reach=done time=30
func CheckUnencodable() {
	var x interface{}
	switch v.Choose("value", 3) {
	case 0:
		x = make(chan int)
	case 1:
		x = func() {}
	default:
		x = bad{}
	}
	trace := v.StringOf("tracetext", "ab1", 2)
	good := jlib.NewRequestMessage(2, "m", []interface{}{1})
	p := nx.Serve("/rpc", func(int) nx.Reply {
		return nx.Reply{Kind: "answer", Code: 200, Body: hx.MustBytes(jlib.NewResultMessage(good, 1))}
	})
	defer p.Close()
	c := client(p)
	var err error
	var m jlib.Message
	switch v.Choose("how", 3) {
	case 0:
		req := jlib.NewRequestMessage(1, "m", []interface{}{x})
		req.SetTraceId(trace)
		m = req
		var res jlib.Message
		res, err = c.Call(context.Background(), req)
		v.Assert(res == nil, "a call gives exactly one of a message and an error")
	case 1:
		m = jlib.NewRequestMessage(1, "m", []interface{}{x})
		m.SetTraceId(trace)
		err = c.Send(context.Background(), m)
	default:
		m = jlib.NewNotifyMessage("m", []interface{}{x})
		m.SetTraceId(trace)
		err = c.Send(context.Background(), m)
	}
	v.Assert(err != nil, "any other failure is an error")
	v.Assert(m.TraceId() == trace && m.MustMethod() == "m", "the caller's message keeps its method and trace id")
	v.Assert(len(p.Seen) == 0, "a message that cannot be encoded is not sent")
	res, err := c.Call(context.Background(), good)
	v.Assert(err == nil && res != nil && res.IsResult(), "a good answer is no error")
	v.Reach("done")
}

// CheckSequence: calls of one client do not influence one another.
//
// 3 calls with their own trace ids and answers: a result, an error, status
// 500, a broken connection.
//
//v:reach=done time=30
func CheckSequence() {
	kinds := []int{}
	for _, t := range []string{"a", "b", "c"} {
		kinds = append(kinds, v.Choose("kind"+t, 4))
	}
	p := nx.Serve("/rpc", func(i int) nx.Reply {
		if i > 2 {
			return nx.Reply{Kind: "drop"}
		}
		req := jlib.NewRequestMessage(i, "m", nil)
		switch kinds[i] {
		case 0:
			return nx.Reply{Kind: "answer", Code: 200, Body: hx.MustBytes(jlib.NewResultMessage(req, i))}
		case 1:
			return nx.Reply{Kind: "answer", Code: 200, Body: hx.MustBytes(jlib.ErrNotAllowed.ToMessage(req))}
		case 2:
			return nx.Reply{Kind: "answer", Code: 500, Body: []byte("x")}
		}
		return nx.Reply{Kind: "short", Code: 200, Body: []byte("{")}
	})
	defer p.Close()
	c := client(p)
	for i, k := range kinds {
		trace := []string{"", "t1", "t2"}[i]
		m := jlib.NewRequestMessage(i, "m", []interface{}{i})
		m.SetTraceId(trace)
		res, err := c.Call(context.Background(), m)
		sent(p, i, m, trace, nil)
		v.Assert((err == nil) == (k < 2), "each call reports its own outcome")
		if res != nil && err == nil {
			v.Assert(res.IsResult() == (k == 0) && res.MustId() != nil, "each call returns its own answer")
			v.Assert(res.TraceId() == trace, "each answer has its own trace id")
		}
	}
	v.Reach("done")
}

// CheckTogether: calls of one client made at the same time do not influence
// one another either.
//
// Two calls, or a call and a one-way message, from two goroutines, with ids
// and trace ids of their own, every interleaving with up to 2 preemptions
// (quick; also at accesses to the client's and the server's fields); the
// server answers each with its own id and params, one of the two perhaps with
// status 500.
//
//v:fields reach=both,status,send time=60 ttime=300 samples=4 tries=8
func CheckTogether() {
	kind := v.Choose("kind", 3)
	p := nx.Serve("/rpc", func(int) nx.Reply { return nx.Reply{Kind: "answer", Code: 200} })
	defer p.Close()
	p.By = func(s *nx.Seen) nx.Reply {
		m, err := jlib.ParseBytes(s.Body)
		v.Assert(err == nil, "the request body is a JSON-RPC document")
		if err != nil || !m.IsRequest() {
			return nx.Reply{Kind: "answer", Code: 200}
		}
		if kind == 1 && m.MustId() == 2 {
			return nx.Reply{Kind: "answer", Code: 500, Body: []byte("x")}
		}
		return nx.Reply{Kind: "answer", Code: 200, Body: hx.MustBytes(jlib.NewResultMessage(m, m.MustParams()))}
	}
	c := client(p)
	call := func(id int, text, trace string) {
		m := jlib.NewRequestMessage(id, "m", []interface{}{text})
		m.SetTraceId(trace)
		res, err := c.Call(context.Background(), m)
		v.Assert(m.TraceId() == trace && m.Id == id, "the caller's message keeps its id, method and trace id")
		if kind == 1 && id == 2 {
			var wrapped *jlibhttp.WrappedResponse
			v.Assert(errors.As(err, &wrapped) && wrapped.Response.StatusCode == 500, "each call reports its own outcome")
			return
		}
		v.Assert(err == nil && res != nil && res.IsResult(), "each call reports its own outcome")
		if err == nil && res != nil && res.IsResult() {
			v.Assert(res.MustId() == id && v.SameJSON(hx.Enc(res.MustResult()), hx.Enc([]interface{}{text})), "each call returns its own answer")
			v.Assert(res.TraceId() == trace, "each answer has its own trace id")
		}
	}
	v.Preempt(v.N(2, 3))
	done := make(chan bool, 2)
	go func() {
		call(1, "one", "t1")
		done <- true
	}()
	go func() {
		if kind == 2 {
			n := jlib.NewNotifyMessage("n", []interface{}{"other"})
			n.SetTraceId("t2")
			err := c.Send(context.Background(), n)
			v.Assert(err == nil && n.TraceId() == "t2", "an accepted message is no error")
		} else {
			call(2, "other", "t2")
		}
		done <- true
	}()
	<-done
	<-done
	v.Assert(len(p.Seen) == 2, "each message is one HTTP request")
	texts := ""
	for _, s := range p.Seen {
		m, err := jlib.ParseBytes(s.Body)
		v.Assert(err == nil && m.IsRequestOrNotify(), "each request holds its own message")
		if err == nil && m.IsRequestOrNotify() {
			text := m.MustParams()[0].(string)
			texts += text
			want := "t2"
			if text == "one" {
				want = "t1"
			}
			v.Assert(s.Header.Get("X-Trace-Id") == want, "each request has its own trace id")
		}
	}
	v.Assert(texts == "oneother" || texts == "otherone", "each request holds its own message")
	switch kind {
	case 0:
		v.Reach("both")
	case 1:
		v.Reach("status")
	case 2:
		v.Reach("send")
	}
}

// CheckLong: a call and its answer that hold a text of 1000, 40000 or 150000
// letters; the answer has status 200 or 500.
//
//v:reach=done time=60
func CheckLong() {
	long := strings.Repeat("abcdefghij", []int{100, 4000, 15000}[v.Choose("length", 3)])
	m := jlib.NewRequestMessage([]interface{}{7, "x"}[v.Choose("id", 2)], "m", []interface{}{long})
	r := nx.Reply{Kind: "answer", Code: 200, Body: hx.MustBytes(jlib.NewResultMessage(m, long))}
	if v.Choose("status", 2) == 1 {
		r.Code, r.Body = 500, []byte(long)
	}
	p := nx.Serve("/rpc", func(int) nx.Reply { return r })
	defer p.Close()
	res, err := client(p).Call(context.Background(), m)
	sent(p, 0, m, "", nil)
	var wrapped *jlibhttp.WrappedResponse
	if r.Code == 500 {
		v.Assert(errors.As(err, &wrapped) && string(wrapped.Body) == long, "the wrapped response has the server's body")
	} else {
		v.Assert(err == nil && res.IsResult() && res.MustResult() == interface{}(long), "the result is the server's")
	}
	v.Reach("done")
}
