// Package t01: the HTTP/1.1 endpoint answers each request with the right status.
package t01

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hd"
	"verif/harness/hx"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t01.CheckAnswer", CheckAnswer)
var _ = v.Reg("t01.CheckUnencodable", CheckUnencodable)
var _ = v.Reg("t01.CheckResponse", CheckResponse)
var _ = v.Reg("t01.CheckBody", CheckBody)
var _ = v.Reg("t01.CheckLong", CheckLong)
var _ = v.Reg("t01.CheckFailingBody", CheckFailingBody)
var _ = v.Reg("t01.CheckMethod", CheckMethod)
var _ = v.Reg("t01.CheckSequence", CheckSequence)

func post(h http.Handler, body io.Reader, trace string) *nx.Recorder {
	r := nx.Request("POST", body)
	if trace != "" {
		r.Header.Set("X-Trace-Id", trace)
	}
	w := nx.NewRecorder()
	h.ServeHTTP(w, r)
	w.Done()
	v.Assert(w.Extra == 0, "the status is written once")
	return w
}

// document states what every JSON-RPC answer must be and returns it.
func document(w *nx.Recorder, id interface{}, trace string) jlib.Message {
	v.Assert(w.Code == 200, "a request is answered 200")
	v.Assert(w.Sent.Get("Content-Type") == "application/json", "a JSON answer is labelled application/json")
	v.Assert(w.Sent.Get("X-Trace-Id") == trace, "a JSON answer carries the request's trace id in the trace header")
	m, err := jlib.ParseBytes(w.Body.Bytes())
	v.Assert(err == nil, "the body is a JSON-RPC document")
	if err != nil {
		return nil
	}
	v.Assert(m.IsResultOrError() && m.MustId() == id, "the answer carries the request's id")
	return m
}

// text is a request or notify as the caller sends it.
func text(notify bool, method string, trace string) (body []byte, id interface{}, header string) {
	var m jlib.Message
	if notify {
		m = jlib.NewNotifyMessage(method, []interface{}{})
	} else {
		id = hx.ID("id")
		m = jlib.NewRequestMessage(id, method, []interface{}{})
	}
	if trace != "" {
		if v.Choose("traceby", 2) == 0 {
			m.SetTraceId(trace)
		} else {
			header = trace
		}
	}
	body = hx.MustBytes(m)
	return
}

// CheckAnswer: every handler outcome over HTTP.
//
// A request or notify with any id and no trace id, one in the document or one
// in the trace header; methods registered, missing or handled by the missing
// handler; every value of depth 1, plain, JSON-RPC, simple and wrapped errors
// under up to two wrappers, returned or panicked.
//
//v:reach=result,error,notify,failed,passed time=60 ttime=400
func CheckAnswer() {
	o := hd.Any("o")
	if o.Resp != nil {
		v.Assume(o.Resp.Response.StatusCode >= 200 && o.Resp.Response.StatusCode <= 999)
	}
	var simple *jlibhttp.SimpleResponse
	if errors.As(o.Err, &simple) {
		v.Assume(simple.Code >= 200 && simple.Code <= 999)
	}
	a := jlibhttp.NewActor()
	known := true
	switch v.Choose("site", 3) {
	case 0:
		a.On("m", func(params []interface{}) (interface{}, error) { return o.Do() })
	case 1:
		a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { return o.Do() })
	default:
		known = false
	}
	notify := v.Choose("notify", 2) == 1
	trace := v.ASCII("tracetext", 1)
	body, id, header := text(notify, "m", trace)
	w := post(jlibhttp.NewH1Handler(a), bytes.NewReader(body), header)
	switch {
	case !known && notify, known && notify && o.Err == nil:
		v.Reach("notify")
		v.Assert(w.Code == 200 && w.Body.Len() == 0, "a notify is answered 200 with an empty body")
	case !known:
		if m := document(w, id, trace); m != nil {
			v.Reach("error")
			v.Assert(m.IsError() && m.MustError().Code == -32601, "an unknown method is a method not found error")
		}
	case o.Resp != nil:
		v.Reach("passed")
		v.Assert(w.Code == o.Resp.Response.StatusCode, "a wrapped response is answered with its status")
		v.Assert(w.Body.String() == "body", "a wrapped response is answered with its body")
	case notify && simple != nil:
		v.Reach("passed")
		v.Assert(w.Code == simple.Code && w.Body.String() == "body", "a simple response is answered with its status and body")
	case notify:
		v.Reach("failed")
		v.Assert(w.Code == 500, "any other failure is answered 500")
	case o.Err == nil:
		if m := document(w, id, trace); m != nil {
			v.Reach("result")
			v.Assert(m.IsResult(), "a value is answered with a result")
			if m.IsResult() {
				v.Assert(v.SameJSON(hx.Enc(m.MustResult()), hx.Enc(o.Value)), "the result is the handler's value")
			}
		}
	default:
		if m := document(w, id, trace); m != nil {
			v.Reach("error")
			v.Assert(m.IsError(), "a failure is answered with an error")
			if m.IsError() {
				if o.RPC != nil {
					v.Assert(m.MustError().Code == o.RPC.Code && m.MustError().Message == o.RPC.Message, "a JSON-RPC error is answered as given")
				} else {
					v.Assert(m.MustError().Code == -32603, "any other failure of a request is an internal error")
				}
			}
		}
	}
}

type bad struct{}

func (bad) MarshalJSON() ([]byte, error) { return nil, errors.New("no encoding") }

// CheckUnencodable: results and error data that JSON cannot hold.
//
// A channel, a function, not-a-number, a value whose encoder fails, alone,
// inside a list or a map, as result or as error data; any id, trace id absent
// or present.
//
//v:reach=internal time=30
func CheckUnencodable() {
	var x interface{}
	switch v.Choose("value", 4) {
	case 0:
		x = make(chan int)
	case 1:
		x = func() {}
	case 2:
		x = nan()
	default:
		x = bad{}
	}
	switch v.Choose("in", 3) {
	case 1:
		x = []interface{}{1, x}
	case 2:
		x = map[string]interface{}{"a": x}
	}
	a := jlibhttp.NewActor()
	asError := v.Choose("aserror", 2) == 1
	a.On("m", func(params []interface{}) (interface{}, error) {
		if asError {
			return nil, &jlib.RPCError{Code: 1, Message: "x", Data: x}
		}
		return x, nil
	})
	trace := v.ASCII("tracetext", 1)
	body, id, header := text(false, "m", trace)
	w := post(jlibhttp.NewH1Handler(a), bytes.NewReader(body), header)
	if m := document(w, id, trace); m != nil {
		v.Reach("internal")
		v.Assert(m.IsError() && m.MustError().Code == -32603, "a response that cannot be encoded is answered with an internal error")
	}
}

func nan() float64 {
	z := 0.0
	return z / z
}

// CheckResponse: wrapped and simple responses of any status, headers and body.
//
// Status 200 to 999, up to 2 values for each of 2 header names, bodies of up
// to 2 bytes, wrapped under up to two wrappers, returned or panicked.
//
//v:reach=wrapped,simple time=30
func CheckResponse() {
	status := v.Int("status")
	v.Assume(status >= 200 && status <= 999)
	body := []byte(v.String("body", 2))
	head := http.Header{}
	want := http.Header{}
	for _, n := range []string{"X-A", "Content-Type"} {
		k := v.Choose("values"+n, 3)
		for i := 0; i < k; i++ {
			t := v.ASCII(n+strconv.Itoa(i), 1)
			head.Add(n, t)
			want.Add(n, t)
		}
	}
	notify := v.Choose("notify", 2) == 1
	var err error
	wrapped := v.Choose("wrapped", 2) == 1
	if wrapped {
		err = &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: status, Header: head}, Body: body}
	} else {
		v.Assume(notify) // a request's simple response is an internal error
		err = &jlibhttp.SimpleResponse{Code: status, Body: body}
	}
	err = hd.Wrap("e", err)
	panics := v.Choose("panic", 2) == 1
	a := jlibhttp.NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) {
		if panics {
			panic(err)
		}
		return nil, err
	})
	doc, _, _ := text(notify, "m", "")
	w := post(jlibhttp.NewH1Handler(a), bytes.NewReader(doc), "")
	v.Assert(w.Code == status, "the response's status is passed on")
	v.Assert(w.Body.String() == string(body), "the response's body is passed on")
	if wrapped {
		v.Reach("wrapped")
		for n, vs := range want {
			got := w.Sent[n]
			v.Assert(len(got) == len(vs), "every header value is passed on")
			for i := range got {
				if i < len(vs) {
					v.Assert(got[i] == vs[i], "header values are passed on in order")
				}
			}
		}
	} else {
		v.Reach("simple")
	}
}

// reader gives the body in chunks and may fail.
type reader struct {
	data []byte
	cut  int
	fail bool
}

func (r *reader) Read(b []byte) (int, error) {
	if r.cut > 0 && len(r.data) > 0 {
		n := r.cut
		if n > len(r.data) {
			n = len(r.data)
		}
		n = copy(b, r.data[:n])
		r.data = r.data[n:]
		r.cut = 0
		return n, nil
	}
	if r.fail {
		return 0, errors.New("connection reset")
	}
	n := copy(b, r.data)
	r.data = r.data[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// CheckFailingBody: the body arrives in two pieces, or reading it fails after
// any number of bytes.
//
// One request document, cut or failing at any of its positions, also after
// the last byte.
//
//v:reach=failed,whole time=30
func CheckFailingBody() {
	a := jlibhttp.NewActor()
	ran := 0
	a.On("m", func(params []interface{}) (interface{}, error) { ran++; return "ok", nil })
	doc := []byte(`{"id":1,"method":"m","params":[]}`)
	r := &reader{data: doc, cut: v.Choose("cut", len(doc)+1), fail: v.Choose("fail", 2) == 1}
	w := post(jlibhttp.NewH1Handler(a), r, "")
	if r.fail {
		v.Reach("failed")
		v.Assert(w.Code == 400, "an unreadable body is answered 400")
		v.Assert(ran == 0, "an unreadable body is not acted on")
		return
	}
	v.Reach("whole")
	v.Assert(w.Code == 200 && ran == 1, "a body in pieces is read to its end")
}

// CheckBody: any body document.
//
// Every JSON document of depth 1 (2) with up to 3 members named id, method,
// params, result, error or x, scalars, strings of up to 2 ASCII bytes,
// malformed texts; whether it parses is what the message parser says (M01 to
// M03).
//
//v:reach=bad,good,notify time=60 ttime=400
func CheckBody() {
	a := jlibhttp.NewActor()
	ran := 0
	a.OnMissing(func(req *jlibhttp.RPCRequest) (interface{}, error) { ran++; return 7, nil })
	body := v.JSON("body", v.Shape{Depth: v.N(2, 2), Width: 3, StrLen: 1, Keys: []string{"id", "method", "params", "result", "error"}, Kinds: "nbisao!"})
	m, err := jlib.ParseBytes(body)
	w := post(jlibhttp.NewH1Handler(a), bytes.NewReader(body), "")
	switch {
	case err != nil:
		v.Reach("bad")
		v.Assert(w.Code == 400, "an unparsable body is answered 400")
		v.Assert(ran == 0, "an unparsable body is not acted on")
	case m.IsRequest():
		v.Reach("good")
		v.Assert(ran == 1, "the request is handled once")
		document(w, m.MustId(), m.TraceId())
	default:
		v.Reach("notify")
		v.Assert(w.Code == 200 && w.Body.Len() == 0, "anything that is not a request is answered 200 with an empty body")
	}
}

// CheckMethod: any HTTP method.
//
// Method names of up to 4 ASCII bytes, and the standard ones.
//
//v:reach=refused,served time=30
func CheckMethod() {
	a := jlibhttp.NewActor()
	ran := 0
	a.On("m", func(params []interface{}) (interface{}, error) { ran++; return "ok", nil })
	var method string
	if v.Choose("standard", 2) == 0 {
		method = v.Pick("name", "GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "POST", "post", "")
	} else {
		method = v.ASCII("free", 4)
	}
	w := nx.NewRecorder()
	jlibhttp.NewH1Handler(a).ServeHTTP(w, nx.Request(method, bytes.NewReader([]byte(`{"id":1,"method":"m","params":[]}`))))
	w.Done()
	v.Assert(w.Extra == 0, "the status is written once")
	if method == "POST" {
		v.Reach("served")
		v.Assert(w.Code == 200 && ran == 1, "a POST is served")
	} else {
		v.Reach("refused")
		v.Assert(w.Code == 405 && ran == 0, "any other method is answered 405")
	}
}

// CheckSequence: several posts to one endpoint do not influence one another.
//
// 3 posts, each a request or notify with its own id and trace id to a method
// that gives a value, an error, an unencodable value or a wrapped response.
//
//v:reach=done time=30
func CheckSequence() {
	a := jlibhttp.NewActor()
	a.On("value", func(params []interface{}) (interface{}, error) { return params, nil })
	a.On("error", func(params []interface{}) (interface{}, error) { return nil, jlib.ErrNotAllowed })
	a.On("bad", func(params []interface{}) (interface{}, error) { return bad{}, nil })
	a.On("wrapped", func(params []interface{}) (interface{}, error) {
		return nil, &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: 418, Header: http.Header{"X-Trace-Id": []string{"other"}}}, Body: []byte("tea")}
	})
	h := jlibhttp.NewH1Handler(a)
	for i := 0; i < 3; i++ {
		t := strconv.Itoa(i)
		method := []string{"value", "error", "bad", "wrapped"}[v.Choose("method"+t, 4)]
		trace := []string{"", "t" + t}[v.Choose("trace"+t, 2)]
		m := jlib.NewRequestMessage(i, method, []interface{}{i})
		m.SetTraceId(trace)
		w := post(h, bytes.NewReader(hx.MustBytes(m)), "")
		if method == "wrapped" {
			v.Assert(w.Code == 418 && w.Body.String() == "tea", "a wrapped response is passed on")
			continue
		}
		if r := document(w, i, trace); r != nil {
			v.Assert(r.IsResult() == (method == "value"), "each answer is that of its own method")
		}
	}
	v.Reach("done")
}

// CheckLong: a request whose params hold a text of 1000, 40000 or 150000
// letters, its answer the same text, an error with it or its length.
//
//v:reach=done time=60
func CheckLong() {
	a := jlibhttp.NewActor()
	how := v.Choose("answer", 3)
	a.On("long", func(params []interface{}) (interface{}, error) {
		s, _ := params[0].(string)
		switch how {
		case 0:
			return s, nil
		case 1:
			return nil, &jlib.RPCError{Code: 7, Message: s}
		}
		return len(s), nil
	})
	long := strings.Repeat("abcdefghij", []int{100, 4000, 15000}[v.Choose("length", 3)])
	// the text of the request is known in full
	id := []interface{}{7, "x"}[v.Choose("id", 2)]
	body := hx.MustBytes(jlib.NewRequestMessage(id, "long", []interface{}{long}))
	m := document(post(jlibhttp.NewH1Handler(a), bytes.NewReader(body), ""), id, "")
	if m == nil {
		return
	}
	switch how {
	case 0:
		v.Assert(m.IsResult() && m.MustResult() == interface{}(long), "the answer is the handler's")
	case 1:
		v.Assert(m.IsError() && m.MustError().Message == long, "the answer is the handler's")
	default:
		v.Assert(m.IsResult() && m.MustResult() == interface{}(json.Number(strconv.Itoa(len(long)))), "the answer is the handler's")
	}
	v.Reach("done")
}
