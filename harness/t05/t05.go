// Package t05: a streaming session answers every request it receives exactly
// once.
package t05

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t05.CheckWS", CheckWS)
var _ = v.Reg("t05.CheckLong", CheckLong)
var _ = v.Reg("t05.CheckH2", CheckH2)
var _ = v.Reg("t05.CheckWSOrder", CheckWSOrder)
var _ = v.Reg("t05.CheckBinary", CheckBinary)
var _ = v.Reg("t05.CheckBadPush", CheckBadPush)
var _ = v.Reg("t05.CheckUnencodable", CheckUnencodable)
var _ = v.Reg("t05.CheckBurst", CheckBurst)
var _ = v.Reg("t05.CheckH2Order", CheckH2Order)
var _ = v.Reg("t05.CheckSessions", CheckSessions)

// wire is the peer's end of a session.
type wire struct {
	send func(string)
	recv func() (string, bool)
	end  func()
	done chan struct{}
	// noise sends a binary frame
	noise func(string)

	mu  sync.Mutex
	got []jlib.Message
	bad bool
}

func (w *wire) listen() {
	for {
		s, ok := w.recv()
		if !ok {
			return
		}
		d := json.NewDecoder(strings.NewReader(s))
		for {
			m, err := jlib.DecodeMessage(d)
			if err == io.EOF {
				break
			}
			w.mu.Lock()
			if err != nil {
				w.bad = true
			} else {
				w.got = append(w.got, m)
			}
			w.mu.Unlock()
			if err != nil {
				return
			}
		}
	}
}

// dated is a context with a deadline far away.
type dated struct{ context.Context }

func (dated) Deadline() (time.Time, bool) { return time.Unix(1<<33, 0), true }

// base is the context the handlers are made with.
func base(far bool) context.Context {
	if far {
		return dated{context.Background()}
	}
	return context.Background()
}

// far: the next handler is made with a context that has a deadline
var far bool

func openWS(a *jlibhttp.Actor, spawn bool) *wire {
	h := jlibhttp.NewWSHandler(base(far), a)
	h.SpawnGoroutine = spawn
	return dialWS(h)
}

func dialWS(h http.Handler) *wire {
	c, done, stop := nx.DialWS(context.Background(), h)
	return &wire{
		send: func(s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) },
		recv: func() (string, bool) {
			_, b, err := c.ReadMessage()
			return string(b), err == nil
		},
		end:   func() { c.Close(); stop() },
		done:  done,
		noise: func(s string) { c.WriteMessage(websocket.BinaryMessage, []byte(s)) },
	}
}

func openH2(a *jlibhttp.Actor, spawn bool) *wire {
	h := jlibhttp.NewH2Handler(base(far), a)
	h.SpawnGoroutine = spawn
	return dialH2(h)
}

func dialH2(h http.Handler) *wire {
	p := nx.DialH2(context.Background(), h)
	return &wire{send: p.Send, recv: p.Recv, end: func() { p.Cut(io.EOF) }, done: p.Done}
}

func actor() *jlibhttp.Actor {
	a := jlibhttp.NewActor()
	a.On("echo", func(params []interface{}) (interface{}, error) { return params[0], nil })
	a.On("bad", func(params []interface{}) (interface{}, error) { return make(chan int), nil })
	a.On("fail", func(params []interface{}) (interface{}, error) { return nil, &jlib.RPCError{Code: 7, Message: "no"} })
	a.OnRequest("push", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		for i := 0; i < 2; i++ {
			req.Session().Send(jlib.NewNotifyMessage("pushed", []interface{}{fmt.Sprint(params[0], i)}))
		}
		return params[0], nil
	})
	a.OnRequest("late", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		go req.Session().Send(jlib.NewNotifyMessage("pushed", []interface{}{make(chan int)}))
		return params[0], nil
	})
	return a
}

func (w *wire) request(id interface{}, method, tag string) {
	b, err := jlib.MessageBytes(jlib.NewRequestMessage(id, method, []interface{}{tag}))
	v.Assert(err == nil, "a request can be encoded")
	w.send(string(b))
}

type sent struct {
	id          interface{}
	method, tag string
}

// check compares what the peer got with what it asked.
func (w *wire) check(reqs []sent) {
	w.mu.Lock()
	defer w.mu.Unlock()
	v.Assert(!w.bad, "every frame is a message")
	pushes, wantPushes := 0, 0
	for _, r := range reqs {
		n, m := 0, 0
		for _, o := range reqs {
			if o.id == r.id {
				m++
			}
		}
		for _, g := range w.got {
			if !g.IsResultOrError() || g.MustId() != r.id {
				continue
			}
			n++
			if m > 1 {
				continue
			}
			switch r.method {
			case "bad":
				v.Assert(g.IsError(), "a response that cannot be encoded is answered by an error")
			case "fail":
				v.Assert(g.IsError() && g.MustError().Code == 7, "a failing request is answered by its error")
			case "none":
				v.Assert(g.IsError() && g.MustError().Code == jlib.ErrMethodNotFound.Code, "an unknown method is answered by an error")
			default:
				v.Assert(g.IsResult() && g.MustResult() == interface{}(r.tag), "a request is answered by its own result")
			}
		}
		v.Assert(n == m, "each request is answered by exactly one message with its id")
		if r.method != "push" {
			continue
		}
		wantPushes += 2
		at := 0
		for _, g := range w.got {
			if g.IsNotify() && len(g.MustParams()) == 1 {
				switch g.MustParams()[0] {
				case interface{}(r.tag + "0"):
					v.Assert(at == 0, "pushes of one sender arrive once and in order")
					at++
				case interface{}(r.tag + "1"):
					v.Assert(at == 1, "pushes of one sender arrive once and in order")
					at++
				}
			}
		}
		v.Assert(at == 2, "every push arrives")
	}
	for _, g := range w.got {
		if !g.IsResultOrError() {
			pushes++
		}
	}
	v.Assert(pushes == wantPushes, "no push arrives twice")
	answers := 0
	for _, g := range w.got {
		if g.IsResultOrError() {
			answers++
		}
	}
	v.Assert(answers == len(reqs), "there are as many answers as requests")
}

func run(open func(*jlibhttp.Actor, bool) *wire, methods []string, preempt int) {
	w := open(actor(), v.Choose("spawn", 2) == 0)
	go w.listen()
	var reqs []sent
	v.Preempt(preempt)
	for i, m := range methods {
		r := sent{v.Int(fmt.Sprintf("id%d", i)), m, fmt.Sprintf("t%d", i)}
		reqs = append(reqs, r)
		w.request(r.id, r.method, r.tag)
	}
	v.Idle()
	w.check(reqs)
	// and the session still answers
	r := sent{"later", "echo", "later"}
	w.request(r.id, r.method, r.tag)
	v.Idle()
	w.check(append(reqs, r))
	w.end()
	<-w.done
}

func methods() []string {
	var out []string
	n := v.N(2, 3)
	for i := 0; i < n; i++ {
		out = append(out, v.Pick(fmt.Sprintf("method%d", i), "echo", "bad", "fail", "push", "none"))
	}
	return out
}

// a websocket session given two requests (three in the thorough tier) of any kinds with any integer ids, spawning or not, one scheduling deviation
//v:fields time=60 ttime=400 samples=4 tries=8
func CheckWS() { run(openWS, methods(), 1) }

// the same for an HTTP/2 session
//v:fields time=60 ttime=400 samples=4 tries=8
func CheckH2() { run(openH2, methods(), 1) }

// two concurrent handlers that push, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckWSOrder() { run(openWS, []string{"push", "echo"}, v.N(2, 3)) }

// the same for an HTTP/2 session
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckH2Order() { run(openH2, []string{"push", "echo"}, v.N(2, 3)) }

// a binary frame (a request, a notification, garbage or nothing) before, between or after two requests of a websocket session is ignored; one scheduling deviation
//v:fields time=60 ttime=200 samples=2 tries=4
func CheckBinary() {
	called := false
	a := actor()
	a.On("never", func(params []interface{}) (interface{}, error) { called = true; return 1, nil })
	w := openWS(a, v.Choose("spawn", 2) == 0)
	go w.listen()
	at := v.Choose("at", 3)
	what := v.Pick("what", `{"jsonrpc":"2.0","id":77,"method":"never","params":[]}`, `{"method":"never","params":[]}`, `][`, ``)
	m := v.Pick("method", "echo", "fail", "none", "push")
	var reqs []sent
	v.Preempt(1)
	for i := 0; i < 3; i++ {
		if i == at {
			w.noise(what)
		}
		if i < 2 {
			r := sent{v.Int(fmt.Sprintf("id%d", i)), []string{m, "echo"}[i], fmt.Sprintf("t%d", i)}
			reqs = append(reqs, r)
			w.request(r.id, r.method, r.tag)
		}
	}
	v.Idle()
	w.check(reqs)
	v.Assert(!called, "a binary frame is no message")
	w.end()
	<-w.done
}

// a push that cannot be encoded at any point around the answers to two requests of a websocket or HTTP/2 session, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckBadPush() {
	open := []func(*jlibhttp.Actor, bool) *wire{openWS, openH2}[v.Choose("h2", 2)]
	run(open, []string{"late", v.Pick("other", "echo", "push")}, v.N(2, 3))
}

// one request whose result or error data cannot be encoded or is odd, with any id and with or without a trace id, to a websocket or HTTP/2 session, spawning or not; a later request is still answered
//v:time=60 ttime=200 samples=4
func CheckUnencodable() {
	a := actor()
	var x interface{} = make(chan int)
	bad := v.Choose("value", 3) < 2
	switch v.Choose("in", 3) {
	case 1:
		x = []interface{}{x}
	case 2:
		x = map[string]interface{}{"a": x}
	}
	if !bad {
		x = v.Value("x", v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: "nbiao"})
	}
	asError := v.Choose("aserror", 2) == 1
	a.On("odd", func(params []interface{}) (interface{}, error) {
		if asError {
			return nil, &jlib.RPCError{Code: 3, Message: "x", Data: x}
		}
		return x, nil
	})
	open := []func(*jlibhttp.Actor, bool) *wire{openWS, openH2}[v.Choose("h2", 2)]
	w := open(a, v.Choose("spawn", 2) == 0)
	go w.listen()
	req := jlib.NewRequestMessage(v.Pick("id", "a", "7"), "odd", []interface{}{1})
	if v.Choose("int", 2) == 1 {
		req.Id = v.Int("n")
	}
	if v.Choose("trace", 2) == 1 {
		req.SetTraceId("t")
	}
	b, err := jlib.MessageBytes(req)
	v.Assert(err == nil, "a request can be encoded")
	w.send(string(b))
	v.Idle()
	w.mu.Lock()
	v.Assert(!w.bad, "every frame is a message")
	v.Assert(len(w.got) == 1, "each request is answered by exactly one message with its id")
	if len(w.got) == 1 {
		g := w.got[0]
		v.Assert(g.IsResultOrError() && g.MustId() == req.Id, "each request is answered by exactly one message with its id")
		v.Assert(g.TraceId() == req.TraceId(), "the answer carries the request's trace id")
		if bad {
			v.Assert(g.IsError() && g.MustError().Code == -32603, "a response that cannot be encoded is answered by an error")
		} else {
			v.Assert(g.IsError() == asError, "a request is answered by its own result")
		}
	}
	w.mu.Unlock()
	w.request("later", "echo", "later")
	v.Idle()
	w.mu.Lock()
	v.Assert(len(w.got) == 2 && w.got[1].IsResult() && w.got[1].MustId() == interface{}("later"), "later requests are still answered")
	w.mu.Unlock()
	w.end()
	<-w.done
}

// a handler that pushes 230 messages at once, far more than a session holds, to a websocket or HTTP/2 session, spawning or not, under a context with or without a deadline, before its answer; two more requests wait meanwhile
//v:time=60 ttime=200 samples=2 tries=4
func CheckBurst() {
	const n = 230
	a := actor()
	a.OnRequest("burst", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		for i := 0; i < n; i++ {
			req.Session().Send(jlib.NewNotifyMessage("pushed", []interface{}{i}))
		}
		return params[0], nil
	})
	far = v.Choose("deadline", 2) == 1
	defer func() { far = false }()
	open := []func(*jlibhttp.Actor, bool) *wire{openWS, openH2}[v.Choose("h2", 2)]
	w := open(a, v.Choose("spawn", 2) == 0)
	go w.listen()
	w.request(1, "burst", "a")
	w.request(2, "echo", "b")
	w.request(3, "none", "c")
	v.Idle()
	w.mu.Lock()
	v.Assert(!w.bad, "every frame is a message")
	at := 0
	answers := map[interface{}]int{}
	for _, g := range w.got {
		if g.IsResultOrError() {
			answers[g.MustId()]++
			if g.MustId() == interface{}(1) {
				v.Assert(at == n, "pushes of one sender arrive once and in order")
			}
			continue
		}
		x, ok := g.MustParams()[0].(json.Number)
		v.Assert(ok && string(x) == strconv.Itoa(at), "pushes of one sender arrive once and in order")
		at++
	}
	v.Assert(at == n, "every push arrives")
	v.Assert(len(answers) == 3 && answers[1] == 1 && answers[2] == 1 && answers[3] == 1, "each request is answered by exactly one message with its id")
	w.mu.Unlock()
	w.end()
	<-w.done
}

// two sessions of one handler, websocket or HTTP/2, spawning or not, each given a request with any integer id, whose handlers push to their own session; the first one then ends while a handler of the second is at work; two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckSessions() {
	type seen struct {
		s       jlibhttp.RPCSession
		id, tag string
		r       *http.Request
		ctx     context.Context
	}
	var mu sync.Mutex
	var all []seen
	var closed []jlibhttp.RPCSession
	note := func(req *jlibhttp.RPCRequest, tag interface{}) {
		mu.Lock()
		defer mu.Unlock()
		t, _ := tag.(string)
		all = append(all, seen{req.Session(), req.Session().SessionID(), t, req.HttpRequest(), req.Context()})
	}
	begun, release := make(chan bool, 2), make(chan bool)
	a := jlibhttp.NewActor()
	a.OnRequest("who", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		note(req, params[0])
		req.Session().Send(jlib.NewNotifyMessage("pushed", []interface{}{params[0]}))
		return params[0], nil
	})
	a.OnRequest("wait", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		note(req, params[0])
		begun <- true
		<-release
		req.Session().Send(jlib.NewNotifyMessage("pushed", []interface{}{params[0]}))
		return params[0], nil
	})
	a.OnClose(func(r *http.Request, s jlibhttp.RPCSession) {
		mu.Lock()
		defer mu.Unlock()
		closed = append(closed, s)
	})
	h2 := v.Choose("h2", 2) == 1
	spawn := v.Choose("spawn", 2) == 0
	var ws [2]*wire
	if h2 {
		h := jlibhttp.NewH2Handler(context.Background(), a)
		h.SpawnGoroutine = spawn
		ws[0], ws[1] = dialH2(h), dialH2(h)
	} else {
		h := jlibhttp.NewWSHandler(context.Background(), a)
		h.SpawnGoroutine = spawn
		ws[0], ws[1] = dialWS(h), dialWS(h)
	}
	var ids [2]interface{}
	v.Preempt(v.N(2, 3))
	for i, w := range ws {
		go w.listen()
		ids[i] = v.Int(fmt.Sprintf("id%d", i))
		w.request(ids[i], "who", fmt.Sprint("t", i))
	}
	v.Idle()
	// own tells what a peer got for request id with tag t.
	own := func(w *wire, from int, id interface{}, t string) {
		w.mu.Lock()
		defer w.mu.Unlock()
		v.Assert(!w.bad && len(w.got) == from+2, "a peer gets its own answer and pushes only")
		if len(w.got) != from+2 {
			return
		}
		p, g := w.got[from], w.got[from+1]
		v.Assert(p.IsNotify() && len(p.MustParams()) == 1 && p.MustParams()[0] == interface{}(t), "a push goes to the session it was sent on")
		v.Assert(g.IsResult() && g.MustId() == id && g.MustResult() == interface{}(t), "an answer goes to the session the request came from")
	}
	own(ws[0], 0, ids[0], "t0")
	own(ws[1], 0, ids[1], "t1")
	ws[1].request("w", "wait", "t1")
	<-begun
	ws[0].end()
	<-ws[0].done
	v.Idle()
	mu.Lock()
	v.Assert(len(all) == 3, "every request runs its handler once")
	var first, second *seen
	for i := range all {
		e := &all[i]
		v.Assert(e.s != nil && e.id != "" && e.r != nil && e.ctx != nil, "a handler is given its session, HTTP request and context")
		if e.tag == "t0" {
			first = e
			continue
		}
		if second != nil {
			v.Assert(second.s == e.s && second.id == e.id && second.r == e.r, "the requests of one connection share its session")
		}
		second = e
		v.Assert(e.ctx.Err() == nil, "the end of a session leaves the others alone")
	}
	if first != nil && second != nil {
		v.Assert(first.s != second.s && first.id != second.id && first.r != second.r, "two connections are two sessions")
		v.Assert(len(closed) == 1 && closed[0] == first.s, "only the session that ended is reported as closed")
		v.Assert(first.ctx.Err() != nil, "the context of a session ends with it")
	}
	mu.Unlock()
	close(release)
	v.Idle()
	own(ws[1], 2, "w", "t1")
	ws[1].request("z", "who", "t2")
	v.Idle()
	own(ws[1], 4, "z", "t2")
	ws[1].end()
	<-ws[1].done
	v.Idle()
	mu.Lock()
	v.Assert(len(closed) == 2, "each session is reported as closed once")
	mu.Unlock()
}

// a request and an answer that hold a text of 1000 or 70000 letters, to a websocket or HTTP/2 session, spawning or not
//v:time=60 ttime=200 samples=2 tries=4
func CheckLong() {
	open := []func(*jlibhttp.Actor, bool) *wire{openWS, openH2}[v.Choose("h2", 2)]
	w := open(actor(), v.Choose("spawn", 2) == 0)
	go w.listen()
	long := strings.Repeat("abcdefghij", []int{100, 7000}[v.Choose("length", 2)])
	w.request(1, "echo", long)
	v.Idle()
	w.request(2, "push", long)
	v.Idle()
	w.check([]sent{{1, "echo", long}, {2, "push", long}})
	w.end()
	<-w.done
}
