// Package t08: each streaming session ends cleanly exactly once.
package t08

import (
	"context"
	"errors"
	"io"
	"net/http"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t08.CheckWS", CheckWS)
var _ = v.Reg("t08.CheckH2", CheckH2)
var _ = v.Reg("t08.CheckWSIdle", CheckWSIdle)
var _ = v.Reg("t08.CheckH2Idle", CheckH2Idle)
var _ = v.Reg("t08.CheckGarbage", CheckGarbage)
var _ = v.Reg("t08.CheckBurst", CheckBurst)
var _ = v.Reg("t08.CheckWSFlood", CheckWSFlood)
var _ = v.Reg("t08.CheckH2Flood", CheckH2Flood)

type world struct {
	actor  *jlibhttp.Actor
	spawn  bool
	server context.CancelFunc
	req    context.CancelFunc
	send   func(string)
	eof    func()
	cut    func()
	done   chan struct{}

	mu     sync.Mutex
	seen   []jlibhttp.RPCSession // by handlers
	closed []jlibhttp.RPCSession // by close callbacks
	count  int                   // handlers that returned

	begun   chan bool
	release chan bool
}

func (w *world) note(s jlibhttp.RPCSession) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.seen = append(w.seen, s)
}

func (w *world) finished() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.count++
}

func (w *world) ended() bool {
	select {
	case <-w.done:
		return true
	default:
		return false
	}
}

func open(h2, spawn bool) *world {
	w := &world{actor: jlibhttp.NewActor(), spawn: spawn, begun: make(chan bool, 8), release: make(chan bool)}
	w.actor.OnRequest("echo", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		w.note(req.Session())
		defer w.finished()
		return params[0], nil
	})
	w.actor.OnRequest("wait", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		w.note(req.Session())
		defer w.finished()
		w.begun <- true
		<-w.release
		req.Session().Send(jlib.NewNotifyMessage("late", []interface{}{}))
		return params[0], nil
	})
	w.actor.OnRequest("flood", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		w.note(req.Session())
		defer w.finished()
		w.begun <- true
		<-w.release
		for i := 0; i < 104; i++ {
			req.Session().Send(jlib.NewNotifyMessage("late", []interface{}{}))
		}
		return params[0], nil
	})
	child := jlibhttp.NewActor()
	w.actor.AddChild(child)
	child.OnClose(func(r *http.Request, s jlibhttp.RPCSession) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.closed = append(w.closed, s)
	})
	var sctx, rctx context.Context
	sctx, w.server = context.WithCancel(context.Background())
	rctx, w.req = context.WithCancel(context.Background())
	if h2 {
		h := jlibhttp.NewH2Handler(sctx, w.actor)
		h.SpawnGoroutine = spawn
		p := nx.DialH2(rctx, h)
		w.send, w.done = p.Send, p.Done
		w.eof = func() { p.Cut(io.EOF) }
		w.cut = func() { p.Cut(errors.New("http2: stream reset")) }
	} else {
		h := jlibhttp.NewWSHandler(sctx, w.actor)
		h.SpawnGoroutine = spawn
		c, done, _ := nx.DialWS(rctx, h)
		w.done = done
		w.send = func(s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) }
		w.cut = func() { c.Close() }
		w.eof = w.cut
	}
	return w
}

func (w *world) ask(method string) {
	b, err := jlib.MessageBytes(jlib.NewRequestMessage(1, method, []interface{}{"x"}))
	v.Assert(err == nil, "a request can be encoded")
	w.send(string(b))
}

var events = []string{"eof", "cut", "garbage", "server", "request"}

// terminate makes the session end.
func (w *world) terminate(how string) {
	switch how {
	case "eof":
		w.eof()
	case "cut":
		w.cut()
	case "garbage":
		w.send("][")
	case "server":
		w.server()
	case "request":
		w.req()
	}
}

// over checks that the session is over.
func (w *world) over() {
	v.Idle()
	v.Assert(w.ended(), "the session ends")
	w.mu.Lock()
	defer w.mu.Unlock()
	v.Assert(len(w.closed) == 1, "the close callback runs exactly once")
	for _, s := range w.seen {
		v.Assert(len(w.closed) == 1 && w.closed[0] == s, "the close callback gets the session the handlers had")
	}
}

// gone: when the handlers have returned as well, nothing is left of it.
func (w *world) gone() {
	w.over()
	v.Assert(w.count == len(w.seen), "the handlers come to an end")
	v.Assert(v.Running("github.com/superisaac/jlib/http") == 0, "nothing of an ended session keeps running")
}

// a request whose handler is still running, another one, and the terminating event
func run(h2 bool, preempt int) {
	how := v.Pick("how", events...)
	spawn := v.Choose("spawn", 2) == 0
	w := open(h2, spawn)
	v.Preempt(preempt)
	w.ask("wait")
	<-w.begun
	w.ask("echo")
	w.terminate(how)
	v.Idle()
	if spawn || how == "server" || how == "request" || how == "cut" && h2 {
		w.over() // whatever the handler does
	}
	close(w.release)
	w.gone()
	w.terminate("server")
	w.terminate("eof")
	w.gone()
}

// a websocket session with one handler running and one more request when the peer disconnects, sends garbage, or the server's or the request's context ends, spawning or not, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckWS() { run(false, v.N(2, 3)) }

// the same for an HTTP/2 session whose body ends or is reset
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckH2() { run(true, v.N(2, 3)) }

func idle(h2 bool, preempt int) {
	how := v.Pick("how", events...)
	how2 := v.Pick("how2", events...)
	w := open(h2, v.Choose("spawn", 2) == 0)
	v.Preempt(preempt)
	w.ask("echo")
	w.terminate(how)
	w.terminate(how2)
	w.gone()
}

// a websocket session with a request just sent and two terminating events in a row
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckWSIdle() { idle(false, v.N(1, 2)) }

// the same for an HTTP/2 session
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckH2Idle() { idle(true, v.N(1, 2)) }

func flood(h2 bool) {
	how := v.Pick("how", "eof", "cut", "server", "request")
	w := open(h2, v.Choose("spawn", 2) == 0)
	v.Selects(v.N(1, 2))
	w.ask("flood")
	<-w.begun
	w.terminate(how)
	close(w.release)
	w.gone()
}

// a handler of a websocket session that ended sends more messages than are buffered; at most one select (two in the thorough tier) takes another than its first ready case
//v:fields time=60 ttime=400 samples=1 tries=2
func CheckWSFlood() { flood(false) }

// the same for an HTTP/2 session
//v:fields time=60 ttime=400 samples=1 tries=2
func CheckH2Flood() { flood(true) }

// a websocket or HTTP/2 session, spawning or not, after no or one request is sent one of ten texts that are no messages, whole or broken off: it ends for each of them, and what comes after is not handled twice
//v:fields time=60 ttime=200 samples=4 tries=4
func CheckGarbage() {
	h2 := v.Choose("h2", 2) == 1
	w := open(h2, v.Choose("spawn", 2) == 0)
	n := v.Choose("before", 2)
	for i := 0; i < n; i++ {
		w.ask("echo")
		v.Idle()
	}
	texts := []string{"][", "{}", "[]", "null", "7", `{"id":1}`, `{"id":1,"result":1,"error":{"code":1,"message":"x"}}`, `{"id":1,"method":7}`}
	if h2 {
		texts = append(texts, `{"id":1,"method":"echo","par`, `"`)
	} else {
		texts = append(texts, "", " ")
	}
	text := texts[v.Choose("text", len(texts))]
	if _, err := jlib.ParseBytes([]byte(text)); err == nil {
		return
	}
	v.Preempt(1)
	if h2 && text[0] != '"' && text[len(text)-1] != 'r' {
		text += "\n"
	}
	w.send(text)
	if h2 && v.Choose("eof", 2) == 1 || text == `"` || len(text) > 0 && text[len(text)-1] == 'r' {
		w.eof()
	}
	w.gone()
	v.Assert(w.count == n, "only requests are handled")
}

// fourteen bad messages in a row or at once to a websocket or HTTP/2 session, spawning or not, with one handler running
//v:fields time=60 ttime=200 samples=2 tries=4
func CheckBurst() {
	w := open(v.Choose("h2", 2) == 1, v.Choose("spawn", 2) == 0)
	running := v.Choose("running", 2) == 1
	if running && w.spawn {
		w.ask("wait")
		<-w.begun
	}
	text := v.Pick("text", "][", "{}", `{"method":"nobody","params":[]}`)
	for i := 0; i < 14; i++ {
		w.send(text)
	}
	v.Idle()
	if text == `{"method":"nobody","params":[]}` {
		w.eof()
	}
	w.over()
	close(w.release)
	w.gone()
}
