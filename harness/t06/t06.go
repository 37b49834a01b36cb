// Package t06: concurrent streaming calls each receive their own answer.
package t06

import (
	"context"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync"
	"time"

	"verif/harness/hx"
	"verif/harness/nx"
	"verif/harness/tx"
	"verif/harness/v"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
)

var _ = v.Reg("t06.CheckCalls", CheckCalls)
var _ = v.Reg("t06.CheckRaces", CheckRaces)
var _ = v.Reg("t06.CheckTimeout", CheckTimeout)
var _ = v.Reg("t06.CheckReuse", CheckReuse)
var _ = v.Reg("t06.CheckMany", CheckMany)
var _ = v.Reg("t06.CheckLong", CheckLong)
var _ = v.Reg("t06.CheckLate", CheckLate)
var _ = v.Reg("t06.CheckUnencodable", CheckUnencodable)
var _ = v.Reg("t06.CheckUnwrap", CheckUnwrap)
var _ = v.Reg("t06.CheckBinary", CheckBinary)

// peer plays the server: it keeps the requests it got, checks that their ids
// are unique among those outstanding and answers them in any order.
type peer struct {
	mu   sync.Mutex
	open []*jlib.RequestMessage
	got  int
	n    int // requests to expect
	push string
	keep bool // answer nothing
	sent func(req *jlib.RequestMessage)
	late bool // requests may stay listed after their calls timed out
}

func (p *peer) write(c *tx.Conn, msg jlib.Message) {
	p.mu.Lock()
	defer p.mu.Unlock()
	req, ok := msg.(*jlib.RequestMessage)
	v.Assert(ok, "what reaches the server is the request")
	if !ok {
		return
	}
	if p.sent != nil {
		p.sent(req)
	}
	for _, o := range p.open {
		v.Assert(p.late || o.Id != req.Id, "requests reach the server with ids unique among those outstanding")
	}
	p.open = append(p.open, req)
	p.got++
	if p.keep {
		return
	}
	for len(p.open) > 0 {
		k := len(p.open)
		if p.got < p.n {
			k++ // or wait for more
		}
		i := v.Choose("answer", k)
		if i == len(p.open) {
			return
		}
		p.answer(c, i)
	}
}

func (p *peer) answer(c *tx.Conn, i int) {
	req := p.open[i]
	p.open = append(p.open[:i:i], p.open[i+1:]...)
	switch p.push {
	case "notify":
		c.Deliver(jlib.NewNotifyMessage("push", []interface{}{}))
		p.push = ""
	case "request":
		c.Deliver(jlib.NewRequestMessage(req.Id, "push", []interface{}{}))
		p.push = ""
	case "stray":
		c.Deliver(jlib.NewResultMessage(jlib.NewRequestMessage("nobody", "x", nil), "push"))
		p.push = ""
	}
	c.Deliver(answerOf(req))
	if p.push == "twice" {
		c.Deliver(answerOf(req))
		p.push = ""
	}
}

func answerOf(req *jlib.RequestMessage) jlib.Message {
	if req.Method == "fail" {
		return (&jlib.RPCError{Code: 7, Message: fmt.Sprint(req.Params[0])}).ToMessage(req)
	}
	return jlib.NewResultMessage(req, tagOf(req))
}

// tagOf is the text a caller put into its params.
func tagOf(req *jlib.RequestMessage) interface{} {
	if m, ok := req.Params[0].(map[string]interface{}); ok {
		return m["tag"]
	}
	return req.Params[0]
}

func isAnswer(res jlib.Message, err error, req *jlib.RequestMessage, tag string) {
	v.Assert(err == nil && res != nil, "the call gets an answer")
	if err != nil || res == nil {
		return
	}
	v.Assert(res.IsResultOrError() && res.MustId() == req.Id, "the answer carries the caller's own id")
	if req.Method == "fail" {
		v.Assert(res.IsError() && res.MustError().Message == tag, "the answer is the one to this very call")
	} else {
		v.Assert(res.IsResult() && res.MustResult() == interface{}(tag), "the answer is the one to this very call")
	}
}

type count struct {
	mu sync.Mutex
	n  int
}

func (c *count) add() { c.mu.Lock(); c.n++; c.mu.Unlock() }
func (c *count) get() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}

// ids are the ids the callers choose; with distinct no two of them look the
// same on the wire.
func ids(n int, distinct bool) []interface{} {
	out := []interface{}{}
	switch v.Choose("ids", 4) {
	case 0:
		for i := 0; i < n; i++ {
			id := v.Int(fmt.Sprintf("id%d", i))
			if distinct {
				for _, o := range out {
					v.Assume(o != interface{}(id))
				}
			}
			out = append(out, id)
		}
	case 1:
		for i := 0; i < n; i++ {
			id := "a"
			if distinct {
				id += fmt.Sprint(i)
			}
			out = append(out, id)
		}
	case 2:
		for i := 0; i < n; i++ {
			if distinct {
				out = append(out, []interface{}{int64(1), "1", uint8(2)}[i%3])
			} else {
				out = append(out, []interface{}{int64(1), 1, uint8(1)}[i%3])
			}
		}
	default:
		for i := 0; i < n; i++ {
			if distinct {
				out = append(out, []interface{}{"1", 1, "1.0"}[i%3])
			} else {
				out = append(out, []interface{}{"1", 1, int64(1)}[i%3])
			}
		}
	}
	return out
}

func calls(n, preempt int, push string, want []interface{}) {
	p := &peer{n: n, push: push}
	extra := 0
	if p.push != "" {
		extra = 1
	}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	others := &count{}
	c.OnMessage(func(m jlib.Message) { others.add() })
	ctx := context.Background()
	var wg sync.WaitGroup
	v.Preempt(preempt)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			tag := fmt.Sprintf("t%d", i)
			m := "echo"
			if i == 1 {
				m = "fail"
			}
			req := jlib.NewRequestMessage(want[i], m, []interface{}{tag})
			res, err := c.Call(ctx, req)
			isAnswer(res, err, req, tag)
			v.Assert(req.Id == want[i], "the caller's message is left alone")
		}()
	}
	wg.Wait()
	v.Idle()
	v.Assert(l.Conns() == 1, "one connection serves all calls")
	v.Assert(others.get() == extra, "a message that is not an answer goes to the message callback exactly once")
}

// two concurrent calls (three in the thorough tier) with any integer ids, equal strings or look-alike ids, answered in any order, with a push, a server request, a stray or a repeated answer (ids then distinct) among them, one scheduling deviation
//v:fields time=60 ttime=400 samples=4 tries=8
func CheckCalls() {
	n := v.N(2, 3)
	push := v.Pick("push", "", "notify", "request", "stray", "twice")
	// a repeated answer may reach a later call with the same id
	calls(n, 1, push, ids(n, push == "twice"))
}

// two concurrent calls with any integer ids answered in any order, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckRaces() {
	calls(2, v.N(2, 3), "", []interface{}{v.Int("id0"), v.Int("id1")})
}

// one call answered and one never answered, ids possibly equal: the latter ends with the timeout error under its own id
//
//v:fields time=60 samples=2 tries=4
func CheckTimeout() {
	p := &peer{keep: true}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	late := &count{}
	c.OnMessage(func(m jlib.Message) { late.add() })
	want := ids(2, false)
	ctx := context.Background()
	var wg sync.WaitGroup
	v.Preempt(2)
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := jlib.NewRequestMessage(want[i], "echo", []interface{}{"t"})
			res, err := c.Call(ctx, req)
			v.Assert(err == nil && res != nil && res.IsError(), "an unanswered call ends with an error message")
			if res != nil && res.IsError() {
				v.Assert(res.MustError().Code == jlib.ErrTimeout.Code, "an unanswered call ends with the timeout error")
				v.Assert(res.MustId() == want[i], "the timeout carries the caller's own id")
			}
		}()
	}
	wg.Wait()
	// the answers come late
	cn := l.Cur()
	v.Assert(cn != nil, "a timeout leaves the connection alone")
	if cn == nil {
		return
	}
	for _, r := range p.open {
		cn.Deliver(answerOf(r))
	}
	v.Idle()
	v.Assert(late.get() == 2, "a late answer goes to the message callback")
}

// an id used again after its call was answered: each call gets its own answer or its own timeout
//
//v:fields time=60 samples=2 tries=4
func CheckReuse() {
	p := &peer{keep: true}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	ctx := context.Background()
	req := jlib.NewRequestMessage(1, "echo", []interface{}{"t"})
	done := make(chan bool)
	v.Preempt(2)
	go func() {
		res, err := c.Call(ctx, req)
		isAnswer(res, err, req, "t")
		done <- true
	}()
	v.Idle()
	p.answer(l.Cur(), 0)
	<-done
	time.Sleep(6 * time.Second)
	go func() {
		res, err := c.Call(ctx, req)
		isAnswer(res, err, req, "t")
		done <- true
	}()
	time.Sleep(6 * time.Second)
	// six seconds later is in time
	if len(p.open) == 1 {
		p.answer(l.Cur(), 0)
	}
	<-done
}

// a call whose parameters cannot be encoded (a function, a channel, a number that is not finite) besides a call that can, with the same or different ids, and a call and a notification of that kind; later the id is used again; two scheduling deviations
//v:fields time=60 ttime=300 samples=4 tries=4
func CheckUnencodable() {
	p := &peer{n: 1}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	ctx := context.Background()
	ps := []interface{}{[]interface{}{func() {}, make(chan bool), math.Inf(1)}[v.Choose("what", 3)]}
	same := v.Choose("same", 2)
	notify := v.Choose("notify", 2) == 1
	var wg sync.WaitGroup
	wg.Add(2)
	v.Preempt(2)
	go func() {
		defer wg.Done()
		if notify {
			c.Send(ctx, jlib.NewNotifyMessage("echo", ps))
			return
		}
		_, err := c.Call(ctx, jlib.NewRequestMessage(1, "echo", ps))
		v.Assert(err != nil, "a call that cannot be sent fails")
	}()
	go func() {
		defer wg.Done()
		req := jlib.NewRequestMessage(2-same, "echo", []interface{}{"t"})
		res, err := c.Call(ctx, req)
		isAnswer(res, err, req, "t")
	}()
	wg.Wait()
	v.Preempt(0)
	p.n = 2
	req := jlib.NewRequestMessage(1, "echo", []interface{}{"u"})
	res, err := c.Call(ctx, req)
	isAnswer(res, err, req, "u")
	v.Assert(l.Conns() == 1, "one connection serves all calls")
}

// a call whose result is unwrapped into an any-typed or an integer variable: any result of depth 1, an error message, a lost connection
//v:reach=result,mismatch,error,lost time=60 samples=8
func CheckUnwrap() {
	kind := v.Choose("answer", 3)
	typed := v.Choose("typed", 2) == 1
	result := v.Value("result", hx.Val())
	code := v.Int("code")
	l := &tx.Link{Write: func(c *tx.Conn, m jlib.Message) {
		switch kind {
		case 0:
			c.Deliver(jlib.NewResultMessage(m, result))
		case 1:
			c.Deliver((&jlib.RPCError{Code: code, Message: "no", Data: result}).ToMessage(m.(*jlib.RequestMessage)))
		default:
			c.Break()
		}
	}}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	req := jlib.NewRequestMessage(1, "m", nil)
	var any interface{}
	number := 17
	var out interface{} = &any
	if typed {
		out = &number
	}
	err := c.UnwrapCall(context.Background(), req, out)
	switch kind {
	case 0:
		if typed {
			n, ok := whole(result)
			if ok {
				v.Reach("result")
				v.Assert(err == nil && number == n, "the variable gets the result")
			} else if _, isNum := result.(interface{ Int64() (int64, error) }); !isNum && result != nil {
				v.Reach("mismatch")
				v.Assert(err != nil, "a result that does not fit the variable is an error")
			}
			return
		}
		v.Reach("result")
		v.Assert(err == nil, "a result is no error")
		v.Assert(v.SameJSON(hx.Enc(any), hx.Enc(result)), "the variable gets the result")
	case 1:
		v.Reach("error")
		var e *jlib.RPCError
		v.Assert(errors.As(err, &e), "an error message is returned as an error")
		if e != nil {
			v.Assert(e.Code == code && e.Message == "no", "the error is the server's")
			v.Assert(v.SameJSON(hx.Enc(e.Data), hx.Enc(result)), "the error has the server's data")
		}
		v.Assert(any == nil && number == 17, "an error leaves the variable alone")
	default:
		v.Reach("lost")
		v.Assert(err != nil, "a lost connection is an error")
		v.Assert(any == nil && number == 17, "an error leaves the variable alone")
	}
}

func whole(x interface{}) (int, bool) {
	n, ok := x.(interface{ Int64() (int64, error) })
	if !ok {
		return 0, false
	}
	i, err := n.Int64()
	return int(i), err == nil
}

// a websocket server that sends binary frames (an answer, a notification, garbage or nothing) before, between or after its answers to two concurrent calls; one scheduling deviation
//v:fields time=60 samples=2 tries=4
func CheckBinary() {
	at := v.Choose("at", 3)
	what := v.Pick("what", `{"jsonrpc":"2.0","id":1,"result":"wrong"}`, `{"method":"n","params":[]}`, `][`, ``)
	u := nx.ListenWS(func(s *websocket.Conn) {
		defer s.Close()
		for i := 0; ; i++ {
			_, b, err := s.ReadMessage()
			if err != nil {
				return
			}
			m, err := jlib.ParseBytes(b)
			v.Assert(err == nil && m.IsRequest(), "what the client sends are the requests")
			if i == at {
				s.WriteMessage(websocket.BinaryMessage, []byte(what))
			}
			a, _ := jlib.MessageBytes(answerOf(m.(*jlib.RequestMessage)))
			s.WriteMessage(websocket.TextMessage, a)
			if at == 2 && i == 1 {
				s.WriteMessage(websocket.BinaryMessage, []byte(what))
			}
		}
	})
	c := jlibhttp.NewWSClient(u)
	others := &count{}
	c.OnMessage(func(m jlib.Message) { others.add() })
	var wg sync.WaitGroup
	v.Preempt(1)
	for i := 1; i <= 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			req := jlib.NewRequestMessage(i, []string{"echo", "fail"}[i-1], []interface{}{fmt.Sprint("t", i)})
			res, err := c.Call(context.Background(), req)
			isAnswer(res, err, req, fmt.Sprint("t", i))
		}()
	}
	wg.Wait()
	v.Idle()
	v.Preempt(0)
	v.Assert(others.get() == 0, "a binary frame is no message")
	v.Assert(c.Connected(), "a binary frame does not end the connection")
	req := jlib.NewRequestMessage(3, "echo", []interface{}{"later"})
	res, err := c.Call(context.Background(), req)
	isAnswer(res, err, req, "later")
	c.Close()
}

// four concurrent calls (five in the thorough tier) of one method with the same id, any integer or text, with a list or an object as params, with or without a trace id, answered in any order
//v:fields time=60 ttime=300 samples=2 tries=4
func CheckMany() {
	n := v.N(4, 5)
	p := &peer{n: n}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	var id interface{} = "a"
	if v.Choose("int", 2) == 1 {
		id = v.Int("id")
	}
	trace := v.Pick("trace", "", "t")
	object := v.Choose("object", 2) == 1
	params := func(tag string) interface{} {
		if object {
			return map[string]interface{}{"tag": tag}
		}
		return []interface{}{tag, 1}
	}
	p.sent = func(req *jlib.RequestMessage) {
		tag, _ := tagOf(req).(string)
		want := jlib.NewRequestMessage(req.Id, "echo", params(tag))
		want.SetTraceId(trace)
		v.Assert(v.SameJSON(hx.MustBytes(req), hx.MustBytes(want)), "what reaches the server is the caller's message but for its id")
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			tag := fmt.Sprintf("t%d", i)
			req := jlib.NewRequestMessage(id, "echo", params(tag))
			req.SetTraceId(trace)
			res, err := c.Call(context.Background(), req)
			isAnswer(res, err, req, tag)
			v.Assert(req.Id == id && req.TraceId() == trace, "the caller's message is left alone")
		}()
	}
	wg.Wait()
	v.Assert(l.Conns() == 1, "one connection serves all calls")
}

// an answer that arrives just when its call times out, and the id used again at once: the first call gets its answer or the timeout, the second an answer (the late one, when it is read only after the id was used again; the two look alike); two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=300 samples=2 tries=16
func CheckLate() {
	p := &peer{keep: true, late: true}
	l := &tx.Link{Write: p.write}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	c.OnMessage(func(m jlib.Message) {})
	ctx := context.Background()
	done := make(chan bool, 1)
	go func() {
		time.Sleep(time.Second)
		req := jlib.NewRequestMessage(1, "echo", []interface{}{"one"})
		res, err := c.Call(ctx, req)
		if err == nil && res != nil && res.IsError() {
			v.Assert(res.MustId() == req.Id && res.MustError().Code == jlib.ErrTimeout.Code, "an unanswered call ends with the timeout error")
		} else {
			isAnswer(res, err, req, "one")
		}
		req = jlib.NewRequestMessage(1, "echo", []interface{}{"two"})
		res, err = c.Call(ctx, req)
		v.Assert(err == nil && res != nil && res.IsResult(), "an answered call gets its answer")
		if err == nil && res != nil && res.IsResult() {
			v.Assert(res.MustId() == req.Id && (res.MustResult() == interface{}("two") || res.MustResult() == interface{}("one")), "the answer is one of those sent to that id")
		}
		done <- true
	}()
	time.Sleep(11 * time.Second)
	v.Preempt(v.N(2, 3))
	for i := 0; i < 2; i++ {
		p.mu.Lock()
		for len(p.open) > 0 {
			p.answer(l.Cur(), 0)
		}
		p.mu.Unlock()
		v.Idle()
	}
	<-done
}

// a websocket or HTTP/2 client's two calls that hold a text of 1000 or 70000 letters, answered with the same text
//v:time=60 samples=2 tries=4
func CheckLong() {
	long := strings.Repeat("abcdefghij", []int{100, 7000}[v.Choose("length", 2)])
	u := nx.Listen(v.Choose("h2", 2) == 1, func(d *nx.Duplex) {
		for {
			s, ok := d.Recv()
			if !ok {
				return
			}
			m, err := jlib.ParseBytes([]byte(s))
			v.Assert(err == nil && m.IsRequest(), "what the client sends are the requests")
			a, _ := jlib.MessageBytes(answerOf(m.(*jlib.RequestMessage)))
			d.Send(string(a))
		}
	})
	x, err := jlibhttp.NewClient(u.String())
	v.Assert(err == nil, "a known scheme gives a client")
	for i := 1; i <= 2; i++ {
		req := jlib.NewRequestMessage(i, []string{"echo", "fail"}[i-1], []interface{}{long})
		res, err := x.Call(context.Background(), req)
		isAnswer(res, err, req, long)
	}
	x.(interface{ Close() }).Close()
	v.Idle()
}
