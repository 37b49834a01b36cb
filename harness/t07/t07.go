// Package t07: losing or closing a streaming connection never hangs the
// client.
package t07

import (
	"context"
	"errors"
	"sync"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/tx"
	"verif/harness/v"
)

var _ = v.Reg("t07.CheckLoss", CheckLoss)
var _ = v.Reg("t07.CheckOverlap", CheckOverlap)
var _ = v.Reg("t07.CheckTwice", CheckTwice)
var _ = v.Reg("t07.CheckCallbacks", CheckCallbacks)
var _ = v.Reg("t07.CheckRefused", CheckRefused)
var _ = v.Reg("t07.CheckJam", CheckJam)
var _ = v.Reg("t07.CheckQueue", CheckQueue)
var _ = v.Reg("t07.CheckWSClient", CheckWSClient)
var _ = v.Reg("t07.CheckH2Client", CheckH2Client)

type count struct {
	mu sync.Mutex
	n  int
}

func (c *count) add() { c.mu.Lock(); c.n++; c.mu.Unlock() }
func (c *count) get() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.n
}

func echo(c *tx.Conn, msg jlib.Message) {
	if req, ok := msg.(*jlib.RequestMessage); ok {
		c.Deliver(jlib.NewResultMessage(req, req.Params[0]))
	}
}

type world struct {
	l      *tx.Link
	c      *jlibhttp.StreamingClient
	closed *count
}

func setup() *world {
	w := &world{l: &tx.Link{Write: echo}, c: &jlibhttp.StreamingClient{}, closed: &count{}}
	w.c.InitStreaming(tx.URL(), w.l)
	w.c.OnClose(w.closed.add)
	return w
}

// call makes a call that may fail but must end with its own answer or an error.
func (w *world) call(ctx context.Context, id int, tag string) bool {
	req := jlib.NewRequestMessage(id, "echo", []interface{}{tag})
	res, err := w.c.Call(ctx, req)
	v.Assert((err == nil) == (res != nil), "a call returns an answer or an error")
	if err != nil || res == nil {
		return false
	}
	v.Assert(res.IsResultOrError() && res.MustId() == req.Id, "the answer carries the caller's id")
	if res.IsError() {
		v.Assert(res.MustError().Code == jlib.ErrTimeout.Code, "the error is the timeout")
		return false
	}
	v.Assert(res.MustResult() == interface{}(tag), "the answer is the one to this very call")
	return true
}

// later: a call made when all is quiet reconnects if need be and works.
func (w *world) later() {
	v.Idle()
	v.Preempt(0)
	v.Assert(w.call(context.Background(), 9, "later"), "a later call reconnects and works")
	v.Assert(w.c.Connected(), "a later call leaves the client connected")
}

// lose ends the connection.
func (w *world) lose(how string, cancel func()) {
	switch how {
	case "break":
		if cn := w.l.Cur(); cn != nil {
			cn.Break()
		}
	case "close":
		w.c.Close()
	case "reset":
		w.c.Reset(errors.New("reset"))
	case "cancel":
		cancel()
	}
}

// wait does what a waiter does: it must return once the connection it saw is gone.
func (w *world) wait(wg *sync.WaitGroup) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		w.c.Wait()
	}()
}

// a connected client with two waiters and one call under way when the peer breaks the connection, the client closes or resets it or its context ends, at any point; then a later call
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckLoss() {
	w := setup()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	v.Assert(w.call(ctx, 1, "first"), "the first call works")
	how := v.Pick("how", "break", "close", "reset", "cancel")
	v.Selects(v.N(2, 4))
	var wg sync.WaitGroup
	v.Preempt(v.N(2, 3))
	w.wait(&wg)
	w.wait(&wg)
	wg.Add(1)
	bg := context.Background()
	go func() {
		defer wg.Done()
		w.call(bg, 2, "second")
	}()
	w.lose(how, cancel)
	v.Idle()
	if !w.c.Connected() {
		wg.Wait() // the waiters
	}
	w.later()
	w.c.Close()
	wg.Wait()
	v.Idle()
	lost := w.l.Conns()
	if how == "break" {
		v.Assert(w.closed.get() >= 1, "the close callback runs for a lost connection")
	}
	v.Assert(w.closed.get() <= lost, "the close callback runs at most once per connection")
}

// a call and a send by two goroutines on a client that is not connected yet, while the connection is lost at any point
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckOverlap() {
	w := setup()
	how := v.Pick("how", "break", "close")
	when := v.Choose("when", 4) // after so many events of the transport
	ev := make(chan bool, 16)
	w.l.Event = func() { ev <- true }
	var wg sync.WaitGroup
	v.Preempt(v.N(2, 3))
	ctx := context.Background()
	wg.Add(2)
	go func() {
		defer wg.Done()
		w.call(ctx, 1, "one")
	}()
	go func() {
		defer wg.Done()
		w.c.Send(ctx, jlib.NewNotifyMessage("n", []interface{}{}))
	}()
	for i := 0; i < when; i++ {
		<-ev
	}
	w.lose(how, nil)
	wg.Wait()
	w.later()
}

// two connections lost one after the other by the peer: the callback runs once for each and a waiter returns each time
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckTwice() {
	w := setup()
	ctx := context.Background()
	v.Preempt(v.N(2, 3))
	for i := 1; i <= 2; i++ {
		v.Assert(w.call(ctx, i, "x"), "a call on a fresh connection works")
		var wg sync.WaitGroup
		w.wait(&wg)
		w.l.Cur().Break()
		wg.Wait()
		v.Idle()
		v.Assert(w.closed.get() == i, "the close callback runs exactly once per lost connection")
		v.Assert(!w.c.Connected(), "a lost connection is not connected")
		v.Assert(w.c.Wait() == nil, "waiting without a connection returns")
	}
	v.Assert(w.l.Conns() == 2, "each loss leads to one new connection")
}

// callbacks that use the client: the connected callback sends a message, the close callback connects again
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckCallbacks() {
	l := &tx.Link{}
	hello := &count{}
	l.Write = func(c *tx.Conn, m jlib.Message) {
		if m.IsNotify() {
			hello.add()
		}
		echo(c, m)
	}
	c := &jlibhttp.StreamingClient{}
	c.InitStreaming(tx.URL(), l)
	w := &world{l: l, c: c, closed: &count{}}
	ctx := context.Background()
	c.OnConnected(func() {
		err := c.Send(ctx, jlib.NewNotifyMessage("hello", []interface{}{}))
		v.Assert(err == nil, "the connected callback can send")
	})
	c.OnClose(func() {
		w.closed.add()
		if w.closed.get() == 1 {
			v.Assert(c.Connect(ctx) == nil, "the close callback can connect again")
		}
	})
	v.Preempt(v.N(2, 3))
	v.Assert(w.call(ctx, 1, "x"), "the first call works")
	l.Cur().Break()
	v.Idle()
	v.Assert(w.closed.get() == 1, "the close callback runs exactly once per lost connection")
	v.Assert(c.Connected() && l.Conns() == 2, "the close callback made a new connection")
	w.later()
	v.Idle()
	v.Assert(hello.get() == 2, "the connected callback runs once per connection")
}

// connection attempts refused at any of the first tries, from two goroutines
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckRefused() {
	w := setup()
	bad := v.Choose("refused", 3)
	w.l.Refuse = func(n int) bool { return n == bad || n == bad+1 && bad == 0 }
	var wg sync.WaitGroup
	ctx := context.Background()
	v.Preempt(v.N(2, 3))
	ok := make([]bool, 2)
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok[i] = w.call(ctx, i, "x")
		}()
	}
	wg.Wait()
	v.Assert(ok[0] == (bad != 0) && ok[1] == (bad != 0), "a call fails exactly when its connection attempt is refused")
	w.later()
	v.Assert(w.closed.get() == 0, "a refused attempt is not a lost connection")
}

// a connection whose writes fail from its first, second or third message on while nothing arrives either: the call under way ends, a waiter returns, later calls work; from one or two goroutines
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckJam() {
	w := setup()
	from := v.Choose("from", 3)
	n := 0
	w.l.Jam = func(c *tx.Conn, m jlib.Message) bool {
		n++
		return c.N == 0 && n > from
	}
	ctx := context.Background()
	v.Assert(w.c.Connect(ctx) == nil, "the client connects")
	var wg sync.WaitGroup
	v.Preempt(v.N(1, 2))
	w.wait(&wg)
	for i, k := 1, 1+v.Choose("callers", 2); i <= k; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.c.Send(ctx, jlib.NewNotifyMessage("n", []interface{}{}))
			w.call(ctx, i, "x")
			w.call(ctx, 10+i, "y")
		}()
	}
	wg.Wait()
	w.later()
	v.Assert(w.closed.get() == 1, "the close callback runs exactly once per lost connection")
	v.Assert(w.l.Conns() == 2, "each loss leads to one new connection")
}

// more messages queued than the client buffers on a connection that stopped taking them, and then is lost
//v:fields time=60 ttime=200 samples=1 tries=16
func CheckQueue() {
	w := setup()
	stuck := make(chan bool)
	w.l.Write = func(c *tx.Conn, m jlib.Message) {
		if m.IsNotify() && m.MustMethod() == "stick" {
			<-stuck
			return
		}
		echo(c, m)
	}
	ctx := context.Background()
	how := v.Pick("how", "break", "close")
	v.Selects(v.N(2, 3))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		w.c.Send(ctx, jlib.NewNotifyMessage("stick", []interface{}{}))
		for i := 0; i < 103; i++ {
			w.c.Send(ctx, jlib.NewNotifyMessage("n", []interface{}{}))
			if !w.c.Connected() {
				return
			}
		}
	}()
	v.Idle()
	v.Preempt(v.N(2, 3))
	w.lose(how, nil)
	v.Idle()
	close(stuck)
	wg.Wait()
	w.later()
}

// real runs a WSClient or H2Client against a server that answers and breaks
// connections.
func real(h2 bool, preempt int) {
	how := v.Pick("how", "break", "close", "garbage")
	when := v.Choose("when", 3) // after so many requests
	answer := v.Choose("answer", 2) == 1
	n := 0
	ev := make(chan bool, 16)
	u := nx.Listen(h2, func(d *nx.Duplex) {
		for {
			s, ok := d.Recv()
			if !ok {
				return
			}
			msg, err := jlib.ParseBytes([]byte(s))
			v.Assert(err == nil, "what the client sends are messages")
			req, ok := msg.(*jlib.RequestMessage)
			v.Assert(ok, "what the client sends are the requests")
			n++
			last := n == when && how != "close"
			if !last || answer {
				b, _ := jlib.MessageBytes(jlib.NewResultMessage(req, req.Params[0]))
				d.Send(string(b))
			}
			ev <- true
			if last {
				if how == "garbage" {
					d.Send("][")
				} else {
					return
				}
			}
		}
	})
	var c *jlibhttp.StreamingClient
	if h2 {
		c = &jlibhttp.NewH2Client(u).StreamingClient
	} else {
		c = &jlibhttp.NewWSClient(u).StreamingClient
	}
	w := &world{c: c, closed: &count{}}
	c.OnClose(w.closed.add)
	var wg sync.WaitGroup
	v.Preempt(preempt)
	for i := 1; i <= 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.call(context.Background(), i, "x")
		}()
	}
	if how == "close" {
		for i := 0; i < when; i++ {
			<-ev
		}
		c.Close()
	}
	v.Idle()
	wg.Wait()
	w.later()
	if how != "close" && when > 0 {
		v.Assert(w.closed.get() == 1, "the close callback runs exactly once per lost connection")
	}
	w.wait(&wg)
	c.Close()
	wg.Wait()
	v.Idle()
	v.Assert(!c.Connected(), "a closed client is not connected")
}

// two calls of a websocket client while the server drops the connection after any number of requests or sends garbage, or the client closes it; one scheduling deviation (two in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckWSClient() { real(false, v.N(1, 2)) }

// the same for an HTTP/2 client
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckH2Client() { real(true, v.N(1, 2)) }
