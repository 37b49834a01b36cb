// Package e01: the FIFO example behaves as one shared queue.
package e01

import (
	"context"
	"fmt"
	"net/http"
	"os"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"verif/harness/cli"
	"verif/harness/gen/fifo"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("e01.CheckQueue", CheckQueue)
var _ = v.Reg("e01.CheckTorn", CheckTorn)
var _ = v.Reg("e01.CheckSubscribe", CheckSubscribe)
var _ = v.Reg("e01.CheckLeave", CheckLeave)
var _ = v.Reg("e01.CheckListed", CheckListed)
var _ = v.Reg("e01.CheckSubscribeRace", CheckSubscribeRace)
var _ = v.Reg("e01.CheckLeaveRace", CheckLeaveRace)

func start() http.Handler {
	os.Args = []string{"fifo"}
	go fifo.Main()
	return (<-cli.Serving).Handler
}

// op is one operation of a client and what it was told.
type op struct {
	method string
	params []interface{}
	answer string
}

func (o *op) run(h http.Handler) {
	b, err := jlib.MessageBytes(jlib.NewRequestMessage(1, "fifo_"+o.method, o.params))
	v.Assert(err == nil, "a request can be encoded")
	rec := nx.NewRecorder()
	h.ServeHTTP(rec, nx.Request("POST", strings.NewReader(string(b))))
	rec.Done()
	v.Assert(rec.Code == 200, "the service answers")
	o.answer = show(rec.Body.String())
}

// show renders an answer: the result as text, or the error's code.
func show(s string) string {
	m, err := jlib.ParseBytes([]byte(s))
	if err != nil || !m.IsResultOrError() {
		return "malformed"
	}
	if m.IsError() {
		return fmt.Sprint("error ", m.MustError().Code)
	}
	return text(m.MustResult())
}

func text(x interface{}) string {
	switch x := x.(type) {
	case string:
		return x
	case []interface{}:
		out := "["
		for _, e := range x {
			out += text(e) + " "
		}
		return out + "]"
	}
	return "?"
}

// queue is the sequential meaning of the service.
type queue []string

func (q queue) do(o *op) (queue, string) {
	switch o.method {
	case "push":
		if len(o.params) == 0 {
			return q, "error -400"
		}
		q = append(queue{}, q...)
		for _, p := range o.params {
			q = append(q, p.(string))
		}
		return q, "ok"
	case "pop":
		if len(q) == 0 {
			return q, "error -400"
		}
		return q[:len(q)-1], "ok"
	case "get":
		i := o.params[0].(int)
		if i < 0 || i >= len(q) {
			return q, "error -400"
		}
		return q, q[i]
	default: // list
		out := "["
		for _, e := range q {
			out += e + " "
		}
		return q, out + "]"
	}
}

// explained tells whether some interleaving of the clients' operations,
// followed by the last one, gives the answers seen.
func explained(q queue, as, bs []*op, last *op) bool {
	if len(as) == 0 && len(bs) == 0 {
		_, ans := q.do(last)
		return ans == last.answer
	}
	if len(as) > 0 {
		if r, ans := q.do(as[0]); ans == as[0].answer && explained(r, as[1:], bs, last) {
			return true
		}
	}
	if len(bs) > 0 {
		if r, ans := q.do(bs[0]); ans == bs[0].answer && explained(r, as, bs[1:], last) {
			return true
		}
	}
	return false
}

func pick(name string) *op {
	switch v.Choose(name, 6) {
	case 0:
		return &op{method: "push", params: []interface{}{name}}
	case 1:
		return &op{method: "pop", params: []interface{}{}}
	case 2:
		return &op{method: "list", params: []interface{}{}}
	case 3:
		return &op{method: "get", params: []interface{}{v.Choose(name+".at", 4) - 1}}
	case 4:
		return &op{method: "push", params: []interface{}{name + "1", name + "2"}}
	default:
		return &op{method: "push", params: []interface{}{}}
	}
}

// two clients doing two operations and one (two each in the thorough tier) at a time on a queue of 0 or 2 elements, one scheduling deviation; a final listing; without the combinations of CheckListed
//v:fields time=60 ttime=400 samples=4 tries=8
func CheckQueue() {
	h := start()
	q := fill(h, 2*v.Choose("initial", 2))
	as := []*op{pick("a"), pick("aa")}
	bs := []*op{pick("b")}
	if v.N(0, 1) == 1 {
		bs = append(bs, pick("bb"))
	}
	v.Assume(!(has(as, "list") && overwrites(bs)) && !(has(bs, "list") && overwrites(as)))
	v.Races()
	together(h, q, as, bs)
}

func has(ops []*op, method string) bool {
	for _, o := range ops {
		if o.method == method {
			return true
		}
	}
	return false
}

// overwrites: a pop is followed by a push.
func overwrites(ops []*op) bool {
	popped := false
	for _, o := range ops {
		if o.method == "push" && popped {
			return true
		}
		popped = popped || o.method == "pop"
	}
	return false
}

func fill(h http.Handler, n int) queue {
	q := queue{}
	for ; n > 0; n-- {
		o := &op{method: "push", params: []interface{}{fmt.Sprint("i", n)}}
		o.run(h)
		q, _ = q.do(o)
	}
	return q
}

// one client pushing or popping single elements four times, another one getting an element, three elements at first, one scheduling deviation
//v:fields time=60 ttime=400 samples=4 tries=8
func CheckTorn() {
	torn(&op{method: "get", params: []interface{}{v.Choose("at", 4)}})
}

// the same with another one listing: a listing during a pop and a push after it
//v:fields time=60 samples=0 tries=8
func CheckListed() { torn(&op{method: "list", params: []interface{}{}}) }

func torn(b *op) {
	h := start()
	q := fill(h, 3)
	var as []*op
	for i := 0; i < 4; i++ {
		n := fmt.Sprint("a", i)
		o := &op{method: "push", params: []interface{}{n}}
		if v.Choose(n, 2) == 1 {
			o = &op{method: "pop", params: []interface{}{}}
		}
		as = append(as, o)
	}
	together(h, q, as, []*op{b})
}

// together runs the operations of two clients at the same time.
func together(h http.Handler, q queue, as, bs []*op) {
	var wg sync.WaitGroup
	v.Encoding()
	v.Preempt(1)
	wg.Add(2)
	clients := [][]*op{as, bs}
	if v.Choose("order", 2) == 1 {
		clients = [][]*op{bs, as}
	}
	for _, ops := range clients {
		ops := ops
		go func() {
			defer wg.Done()
			for _, o := range ops {
				o.run(h)
			}
		}()
	}
	wg.Wait()
	v.Preempt(0)
	last := &op{method: "list", params: []interface{}{}}
	last.run(h)
	v.Assert(explained(q, as, bs, last), "the answers are those of some sequential order")
}

// sub is a websocket subscriber.
type sub struct {
	c    *websocket.Conn
	ok   chan bool
	mu   sync.Mutex
	got  []string
	gone chan bool
}

func join(h http.Handler) *sub {
	s := &sub{ok: make(chan bool, 1), gone: make(chan bool)}
	s.c, _, _ = nx.DialWS(context.Background(), h)
	go func() {
		defer close(s.gone)
		for {
			_, b, err := s.c.ReadMessage()
			if err != nil {
				return
			}
			m, err := jlib.ParseBytes(b)
			v.Assert(err == nil, "what the service sends are messages")
			if m.IsNotify() {
				v.Assert(m.MustMethod() == "fifo_subscription" && len(m.MustParams()) == 1, "a subscriber gets one element per notification")
				s.mu.Lock()
				s.got = append(s.got, text(m.MustParams()[0]))
				s.mu.Unlock()
			} else {
				v.Assert(m.IsResult() && m.MustResult() == interface{}("ok"), "subscribing works")
				s.ok <- true
			}
		}
	}()
	b, _ := jlib.MessageBytes(jlib.NewRequestMessage(1, "fifo_subscribe", []interface{}{}))
	s.c.WriteMessage(websocket.TextMessage, b)
	return s
}

func (s *sub) have() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return strings.Join(s.got, " ")
}

// one subscriber, a second one subscribing while elements are pushed by two clients, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckSubscribe() { subscribe(false) }

// the same, with map accesses checked for synchronisation
//v:fields time=60 samples=0 tries=8
func CheckSubscribeRace() { subscribe(true) }

func subscribe(races bool) {
	h := start()
	one := join(h)
	<-one.ok
	if races {
		v.Races()
	}
	v.Preempt(v.N(2, 3))
	two := join(h)
	var wg sync.WaitGroup
	wg.Add(2)
	for _, ps := range [][]interface{}{{"a", "b"}, {"c"}} {
		o := &op{method: "push", params: ps}
		go func() {
			defer wg.Done()
			o.run(h)
			v.Assert(o.answer == "ok", "pushing works")
		}()
	}
	wg.Wait()
	<-two.ok
	v.Idle()
	g := one.have()
	v.Assert(g == "a b c" || g == "c a b", "a subscriber gets each pushed element exactly once, in order")
	late := two.have()
	v.Assert(late == "" || late == g || strings.HasSuffix(g, late), "a subscriber gets each element pushed after it subscribed")
	v.Preempt(0)
	(&op{method: "push", params: []interface{}{"z"}}).run(h)
	v.Idle()
	v.Assert(one.have() == g+" z" && strings.TrimSpace(late+" z") == two.have(), "every subscriber gets an element pushed later")
}

// two subscribers, one leaving while an element is pushed and a third one subscribes, two scheduling deviations (three in the thorough tier)
//v:fields time=60 ttime=400 samples=2 tries=8
func CheckLeave() { leave(false) }

// the same, with map accesses checked for synchronisation
//v:fields time=60 samples=0 tries=8
func CheckLeaveRace() { leave(true) }

func leave(races bool) {
	h := start()
	one, two := join(h), join(h)
	<-one.ok
	<-two.ok
	if races {
		v.Races()
	}
	v.Preempt(v.N(2, 3))
	three := join(h)
	o := &op{method: "push", params: []interface{}{"a"}}
	done := make(chan bool)
	go func() {
		defer close(done)
		o.run(h)
	}()
	one.c.Close()
	<-done
	<-three.ok
	v.Idle()
	v.Assert(o.answer == "ok", "pushing works while a subscriber leaves")
	v.Assert(two.have() == "a", "the remaining subscriber gets the element exactly once")
	v.Assert(three.have() == "" || three.have() == "a", "a new subscriber gets the element at most once")
	v.Preempt(0)
	n := three.have()
	(&op{method: "push", params: []interface{}{"z"}}).run(h)
	v.Idle()
	v.Assert(two.have() == "a z", "every subscriber gets an element pushed later")
	v.Assert(three.have() == strings.TrimSpace(n+" z"), "every subscriber gets an element pushed later")
}
