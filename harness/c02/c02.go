// Package c02: the watching program prints what the server pushes, across
// lost connections.
package c02

import (
	"strconv"

	"github.com/superisaac/jlib"
	"verif/harness/cli"
	"verif/harness/gen/watch"
	"verif/harness/hx"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("c02.CheckWatch", CheckWatch)

// a websocket or HTTP/2 server that accepts or refuses up to 3 (4) attempts and all later ones not, drops each connection, the first one after 0 to 2 pushes of any integer and the later ones after one;; retry limits 1 to 3; with or without a method to call
//v:reach=pushed,called,again,default time=60 ttime=400 samples=2 tries=4
func CheckWatch() {
	h2 := v.Choose("h2", 2) == 1
	plan := []bool{}
	for i := v.Choose("attempts", v.N(4, 5)); i > 0; i-- {
		plan = append(plan, v.Choose("accept"+strconv.Itoa(i), 2) == 1)
	}
	limit := 1 + v.Choose("limit", 3)
	method := v.Choose("call", 2) == 1

	conn := 0
	pushed := []int{}
	calls := 0
	f := nx.OpenFlaky(h2, plan, func(d *nx.Duplex) {
		conn++
		if method {
			t, ok := d.Recv()
			if !ok {
				return
			}
			msg, err := jlib.ParseBytes([]byte(t))
			v.Assert(err == nil && msg.IsRequest(), "the method is called")
			if err != nil || !msg.IsRequest() {
				return
			}
			v.Assert(msg.MustMethod() == "sub" && v.SameJSON(hx.Enc(msg.MustParams()), []byte(`[1,"x"]`)), "the call has the method and params given")
			calls++
			d.Send(string(hx.MustBytes(jlib.NewResultMessage(msg.(*jlib.RequestMessage), "called"))))
		}
		for i := 2; i > 0 && conn <= 1; i-- {
			if v.Choose("push"+strconv.Itoa(conn)+strconv.Itoa(i), 2) == 1 {
				x := v.Int("x" + strconv.Itoa(conn) + strconv.Itoa(i))
				pushed = append(pushed, x)
				d.Send(string(hx.MustBytes(jlib.NewNotifyMessage("push", []interface{}{x}))))
			}
		}
		if conn > 1 {
			pushed = append(pushed, conn)
			d.Send(string(hx.MustBytes(jlib.NewNotifyMessage("push", []interface{}{conn}))))
		}
	})
	defer f.Stop()

	args := []string{"-c", f.URL}
	if limit > 1 || v.Choose("explicit", 2) == 1 {
		args = append(args, "-retry", strconv.Itoa(limit))
	} else {
		v.Reach("default")
	}
	if method {
		args = append(args, "sub", "1", "x")
	}
	if len(plan) < 3 {
		v.Preempt(v.N(1, 2))
	} else {
		v.Preempt(0)
	}
	code := cli.Run(watch.Main, args...)

	// what should have happened
	failures, attempts, conns := 0, 0, 0
	for i := 0; failures < limit; i++ {
		attempts++
		if i < len(plan) && plan[i] {
			conns++
			failures = 0
		}
		failures++
	}
	v.Assert(code == 0, "the program ends in peace")
	v.Assert(f.Attempts() == attempts, "it gives up when attempts and losses in a row reach the limit, not before")
	v.Assert(conn == conns, "it connects again after a loss")
	if conns > 1 {
		v.Reach("again")
	}
	if method {
		v.Assert(calls == conns, "the method is called once on each connection")
	}
	got := []interface{}{}
	answers := 0
	for _, p := range cli.Stdout.Parts {
		msg, err := jlib.ParseBytes([]byte(p))
		v.Assert(err == nil, "each message is printed at once")
		if err != nil {
			continue
		}
		if msg.IsResult() {
			answers++
			v.Assert(msg.MustResult() == interface{}("called"), "the answer is printed")
			continue
		}
		v.Assert(msg.IsNotify() && msg.MustMethod() == "push", "the pushed message is printed")
		if msg.IsNotify() {
			got = append(got, msg.MustParams()[0])
		}
	}
	v.Assert(answers == calls, "every answer is printed")
	if calls > 0 {
		v.Reach("called")
	}
	v.Assert(len(got) == len(pushed), "every pushed message is printed once")
	for i := range got {
		if i < len(pushed) {
			v.Reach("pushed")
			v.Assert(v.SameJSON(hx.Enc(got[i]), hx.Enc(pushed[i])), "pushed messages are printed in order")
		}
	}
}
