// Package d06: closing a connection notifies every actor exactly once.
package d06

import (
	"context"
	"net/http"
	"strconv"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hd"
	"verif/harness/v"
)

var _ = v.Reg("d06.CheckClose", CheckClose)
var _ = v.Reg("d06.CheckActor", CheckActor)
var _ = v.Reg("d06.CheckClient", CheckClient)

type session struct{ id string }

func (s *session) Send(m jlib.Message) {}
func (s *session) SessionID() string   { return s.id }

// trees of up to 5 (6 thorough) actors in any shape, assembled top down or bottom up, each with or without a close callback; a callback runs once per connection closed, for two connections
//v:reach=done
func CheckClose() {
	n := v.Choose("actors", v.N(5, 6)) + 1
	actors := make([]*jlibhttp.Actor, n)
	has := make([]bool, n)
	calls := make([]int, n)
	parent := make([]int, n)
	var wantR *http.Request
	var wantS jlibhttp.RPCSession
	for i := range actors {
		i := i
		actors[i] = jlibhttp.NewActor()
		has[i] = v.Choose("close"+strconv.Itoa(i), 2) == 1
		if has[i] {
			err := actors[i].OnClose(func(r *http.Request, s jlibhttp.RPCSession) {
				calls[i]++
				v.Assert(r == wantR && s == wantS, "the callback gets the connection's request and session")
			})
			v.Assert(err == nil, "the first close callback is accepted")
		}
		if i > 0 {
			parent[i] = v.Choose("parent"+strconv.Itoa(i), i)
		}
	}
	if v.Choose("order", 2) == 0 {
		for i := 1; i < n; i++ {
			actors[parent[i]].AddChild(actors[i])
		}
	} else {
		for i := n - 1; i > 0; i-- {
			actors[parent[i]].AddChild(actors[i])
		}
	}
	for c := 1; c <= 2; c++ {
		wantR, wantS = &http.Request{}, &session{strconv.Itoa(c)}
		actors[0].HandleClose(wantR, wantS)
		for i := range actors {
			want := 0
			if has[i] {
				want = c
			}
			v.Assert(calls[i] == want, "the close callback of every actor of the tree runs exactly once")
		}
	}
	v.Reach("done")
}

// second registrations on an actor are refused and leave the first in force
//v:reach=done
func CheckActor() {
	a := jlibhttp.NewActor()
	got := ""
	for i := 0; i < 3; i++ {
		id := strconv.Itoa(i)
		err := a.OnRequest("m", func(r *jlibhttp.RPCRequest, p []interface{}) (interface{}, error) { got += "m" + id; return nil, nil })
		v.Assert((err == nil) == (i == 0), "a second handler for a method is refused")
		err = a.OnMissing(func(r *jlibhttp.RPCRequest) (interface{}, error) { got += "x" + id; return nil, nil })
		v.Assert((err == nil) == (i == 0), "a second missing handler is refused")
		err = a.OnClose(func(r *http.Request, s jlibhttp.RPCSession) { got += "c" + id })
		v.Assert((err == nil) == (i == 0), "a second close callback is refused")
		err = a.OnTypedRequest("m", func(r *jlibhttp.RPCRequest) (int, error) { got += "t" + id; return 0, nil })
		v.Assert(err != nil, "a second handler for a method is refused")
		err = a.OnTypedContext("m", func(r context.Context) (int, error) { got += "t" + id; return 0, nil })
		v.Assert(err != nil, "a second handler for a method is refused")
		if v.Choose("use"+id, 2) == 1 {
			got = ""
			m := v.ASCII("m"+id, 1)
			v.Assume(m != "")
			hd.Feed(a, jlib.NewRequestMessage(1, m, nil))
			a.HandleClose(nil, nil)
			if m == "m" {
				v.Assert(got == "m0c0", "the first callbacks stay in force")
			} else {
				v.Assert(got == "x0c0", "the first callbacks stay in force")
			}
		}
	}
	v.Reach("done")
}

// second registrations on a streaming client are refused
//v:reach=done
func CheckClient() {
	c := &jlibhttp.StreamingClient{}
	order := v.Choose("order", 6)
	seq := [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}[order]
	for round := 0; round < 2; round++ {
		for _, k := range seq {
			var err error
			switch k {
			case 0:
				err = c.OnMessage(func(m jlib.Message) {})
			case 1:
				err = c.OnConnected(func() {})
			default:
				err = c.OnClose(func() {})
			}
			v.Assert((err == nil) == (round == 0), "a second callback for an event is refused")
		}
	}
	v.Reach("done")
}
