// Package hd holds helpers of the actor harnesses.
package hd

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"net/http"
	"strconv"

	pkgerrors "github.com/pkg/errors"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hx"
	"verif/harness/v"
)

// Plain is an ordinary error of the handler.
type Plain struct{ Text string }

func (e *Plain) Error() string { return e.Text }

// Outcome is what a handler does.
type Outcome struct {
	Kind  string // value, message, plain, rpc, wrapped, simple
	Value interface{}
	Err   error // what is returned or panicked with
	RPC   *jlib.RPCError
	Resp  *jlibhttp.WrappedResponse
	Panic bool
	Other interface{} // panicked with when not nil
}

// RPCError is any JSON-RPC error object.
func RPCError(name string) *jlib.RPCError {
	e := &jlib.RPCError{Code: v.Int(name + ".code"), Message: v.ASCII(name+".message", 2)}
	if v.Choose(name+".hasdata", 2) == 1 {
		e.Data = v.Value(name+".data", hx.Val())
	}
	return e
}

// Wrap puts an error under 0, 1 or 2 layers of the wrappers Go programs use.
func Wrap(name string, err error) error {
	switch v.Choose(name+".wrap", 5) {
	case 1:
		return fmt.Errorf("context: %w", err)
	case 2:
		return pkgerrors.Wrap(err, "context")
	case 3:
		return fmt.Errorf("outer: %w", pkgerrors.Wrap(err, "inner"))
	case 4:
		return pkgerrors.WithStack(err)
	}
	return err
}

// Any is any handler outcome of the kinds.
func Any(name string, kinds ...string) *Outcome {
	if len(kinds) == 0 {
		kinds = []string{"value", "plain", "rpc", "wrapped", "simple"}
	}
	o := &Outcome{Kind: kinds[v.Choose(name+".kind", len(kinds))]}
	switch o.Kind {
	case "message":
		switch v.Choose(name+".message", 4) {
		case 0:
			o.Value = jlib.NewResultMessage(jlib.NewRequestMessage(7, "x", nil), v.Bool(name+".r"))
		case 1:
			o.Value = jlib.ErrTimeout.ToMessageFromId("other", "")
		case 2:
			o.Value = jlib.NewNotifyMessage("x", nil)
		default:
			o.Value = jlib.NewRequestMessage(8, "x", nil)
		}
		return o
	case "value":
		o.Value = v.Value(name+".value", hx.Val())
		return o
	case "plain":
		switch v.Choose(name+".plain", 3) {
		case 0:
			o.Err = errors.New("secret " + v.ASCII(name+".text", 2))
		case 1:
			o.Err = &Plain{"secret"}
		default:
			o.Err = context.DeadlineExceeded
		}
	case "rpc":
		o.RPC = RPCError(name + ".rpc")
		o.Err = o.RPC
	case "wrapped":
		o.Resp = &jlibhttp.WrappedResponse{Response: &http.Response{StatusCode: v.Int(name + ".status")}, Body: []byte("body")}
		o.Err = o.Resp
	case "simple":
		o.Err = &jlibhttp.SimpleResponse{Code: v.Int(name + ".status"), Body: []byte("body")}
	}
	o.Err = Wrap(name, o.Err)
	o.Panic = v.Choose(name+".panic", 2) == 1
	return o
}

// Do is what the handler's body does.
func (o *Outcome) Do() (interface{}, error) {
	if o.Other != nil {
		panic(o.Other)
	}
	if o.Panic {
		panic(o.Err)
	}
	return o.Value, o.Err
}

// Request makes a request with any id and trace id.
func Request(method string, params interface{}) *jlib.RequestMessage {
	m := jlib.NewRequestMessage(hx.ID("id"), method, params)
	m.SetTraceId(v.ASCII("trace", 2))
	return m
}

// Feed gives a message to an actor.
func Feed(a *jlibhttp.Actor, m jlib.Message) (jlib.Message, error) {
	return a.Feed(jlibhttp.NewRPCRequest(context.Background(), m, jlibhttp.TransportHTTP, nil))
}

// Session is a connection of a streaming client.
type Session struct{ ID string }

func (s *Session) Send(m jlib.Message) {}
func (s *Session) SessionID() string   { return s.ID }

// FeedFrom gives a message to an actor with or without a session of a
// streaming server.
func FeedFrom(a *jlibhttp.Actor, m jlib.Message) (jlib.Message, error) {
	if v.Choose("from", 2) == 0 {
		return Feed(a, m)
	}
	return FeedSession(a, m, []string{jlibhttp.TransportWebsocket, jlibhttp.TransportHTTP2}[v.Choose("stream", 2)])
}

// FeedSession gives a message to an actor as a streaming server does.
func FeedSession(a *jlibhttp.Actor, m jlib.Message, transport string) (jlib.Message, error) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	r := &http.Request{Method: "POST", Header: http.Header{}, RemoteAddr: "127.0.0.1:9"}
	req := jlibhttp.NewRPCRequest(ctx, m, transport, r)
	v.Set(req, "session", &Session{"s"})
	return a.Feed(req)
}

// Notify makes a notify with any trace id.
func Notify(method string, params interface{}) *jlib.NotifyMessage {
	m := jlib.NewNotifyMessage(method, params)
	m.SetTraceId(v.ASCII("trace", 2))
	return m
}

// Want says whether x must be accepted by (yes), must be rejected by (no) or
// may be either for a Go type, and what it is there.
func Want(x interface{}, t string) (val interface{}, yes, no bool) {
	switch t {
	case "string":
		switch s := x.(type) {
		case nil:
			return "", false, false
		case string:
			return s, true, false
		case json.Number:
			return s.String(), false, false // a number may be given as its text
		}
	case "int":
		switch s := x.(type) {
		case nil:
			return 0, false, false
		case int:
			return s, true, false
		case json.Number:
			i, err := strconv.ParseInt(string(s), 10, 64)
			if err == nil {
				return int(i), true, false
			}
		}
	case "float":
		switch s := x.(type) {
		case nil:
			return 0.0, false, false
		case json.Number:
			f, err := s.Float64()
			if err == nil {
				return f, true, false
			}
		}
	case "bool":
		switch s := x.(type) {
		case nil:
			return false, false, false
		case bool:
			return s, true, false
		}
	case "any":
		return x, true, false
	}
	return nil, false, true
}
