ID="d04-wrapped-data"; PROP="D04"; PKG="http"
EDITS=[("http/request.go","""			return rpcErr.ToMessage(reqmsg), nil
""","""			if error(rpcErr) != err && rpcErr.Data == nil {
				// keep the context the error was wrapped in
				rpcErr = &jlib.RPCError{Code: rpcErr.Code, Message: rpcErr.Message, Data: err.Error()}
			}
			return rpcErr.ToMessage(reqmsg), nil
""")]
NEEDS="a handler error that wraps a JSON-RPC error object without data"
BREAKS="the wrapping text leaks to the caller as error data"
TEST='''package jlibhttp
import ("testing";"context";"fmt";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(p []interface{}) (interface{}, error) { return nil, fmt.Errorf("secret: %w", &jlib.RPCError{Code: 5, Message: "no"}) })
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{}), TransportHTTP, nil))
	if err != nil || res.MustError().Data != nil { t.Fatal(res, err) }
}
'''
