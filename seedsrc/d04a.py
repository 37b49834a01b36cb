ID="d04-missing-panic"; PROP="D04"; PKG="http"
EDITS=[("http/request.go","""				if err, ok := r.(error); ok {
					resmsg0, err0 = self.wrapResult(nil, err, req.Msg())
				} else {
					// rethrown the panic result
""","""				if err, ok := r.(interface{ Unwrap() error }); ok {
					resmsg0, err0 = self.wrapResult(nil, err.(error), req.Msg())
				} else if err, ok := r.(*jlib.RPCError); ok {
					resmsg0, err0 = self.wrapResult(nil, err, req.Msg())
				} else {
					// rethrown the panic result
""")]
NEEDS="a missing-method handler that panics with a plain error value (a nil map write, say)"
BREAKS="the panic escapes although recovery is on"
TEST='''package jlibhttp
import ("testing";"context";"errors";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.OnMissing(func(r *RPCRequest) (interface{}, error) { panic(errors.New("x")) })
	defer func() { if r := recover(); r != nil { t.Fatal("escaped", r) } }()
	a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{}), TransportHTTP, nil))
}
'''
