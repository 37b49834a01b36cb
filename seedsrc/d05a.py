ID="d05-trailing-null"; PROP="D05"; PKG="http"
EDITS=[("http/typewrap.go","""		// check inputs
		if numIn > len(params)+firstArgNum {
""","""		// check inputs
		for len(params) > 0 && params[len(params)-1] == nil {
			params = params[:len(params)-1]
		}
		if numIn > len(params)+firstArgNum {
""")]
NEEDS="null sent for a trailing any, pointer or map argument"
BREAKS="the call is refused although the null converts"
TEST='''package jlibhttp
import ("testing";"context";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.OnTyped("m", func(x int, y interface{}) (int, error) { return x, nil })
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{1, nil}), TransportHTTP, nil))
	if err != nil || !res.IsResult() { t.Fatal(res, err) }
}
'''
