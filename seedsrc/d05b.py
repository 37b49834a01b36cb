ID="d05-shared-args"; PROP="D05"; PKG="http"
EDITS=[("http/typewrap.go","	handler := func(req *RPCRequest, params []interface{}) (interface{}, error) {\n","	fnArgs := []reflect.Value{}\n	handler := func(req *RPCRequest, params []interface{}) (interface{}, error) {\n"),
("http/typewrap.go","		fnArgs := []reflect.Value{}\n		if","		fnArgs = fnArgs[:0]\n		if")]
NEEDS="two calls of one typed handler at the same time"
BREAKS="a handler is invoked with the arguments of the other call"
FLAGS="-race"
TEST='''package jlibhttp
import ("testing";"context";"sync";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.OnTyped("m", func(n int, s string) (int, error) { return n, nil })
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 300; k++ {
				m := jlib.NewRequestMessage(1, "m", []interface{}{i*1000+k, "x"})
				res, err := a.Feed(NewRPCRequest(context.Background(), m, TransportHTTP, nil))
				if err != nil || !res.IsResult() || res.MustResult() != i*1000+k { t.Error("wrong answer", res, err); return }
			}
		}()
	}
	wg.Wait()
}
'''
