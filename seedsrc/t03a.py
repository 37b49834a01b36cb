ID="t03-fallback-actor"; PROP="T03"; PKG="http"
EDITS=[("http/h2_server.go","		self.fallbackHandler = NewH1Handler(self.Actor)\n","		self.fallbackHandler = NewH1Handler(nil)\n")]
NEEDS="an HTTP/1.1 request asking for h2c at a gateway behind TLS"
BREAKS="the request is answered by an actor of its own, not the shared one"
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"strings")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) { return "yes", nil })
	g := NewGatewayHandler(context.Background(), a, false)
	r := httptest.NewRequest("POST", "/", strings.NewReader(`{"id":1,"method":"m","params":[]}`))
	r.Header.Set("Connection", "Upgrade, HTTP2-Settings")
	r.Header.Set("Upgrade", "h2c")
	rec := httptest.NewRecorder()
	g.ServeHTTP(rec, r)
	if !strings.Contains(rec.Body.String(), "yes") { t.Fatal(rec.Body.String()) }
}
'''
