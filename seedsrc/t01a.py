ID="t01-wrapped-headers"; PROP="T01"; PKG="http"
EDITS=[("http/h1_server.go","					w.Header().Add(hn, hv)\n","					w.Header().Set(hn, hv)\n")]
NEEDS="a handler that hands back an upstream response with a repeated header"
BREAKS="only the last value of a repeated header of a wrapped response reaches the client"
TEST='''package jlibhttp
import ("testing";"net/http";"net/http/httptest";"strings")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) {
		return nil, &WrappedResponse{Response: &http.Response{StatusCode: 503, Header: http.Header{"Set-Cookie": []string{"a=1", "b=2"}}}, Body: []byte("x")}
	})
	rec := httptest.NewRecorder()
	NewH1Handler(a).ServeHTTP(rec, httptest.NewRequest("POST", "/", strings.NewReader(`{"id":1,"method":"m","params":[]}`)))
	if rec.Code != 503 || len(rec.Header()["Set-Cookie"]) != 2 { t.Fatal(rec.Code, rec.Header()) }
}
'''
