ID="t01-broken-body"; PROP="T01"; PKG="http"
EDITS=[("http/h1_server.go","""	_, err := buffer.ReadFrom(r.Body)
	if err != nil {
""","""	readed, err := buffer.ReadFrom(r.Body)
	if err != nil && readed == 0 {
""")]
NEEDS="a request body that breaks off after the bytes of a complete document"
BREAKS="an unreadable body is not answered 400, its message is handled"
TEST='''package jlibhttp
import ("testing";"errors";"io";"net/http/httptest";"strings")
type brk struct{}
func (brk) Read([]byte) (int, error) { return 0, errors.New("broken") }
func TestDemo(t *testing.T) {
	ran := false
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) { ran = true; return 1, nil })
	rec := httptest.NewRecorder()
	NewH1Handler(a).ServeHTTP(rec, httptest.NewRequest("POST", "/", io.MultiReader(strings.NewReader(`{"id":1,"method":"m","params":[]}`), brk{})))
	if rec.Code != 400 || ran { t.Fatal(rec.Code, ran) }
}
'''
