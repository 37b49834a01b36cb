ID="t02-cut-answer"; PROP="T02"; PKG="http"
EDITS=[("http/h1_client.go","""		readed, err := buffer.ReadFrom(resp.Body)
		if err != nil {
""","""		readed, err := buffer.ReadFrom(resp.Body)
		if err != nil && readed <= 0 {
""")]
NEEDS="an answer with another status than 200 whose body breaks off partway"
BREAKS="a truncated body is handed over as the server's answer"
TEST='''package jlibhttp
import ("testing";"context";"errors";"fmt";"net/http";"net/http/httptest";"net/url";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		c, _, _ := w.(http.Hijacker).Hijack()
		fmt.Fprint(c, "HTTP/1.1 500 X\\r\\nContent-Length: 100\\r\\n\\r\\nabc")
		c.Close()
	}))
	defer s.Close()
	u, _ := url.Parse(s.URL)
	_, err := NewH1Client(u).Call(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{}))
	var wr *WrappedResponse
	if err == nil || errors.As(err, &wr) { t.Fatal(err) }
}
'''
