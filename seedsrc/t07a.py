ID="t07-h2-body"; PROP="T07"; PKG="http"
EDITS=[("http/h2_client.go","""		self.resp.Body.Close()
		self.resp = nil
""","""		self.resp = nil
""")]
NEEDS="an HTTP/2 client closed while the server keeps the stream open, and used again"
BREAKS="the read loop of the old stream blocks the new connection forever"
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"net/url";"strings";"time";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) { return "yes", nil })
	s := httptest.NewServer(NewH2Handler(context.Background(), a).H2CHandler())
	u, _ := url.Parse("h2c" + strings.TrimPrefix(s.URL, "http"))
	c := NewH2Client(u)
	ok := make(chan bool)
	go func() {
		for i := 0; i < 2; i++ {
			if _, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", []interface{}{})); err != nil { return }
			c.Close()
		}
		close(ok)
	}()
	select {
	case <-ok:
	case <-time.After(12 * time.Second): t.Fatal("no answer after reconnecting")
	}
}
'''
