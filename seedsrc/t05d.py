ID='t05-read-limit'; PROP='T05'; PKG='http'
EDITS=[('http/ws_server.go','	defer ws.Close()\n','	defer ws.Close()\n	ws.SetReadLimit(1 << 15)\n')]
NEEDS='a websocket request longer than 32 KiB, then any other request'
BREAKS='the long request is never answered and the session ends'
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"net/url";"strings";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("size", func(params []interface{}) (interface{}, error) { return len(params[0].(string)), nil })
	ctx := context.Background()
	s := httptest.NewServer(NewWSHandler(ctx, a))
	u, _ := url.Parse("ws" + strings.TrimPrefix(s.URL, "http"))
	c := NewWSClient(u)
	for _, n := range []int{10, 20000, 50000, 10} {
		var got int
		if err := c.UnwrapCall(ctx, jlib.NewRequestMessage(1, "size", []interface{}{strings.Repeat("a", n)}), &got); err != nil || got != n {
			t.Fatal(n, got, err)
		}
	}
}
'''
