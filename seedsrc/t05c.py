ID="t05-last-session"; PROP="T05"; PKG="http"
EDITS=[('http/ws_server.go','	SpawnGoroutine bool\n}','	SpawnGoroutine bool\n\n	current *WSSession\n}'),('http/ws_server.go','	defer func() {\n		endSession()','	self.current = session\n	defer func() {\n		endSession()'),('http/ws_server.go','	req.session = self\n','	req.session = self.server.current\n')]
NEEDS="two websocket peers at the same time, the one that connected first sending a request"
BREAKS="the handler is given the session of the other peer"
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"net/url";"strings";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.OnRequest("sid", func(r *RPCRequest, params []interface{}) (interface{}, error) { return r.Session().SessionID(), nil })
	ctx := context.Background()
	s := httptest.NewServer(NewWSHandler(ctx, a))
	u, _ := url.Parse("ws" + strings.TrimPrefix(s.URL, "http"))
	c1, c2 := NewWSClient(u), NewWSClient(u)
	ask := func(c *WSClient) string {
		var sid string
		if err := c.UnwrapCall(ctx, jlib.NewRequestMessage(1, "sid", nil), &sid); err != nil { t.Fatal(err) }
		return sid
	}
	s1 := ask(c1)
	s2 := ask(c2)
	if s1 == s2 || ask(c1) != s1 || ask(c2) != s2 { t.Fatal("sessions mixed up") }
}
'''
