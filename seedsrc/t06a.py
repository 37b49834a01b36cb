ID="t06-stray-error"; PROP="T06"; PKG="http"
EDITS=[("http/streaming_client.go","""	if !loaded {
		if self.messageHandler != nil {
			self.messageHandler(msg)
		}
		return
	}
""","""	if !loaded {
		if self.messageHandler != nil && !msg.IsError() {
			self.messageHandler(msg)
		}
		return
	}
""")]
NEEDS="an error message that answers no outstanding call"
BREAKS="the message is dropped instead of going to the message callback"
TEST='''package jlibhttp
import ("testing";"context";"net/http";"net/http/httptest";"net/url";"strings";"time";"github.com/gorilla/websocket";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err != nil { return }
		c.WriteMessage(websocket.TextMessage, []byte(`{"id":"nobody","error":{"code":7,"message":"x"}}`))
		c.ReadMessage()
	}))
	defer s.Close()
	u, _ := url.Parse("ws" + strings.TrimPrefix(s.URL, "http"))
	c := NewWSClient(u)
	got := make(chan bool, 3)
	c.OnMessage(func(m jlib.Message) { got <- true })
	if err := c.Connect(context.Background()); err != nil { t.Fatal(err) }
	select {
	case <-got:
	case <-time.After(3 * time.Second): t.Fatal("dropped")
	}
}
'''
