ID="t05-binary-frame"; PROP="T05"; PKG="http"
EDITS=[("http/ws_server.go","""			log.Infof("message type %d is not text, wait for next", messageType)
			continue
""","""			log.Infof("message type %d is not text", messageType)
			return
""")]
NEEDS="a binary frame among the requests of a websocket session"
BREAKS="requests after it are never answered"
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"strings";"time";"github.com/gorilla/websocket")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(params []interface{}) (interface{}, error) { return "yes", nil })
	s := httptest.NewServer(NewWSHandler(context.Background(), a))
	defer s.Close()
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(s.URL, "http"), nil)
	if err != nil { t.Fatal(err) }
	defer c.Close()
	c.WriteMessage(websocket.BinaryMessage, []byte("x"))
	c.WriteMessage(websocket.TextMessage, []byte(`{"id":1,"method":"m","params":[]}`))
	c.SetReadDeadline(time.Now().Add(3 * time.Second))
	if _, b, err := c.ReadMessage(); err != nil { t.Fatal(string(b), err) }
}
'''
