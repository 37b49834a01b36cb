ID="t08-h2-eof"; PROP="T08"; PKG="http"
EDITS=[("http/h2_server.go","""				log.Warnf("websocket error %s", err)
			}
			return
""","""				log.Warnf("websocket error %s", err)
				return
			}
""")]
NEEDS="the peer of an HTTP/2 session ends its side of the stream without an error"
BREAKS="the session never ends and its close callbacks do not run"
TEST='''package jlibhttp
import ("testing";"context";"net/http";"net/http/httptest";"strings";"time")
func TestDemo(t *testing.T) {
	a := NewActor()
	closed := make(chan bool, 3)
	a.OnClose(func(r *http.Request, s RPCSession) { closed <- true })
	r := httptest.NewRequest("POST", "/", strings.NewReader(""))
	r.ProtoMajor, r.ProtoMinor, r.Proto = 2, 0, "HTTP/2.0"
	go NewH2Handler(context.Background(), a).ServeHTTP(httptest.NewRecorder(), r)
	select {
	case <-closed:
	case <-time.After(3 * time.Second): t.Fatal("still open")
	}
}
'''
