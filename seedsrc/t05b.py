ID="t05-flush-batch"; PROP="T05"; PKG="http"
EDITS=[("http/h2_server.go","""			self.flusher.Flush()
		}
	}
}""","""			if len(self.sendChannel) == 0 {
				self.flusher.Flush()
			}
		}
	}
}""")]
NEEDS="a message that cannot be encoded queued right behind an answer of an HTTP/2 session"
BREAKS="the answer stays in the buffer and never reaches the peer"
TEST='''package jlibhttp
import ("testing";"context";"bufio";"io";"net/http";"net/http/httptest";"time";"github.com/superisaac/jlib")
type rw struct { h http.Header; p *io.PipeWriter; buf []byte; hold chan bool }
func (w *rw) Header() http.Header { return w.h }
func (w *rw) WriteHeader(int) {}
func (w *rw) Write(b []byte) (int, error) { if w.hold != nil { <-w.hold; w.hold = nil }; w.buf = append(w.buf, b...); return len(b), nil }
func (w *rw) Flush() { b := w.buf; w.buf = nil; if len(b) > 0 { w.p.Write(b) } }
func TestDemo(t *testing.T) {
	a := NewActor()
	pushed := make(chan bool)
	a.OnRequest("m", func(req *RPCRequest, params []interface{}) (interface{}, error) {
		go func() {
			time.Sleep(200 * time.Millisecond)
			req.Session().Send(jlib.NewNotifyMessage("n", []interface{}{make(chan int)}))
			close(pushed)
		}()
		return "yes", nil
	})
	or, ow := io.Pipe()
	ir, iw := io.Pipe()
	w := &rw{h: http.Header{}, p: ow, hold: make(chan bool)}
	r := httptest.NewRequest("POST", "/", ir)
	r.ProtoMajor, r.ProtoMinor, r.Proto = 2, 0, "HTTP/2.0"
	go NewH2Handler(context.Background(), a).ServeHTTP(w, r)
	iw.Write([]byte(`{"id":1,"method":"m","params":[]}`))
	hold := w.hold
	<-pushed
	close(hold)
	got := make(chan bool)
	go func() { if bufio.NewScanner(or).Scan() { close(got) } }()
	select {
	case <-got:
	case <-time.After(3 * time.Second): t.Fatal("no answer")
	}
}
'''
