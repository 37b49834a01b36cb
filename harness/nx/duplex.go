package nx

import (
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"

	"github.com/gorilla/websocket"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"verif/harness/model"
	"verif/harness/v"
)

// Duplex is the server's end of a streaming client's connection.
type Duplex struct {
	Send func(string)
	Recv func() (string, bool)
	// Close ends the connection from the server's side.
	Close func()
}

// Listen starts a websocket or HTTP/2 server that runs accept for every
// connection; the connection ends when accept returns.
func Listen(h2 bool, accept func(d *Duplex)) *url.URL {
	if !h2 {
		return ListenWS(func(c *websocket.Conn) {
			defer c.Close()
			accept(wsDuplex(c))
		})
	}
	if v.Symbolic() {
		model.Peer = func(c *http.Client, req *http.Request) (*http.Response, error) {
			return h2Answer(req, accept), nil
		}
		return &url.URL{Scheme: "h2c", Host: "peer"}
	}
	srv := httptest.NewServer(h2c.NewHandler(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		accept(h2Duplex(w, r))
	}), &http2.Server{}))
	u, _ := url.Parse("h2c" + strings.TrimPrefix(srv.URL, "http") + "/")
	return u
}

// h2stream models an HTTP/2 exchange as the client's net/http2 transport
// shows it.
type h2stream struct {
	req  *http.Request
	up   chan []byte
	down chan []byte
	gone chan struct{} // the client closed the response body
	over chan struct{} // the server ended the response
	g, o bool
}

// pump reads the request body as the transport does.
func (s *h2stream) pump() {
	buf := make([]byte, 4096)
	for {
		n, err := s.req.Body.Read(buf)
		if n > 0 {
			select {
			case s.up <- append([]byte{}, buf[:n]...):
			default:
				select {
				case s.up <- append([]byte{}, buf[:n]...):
				case <-s.gone:
				case <-s.over:
				}
			}
		}
		if err != nil {
			return
		}
	}
}

func (s *h2stream) send(t string) {
	v.Yield()
	select {
	case <-s.gone:
	case <-s.over:
	default:
		s.down <- []byte(t + "\n")
	}
}

// chunk is the next part of the request body.
func (s *h2stream) chunk() ([]byte, bool) {
	select {
	case b := <-s.up:
		return b, true
	default:
	}
	select {
	case b := <-s.up:
		return b, true
	case <-s.gone:
	case <-s.over:
	}
	return nil, false
}

// recv is the next message; one longer than the transport's buffer comes in
// several parts.
func (s *h2stream) recv() (string, bool) {
	v.Yield()
	t := ""
	for {
		b, ok := s.chunk()
		if !ok {
			return "", false
		}
		t += string(b)
		if len(b) < 4096 || b[len(b)-1] == '\n' {
			return strings.TrimSuffix(t, "\n"), true
		}
	}
}

// end is the end of the server's side; the transport then closes the request
// body.
func (s *h2stream) end() {
	if !s.o {
		s.o = true
		close(s.over)
		s.req.Body.Close()
	}
}

type respBody struct {
	s   *h2stream
	buf []byte
}

func (b *respBody) Read(x []byte) (int, error) {
	v.Yield()
	if len(b.buf) == 0 {
		select {
		case <-b.s.gone:
			return 0, errors.New("http2: response body closed")
		default:
		}
		select {
		case b.buf = <-b.s.down:
		default:
			select {
			case b.buf = <-b.s.down:
			case <-b.s.over:
				select {
				case b.buf = <-b.s.down:
				default:
					return 0, io.EOF
				}
			case <-b.s.gone:
				return 0, errors.New("http2: response body closed")
			}
		}
	}
	n := copy(x, b.buf)
	b.buf = b.buf[n:]
	return n, nil
}

func (b *respBody) Close() error {
	v.Yield()
	if !b.s.g {
		b.s.g = true
		close(b.s.gone)
		b.s.req.Body.Close()
	}
	return nil
}
