package nx

import (
	"errors"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"verif/harness/model"
	"verif/harness/v"
)

// Flaky is a websocket or HTTP/2 server that accepts or refuses the n-th
// attempt to connect as planned and refuses all later ones.
type Flaky struct {
	URL string

	mu   sync.Mutex
	plan []bool
	n    int
	srv  *httptest.Server
}

// Attempts tells how many attempts came.
func (f *Flaky) Attempts() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.n
}

func (f *Flaky) next() bool {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	return f.n <= len(f.plan) && f.plan[f.n-1]
}

// OpenFlaky starts one; serve plays each connection, which ends with it.
func OpenFlaky(h2 bool, plan []bool, serve func(d *Duplex)) *Flaky {
	f := &Flaky{plan: plan}
	if v.Symbolic() {
		refused := &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
		f.URL = "ws://site.test/p"
		if h2 {
			f.URL = "h2c://site.test/p"
		}
		model.Dial = func(d *websocket.Dialer, u string, h http.Header) (*websocket.Conn, error) {
			if !f.next() {
				return nil, refused
			}
			a, b := model.WSPair()
			go func() {
				defer b.Close()
				serve(wsDuplex(b))
			}()
			return a, nil
		}
		model.Peer = func(c *http.Client, req *http.Request) (*http.Response, error) {
			if !f.next() {
				return nil, &url.Error{Op: "Pri", URL: req.URL.String(), Err: refused}
			}
			return h2Answer(req, serve), nil
		}
		return f
	}
	inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ok := f.next()
		if h2 {
			if !ok {
				panic(http.ErrAbortHandler) // resets the stream
			}
			serve(h2Duplex(w, r))
			return
		}
		if !ok {
			c, _, err := w.(http.Hijacker).Hijack()
			must(err)
			c.(*net.TCPConn).SetLinger(0) // resets the connection
			c.Close()
			return
		}
		up := websocket.Upgrader{}
		if c, err := up.Upgrade(w, r, nil); err == nil {
			defer c.Close()
			serve(wsDuplex(c))
		}
	})
	var h http.Handler = inner
	if h2 {
		h = h2c.NewHandler(inner, &http2.Server{})
	}
	f.srv = httptest.NewServer(h)
	f.URL = map[bool]string{false: "ws", true: "h2c"}[h2] + strings.TrimPrefix(f.srv.URL, "http") + "/p"
	return f
}

// Stop ends it.
func (f *Flaky) Stop() {
	if f.srv != nil {
		f.srv.CloseClientConnections()
	}
}
