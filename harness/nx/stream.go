package nx

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"github.com/gorilla/websocket"
	"verif/harness/model"
	"verif/harness/v"
)

// DialWS connects a websocket peer to a handler; done is closed when the
// handler returned.
func DialWS(ctx context.Context, h http.Handler) (c *websocket.Conn, done chan struct{}, stop func()) {
	done = make(chan struct{})
	wrapped := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		defer close(done)
		h.ServeHTTP(w, r)
	})
	if v.Symbolic() {
		a, b := model.WSPair()
		go func() {
			defer func() { recover() }() // as net/http does
			rctx, cancel := context.WithCancel(context.WithValue(ctx, model.UpgradeKey{}, b))
			defer cancel()
			r := Request("GET", nil).WithContext(rctx)
			r.Header.Set("Upgrade", "websocket")
			r.Header.Set("Connection", "Upgrade")
			wrapped.ServeHTTP(NewRecorder(), r)
		}()
		return a, done, func() {}
	}
	srv := httptest.NewUnstartedServer(wrapped)
	srv.Config.BaseContext = func(net.Listener) context.Context { return ctx }
	srv.Start()
	c, _, err := websocket.DefaultDialer.Dial("ws"+strings.TrimPrefix(srv.URL, "http")+"/", nil)
	if err != nil {
		panic(err)
	}
	return c, done, func() { c.Close() }
}

// ListenWS starts a websocket server which runs accept for every connection.
func ListenWS(accept func(c *websocket.Conn)) *url.URL {
	if v.Symbolic() {
		model.Dial = func(d *websocket.Dialer, u string, h http.Header) (*websocket.Conn, error) {
			a, b := model.WSPair()
			go accept(b)
			return a, nil
		}
		return &url.URL{Scheme: "ws", Host: "peer"}
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err == nil {
			accept(c)
		}
	}))
	u, _ := url.Parse("ws" + strings.TrimPrefix(srv.URL, "http") + "/")
	return u
}

// H2 is the peer of an HTTP/2 stream: it is the ResponseWriter and the body
// the handler sees.  Like net/http2 it fails hard when the handler's
// goroutines use it after the handler returned.
type H2 struct {
	mu     sync.Mutex
	h      http.Header
	busy   bool
	over   bool
	out    chan string
	rest   string
	body   chan []byte
	cut    chan struct{}
	cutErr error
	once   sync.Once
	bclose chan struct{}
	bonce  sync.Once
	wonce  sync.Once
	// closed when the write deadline passed
	expired chan struct{}
	cancel  func()
	Done    chan struct{}
}

type h2body struct {
	*H2
	buf []byte
}

func (b *h2body) Read(x []byte) (int, error) {
	v.Yield()
	if len(b.buf) == 0 {
		select {
		case <-b.bclose:
			return 0, errors.New("http2: invalid Read on closed Body")
		default:
		}
		select {
		case b.buf = <-b.body:
		default:
			select {
			case b.buf = <-b.body:
			case <-b.cut:
				return 0, b.cutErr
			case <-b.bclose:
				return 0, errors.New("http2: invalid Read on closed Body")
			}
		}
	}
	n := copy(x, b.buf)
	b.buf = b.buf[n:]
	return n, nil
}

func (b *h2body) Close() error {
	b.bonce.Do(func() { close(b.bclose) })
	return nil
}

func (p *H2) Header() http.Header  { return p.h }
func (p *H2) WriteHeader(code int) {}

func (p *H2) enter(what string) {
	v.Yield()
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.over {
		panic(what + " called after Handler finished")
	}
	v.Assert(!p.busy, "one goroutine writes at a time")
	p.busy = true
}

func (p *H2) leave() {
	v.Yield()
	p.mu.Lock()
	defer p.mu.Unlock()
	p.busy = false
}

func (p *H2) Write(b []byte) (int, error) {
	p.enter("Write")
	defer p.leave()
	select {
	case <-p.cut:
		if p.cutErr != io.EOF {
			return 0, errors.New("http2: stream closed")
		}
	default:
	}
	p.rest += string(b)
	return len(b), nil
}

func (p *H2) Flush() {
	p.enter("Flush")
	defer p.leave()
	if p.rest == "" {
		return
	}
	select {
	case p.out <- p.rest:
	default:
		select {
		case p.out <- p.rest:
		case <-p.expired:
		}
	}
	p.rest = ""
}

// SetWriteDeadline ends writes that wait for the peer; it does so at once.
func (p *H2) SetWriteDeadline(time.Time) error {
	p.wonce.Do(func() { close(p.expired) })
	return nil
}

// Send gives text to the server.
func (p *H2) Send(s string) { p.body <- []byte(s) }

// Recv takes the next flushed text.
func (p *H2) Recv() (string, bool) {
	select {
	case s := <-p.out:
		return s, true
	default:
	}
	select {
	case s := <-p.out:
		return s, true
	case <-p.Done:
	}
	select {
	case s := <-p.out:
		return s, true
	default:
	}
	return "", false
}

// Cut ends the request body; with io.EOF the stream stays half open, with any
// other error it is reset.
func (p *H2) Cut(err error) {
	p.once.Do(func() {
		p.cutErr = err
		close(p.cut)
		if err != io.EOF {
			p.cancel()
		}
	})
}

// DialH2 opens a stream to a handler.
func DialH2(ctx context.Context, h http.Handler) *H2 {
	ctx, cancel := context.WithCancel(ctx)
	p := &H2{h: http.Header{}, out: make(chan string, 64), body: make(chan []byte, 64), cut: make(chan struct{}), bclose: make(chan struct{}), expired: make(chan struct{}), Done: make(chan struct{}), cancel: cancel}
	r := Request("PRI", nil)
	r.ProtoMajor, r.ProtoMinor, r.Proto = 2, 0, "HTTP/2.0"
	r.Body = &h2body{H2: p}
	r = r.WithContext(ctx)
	go func() {
		defer close(p.Done)
		defer cancel()
		defer func() {
			p.mu.Lock()
			p.over = true
			p.mu.Unlock()
			recover()
		}()
		h.ServeHTTP(p, r)
	}()
	return p
}
