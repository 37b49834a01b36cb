package nx

import (
	"bufio"
	"crypto/tls"
	"crypto/x509"
	"errors"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"golang.org/x/net/http2"
	"golang.org/x/net/http2/h2c"
	"verif/harness/model"
	"verif/harness/v"
)

// Site is a server of kind http, ws or h2, secure or not, that answers every
// request with its first param.  It notes the header of every HTTP request
// or connection.
type Site struct {
	URL  string
	Good *tls.Config // the settings a client needs for a secure site
	Stop func()
	Kind string
	// Reply answers a message, echo unless set.
	Reply func(msg jlib.Message) jlib.Message

	mu     sync.Mutex
	secure bool
	seen   []http.Header
	paths  []string
	msgs   []jlib.Message
	cut    func()
}

// Visits gives the number of requests or connections and the last one's path
// and header.
func (s *Site) Visits() (int, string, http.Header) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.seen) == 0 {
		return 0, "", nil
	}
	return len(s.seen), s.paths[len(s.paths)-1], s.seen[len(s.seen)-1]
}

func (s *Site) visit(path string, h http.Header) {
	s.mu.Lock()
	defer s.mu.Unlock()
	c := http.Header{}
	for k, vs := range h {
		c[k] = append([]string{}, vs...)
	}
	s.seen = append(s.seen, c)
	s.paths = append(s.paths, path)
}

// Cut ends the connection under way.
func (s *Site) Cut() {
	s.mu.Lock()
	f := s.cut
	s.mu.Unlock()
	if f != nil {
		f()
	}
}

// Messages that arrived.
func (s *Site) Messages() []jlib.Message {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]jlib.Message{}, s.msgs...)
}

func echo(msg jlib.Message) jlib.Message {
	if req, ok := msg.(*jlib.RequestMessage); ok {
		return jlib.NewResultMessage(req, req.Params[0])
	}
	return nil
}

func (s *Site) answer(text string) string {
	msg, err := jlib.ParseBytes([]byte(text))
	if err != nil {
		return ""
	}
	s.mu.Lock()
	s.msgs = append(s.msgs, msg)
	s.mu.Unlock()
	reply := s.Reply
	if reply == nil {
		reply = echo
	}
	res := reply(msg)
	if res == nil {
		return ""
	}
	b, err := jlib.MessageBytes(res)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// admits tells whether a client with these settings gets through to the site.
func (s *Site) admits(cfg *tls.Config, tlsClient bool) error {
	if tlsClient != s.secure {
		return errors.New("tls: first record does not look like a TLS handshake")
	}
	if !s.secure {
		return nil
	}
	if cfg != nil && (cfg.InsecureSkipVerify || cfg.RootCAs != nil && cfg.RootCAs == s.Good.RootCAs) {
		return nil
	}
	return errors.New("x509: certificate signed by unknown authority")
}

// Open starts a site.
func Open(kind string, secure bool) *Site {
	s := &Site{Kind: kind, secure: secure, Stop: func() {}}
	duplex := func(d *Duplex) {
		s.mu.Lock()
		s.cut = d.Close
		s.mu.Unlock()
		for {
			t, ok := d.Recv()
			if !ok {
				return
			}
			if a := s.answer(t); a != "" {
				d.Send(a)
			}
		}
	}
	scheme := map[string]string{"http": "http", "ws": "ws", "h2": "h2c"}[kind]
	if secure {
		scheme = map[string]string{"http": "https", "ws": "wss", "h2": "h2"}[kind]
	}
	if v.Symbolic() {
		s.URL = scheme + "://site.test/p"
		s.Good = &tls.Config{RootCAs: &x509.CertPool{}}
		s.model(duplex)
		return s
	}
	srv := httptest.NewUnstartedServer(nil)
	inner := http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		s.visit(r.URL.Path, r.Header)
		switch kind {
		case "http":
			b, _ := io.ReadAll(r.Body)
			io.WriteString(w, s.answer(string(b)))
		case "ws":
			up := websocket.Upgrader{}
			if c, err := up.Upgrade(w, r, nil); err == nil {
				defer c.Close()
				duplex(wsDuplex(c))
			}
		default:
			duplex(h2Duplex(w, r))
		}
	})
	srv.Config.Handler = inner
	if kind == "h2" && !secure {
		srv.Config.Handler = h2c.NewHandler(inner, &http2.Server{})
	}
	if secure {
		srv.EnableHTTP2 = kind == "h2"
		srv.StartTLS()
		pool := x509.NewCertPool()
		pool.AddCert(srv.Certificate())
		s.Good = &tls.Config{RootCAs: pool}
	} else {
		srv.Start()
		s.Good = &tls.Config{RootCAs: x509.NewCertPool()}
	}
	s.URL = scheme + srv.URL[strings.Index(srv.URL, ":"):] + "/p"
	s.Stop = func() { s.Cut(); srv.CloseClientConnections() }
	return s
}

func (s *Site) model(duplex func(d *Duplex)) {
	model.Dial = func(d *websocket.Dialer, u string, h http.Header) (*websocket.Conn, error) {
		p, err := url.Parse(u)
		if err != nil {
			return nil, err
		}
		if s.Kind != "ws" || p.Host != "site.test" {
			return nil, errors.New("no such host")
		}
		if err := s.admits(d.TLSClientConfig, p.Scheme == "wss"); err != nil {
			return nil, err
		}
		s.visit(p.Path, h)
		a, b := model.WSPair()
		go func() {
			defer b.Close()
			duplex(wsDuplex(b))
		}()
		return a, nil
	}
	model.Peer = func(c *http.Client, req *http.Request) (*http.Response, error) {
		fail := func(err error) (*http.Response, error) {
			return nil, &url.Error{Op: "Post", URL: req.URL.String(), Err: err}
		}
		if err := req.Context().Err(); err != nil {
			return fail(err)
		}
		if req.URL.Host != "site.test" {
			return fail(errors.New("no such host"))
		}
		var cfg *tls.Config
		secure := req.URL.Scheme == "https"
		h2 := false
		switch t := c.Transport.(type) {
		case nil:
		case *http.Transport:
			cfg = t.TLSClientConfig
		case *http2.Transport:
			h2 = true
			cfg = t.TLSClientConfig
			if !secure && !t.AllowHTTP {
				return fail(errors.New("http2: unencrypted HTTP/2 not enabled"))
			}
			// it always asks for TLS, unless its dialer gives it something else
			secure = t.DialTLS == nil && t.DialTLSContext == nil
		default:
			panic("unknown kind of transport")
		}
		if h2 != (s.Kind == "h2") {
			return fail(errors.New("malformed HTTP response"))
		}
		if err := s.admits(cfg, secure); err != nil {
			return fail(err)
		}
		s.visit(req.URL.Path, req.Header)
		if h2 {
			return h2Answer(req, duplex), nil
		}
		b, _ := io.ReadAll(req.Body)
		return &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: io.NopCloser(strings.NewReader(s.answer(string(b))))}, nil
	}
}

func wsDuplex(c *websocket.Conn) *Duplex {
	return &Duplex{
		Send: func(s string) { c.WriteMessage(websocket.TextMessage, []byte(s)) },
		Recv: func() (string, bool) {
			_, b, err := c.ReadMessage()
			return string(b), err == nil
		},
		Close: func() { c.Close() },
	}
}

func h2Answer(req *http.Request, accept func(d *Duplex)) *http.Response {
	s := &h2stream{req: req, up: make(chan []byte, 64), down: make(chan []byte, 64), gone: make(chan struct{}), over: make(chan struct{})}
	go s.pump()
	go func() {
		defer s.end()
		accept(&Duplex{Send: s.send, Recv: s.recv, Close: s.end})
	}()
	return &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &respBody{s: s}}
}

func h2Duplex(w http.ResponseWriter, r *http.Request) *Duplex {
	w.WriteHeader(200)
	w.(http.Flusher).Flush()
	sc := bufio.NewScanner(r.Body)
	sc.Buffer(make([]byte, 4096), 1<<22)
	stop := make(chan struct{})
	go func() {
		<-stop
		r.Body.Close()
	}()
	ended := false
	return &Duplex{
		Send: func(s string) {
			if !ended {
				io.WriteString(w, s+"\n")
				w.(http.Flusher).Flush()
			}
		},
		Recv: func() (string, bool) {
			if ended || !sc.Scan() {
				return "", false
			}
			return sc.Text(), true
		},
		Close: func() {
			if !ended {
				ended = true
				close(stop)
			}
		},
	}
}
