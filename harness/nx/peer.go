package nx

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/model"
	"verif/harness/v"
)

// Seen is a request as it arrives at the peer.
type Seen struct {
	Method string
	Path   string
	Header http.Header
	Body   []byte
}

// Reply is what the peer does.
//
// Kinds: answer; refuse (no connection); drop (the connection breaks before
// an answer); short (it breaks inside the body); silent (no answer at all);
// stall (no more than the body given, the connection stays open).
type Reply struct {
	Kind   string
	Code   int
	Header http.Header
	Body   []byte
}

// Peer is a scripted HTTP/1.1 server: the model of (*http.Client).Do under
// the engine, a real server on the loopback interface natively.
type Peer struct {
	URL  string
	Seen []*Seen
	// By, when set, gives the reply to a request from what it holds.
	By   func(s *Seen) Reply
	mu   sync.Mutex
	stop func()
}

func (p *Peer) Close() { p.stop() }

type broken struct {
	data []byte
	err  error
	late func() error
}

func (b *broken) Read(x []byte) (int, error) {
	n := copy(x, b.data)
	b.data = b.data[n:]
	if n == 0 && len(x) > 0 {
		if b.late != nil {
			return 0, b.late()
		}
		return 0, b.err
	}
	return n, nil
}

// stall waits until the client or the caller gives up.
func stall(c *http.Client, req *http.Request) error {
	var limit <-chan time.Time
	if c.Timeout > 0 {
		limit = time.After(c.Timeout)
	}
	select {
	case <-limit:
		return slow{}
	case <-req.Context().Done():
		return req.Context().Err()
	}
}

type slow struct{}

func (slow) Error() string   { return "Client.Timeout exceeded while awaiting headers" }
func (slow) Timeout() bool   { return true }
func (slow) Temporary() bool { return true }

// Serve starts a peer which does reply(i) for the i-th request.
func Serve(path string, reply func(i int) Reply) *Peer {
	p := &Peer{stop: func() {}}
	if v.Symbolic() {
		p.URL = "http://peer.test" + path
		model.Peer = func(c *http.Client, req *http.Request) (*http.Response, error) {
			fail := func(err error) (*http.Response, error) {
				return nil, &url.Error{Op: "Post", URL: req.URL.String(), Err: err}
			}
			if err := req.Context().Err(); err != nil {
				return fail(err)
			}
			v.Yield() // connecting takes time
			r := reply(len(p.Seen))
			if r.Kind == "refuse" {
				return fail(errors.New("connection refused"))
			}
			s := &Seen{Method: req.Method, Path: req.URL.Path, Header: req.Header}
			if req.Body != nil {
				s.Body, _ = io.ReadAll(req.Body)
			}
			p.Seen = append(p.Seen, s)
			if p.By != nil {
				r = p.By(s)
			}
			v.Yield() // so does the answer
			switch r.Kind {
			case "drop":
				return fail(io.EOF)
			case "silent":
				return fail(stall(c, req))
			}
			resp := &http.Response{StatusCode: r.Code, Header: http.Header{}, Request: req}
			for k, vs := range r.Header {
				resp.Header[k] = append([]string{}, vs...)
			}
			body := &broken{data: r.Body, err: io.EOF}
			if r.Kind == "short" {
				body.err = io.ErrUnexpectedEOF
			}
			if r.Kind == "stall" {
				body.late = func() error { return stall(c, req) }
			}
			resp.Body = io.NopCloser(body)
			return resp, nil
		}
		return p
	}
	quit := make(chan bool)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		p.mu.Lock()
		seen := &Seen{r.Method, r.URL.Path, r.Header, b}
		p.Seen = append(p.Seen, seen)
		rep := reply(len(p.Seen) - 1)
		if p.By != nil {
			rep = p.By(seen)
		}
		p.mu.Unlock()
		switch rep.Kind {
		case "drop", "short":
			c, _, err := w.(http.Hijacker).Hijack()
			if err != nil {
				panic(err)
			}
			if rep.Kind == "short" {
				fmt.Fprintf(c, "HTTP/1.1 %d X\r\nContent-Length: %d\r\n\r\n", rep.Code, len(rep.Body)+10)
				c.Write(rep.Body)
			}
			c.Close()
		case "silent":
			<-quit
		case "stall":
			w.WriteHeader(rep.Code)
			w.Write(rep.Body)
			w.(http.Flusher).Flush()
			<-quit
		default:
			for k, vs := range rep.Header {
				w.Header()[k] = vs
			}
			w.WriteHeader(rep.Code)
			w.Write(rep.Body)
		}
	}))
	p.URL = s.URL + path
	p.stop = func() { close(quit); s.Close() }
	if reply(0).Kind == "refuse" {
		s.Close()
		p.stop = func() {}
	}
	return p
}

// Contains tells whether want's values are all present, in order, in got.
func Contains(got []string, want []string) bool {
	i := 0
	for _, g := range got {
		if i < len(want) && g == want[i] {
			i++
		}
	}
	return i == len(want)
}

var _ = bytes.NewReader
var _ = strings.Index
