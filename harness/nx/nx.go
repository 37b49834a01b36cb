// Package nx holds helpers of the HTTP harnesses.
package nx

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"net/url"
	"time"

	"github.com/golang-jwt/jwt"
	"verif/harness/v"
)

// Recorder is a ResponseWriter with the meaning net/http gives it: the
// header is fixed by the first WriteHeader or Write.
type Recorder struct {
	H     http.Header
	Sent  http.Header
	Code  int
	Body  bytes.Buffer
	Extra int // WriteHeader calls after the first
}

func NewRecorder() *Recorder { return &Recorder{H: http.Header{}} }

func (r *Recorder) Header() http.Header { return r.H }

func (r *Recorder) WriteHeader(code int) {
	if r.Code != 0 {
		r.Extra++
		return
	}
	r.Code = code
	r.Sent = http.Header{}
	for k, vs := range r.H {
		r.Sent[k] = append([]string{}, vs...)
	}
}

func (r *Recorder) Write(b []byte) (int, error) {
	if r.Code == 0 {
		r.WriteHeader(200)
	}
	return r.Body.Write(b)
}

// Done is what the server does when the handler returns.
func (r *Recorder) Done() *Recorder {
	if r.Code == 0 {
		r.WriteHeader(200)
	}
	return r
}

// Request makes a server-side request.
func Request(method string, body io.Reader) *http.Request {
	if body == nil {
		body = bytes.NewReader(nil)
	}
	req := &http.Request{
		Method: method, URL: &url.URL{Path: "/"}, Host: "x", RemoteAddr: "1.2.3.4:5",
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{}, Body: io.NopCloser(body),
	}
	return req.WithContext(context.Background())
}

// Claims of a signed token.
type Claims struct {
	Username string                 `json:"username"`
	Settings map[string]interface{} `json:"settings,omitempty"`
	jwt.StandardClaims
}

// Token signs claims.
func Token(method jwt.SigningMethod, key interface{}, user string, settings map[string]interface{}, exp int64) string {
	c := Claims{Username: user, Settings: settings}
	c.ExpiresAt = exp
	tok, err := jwt.NewWithClaims(method, c).SignedString(key)
	v.Assert(err == nil, "the token can be signed")
	return tok
}

// MidSecond waits for the middle of a second of the wall clock, so that whole
// seconds slept from there on are counted exactly.
func MidSecond() {
	ns := time.Now().Nanosecond()
	d := 300000000 - ns
	if d < 0 {
		d += 1000000000
	}
	time.Sleep(time.Duration(d))
}

// Flush makes a Recorder a Flusher.
type FlushRecorder struct {
	*Recorder
	Flushed int
}

func (f *FlushRecorder) Flush() {
	if f.Code == 0 {
		f.WriteHeader(200)
	}
	f.Flushed++
}
