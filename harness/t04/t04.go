// Package t04: the client factory picks the transport by URL scheme.
package t04

import (
	"net/http"
	"net/url"
	"strconv"
	"strings"

	"github.com/superisaac/jlib/http"
	"verif/harness/hx"
	_ "verif/harness/model"
	"verif/harness/v"
)

var _ = v.Reg("t04.CheckScheme", CheckScheme)
var _ = v.Reg("t04.CheckText", CheckText)
var _ = v.Reg("t04.CheckFlags", CheckFlags)

// right states the property for a URL text.
func right(text string) {
	u, perr := url.Parse(text)
	var c jlibhttp.Client
	var err error
	p := hx.Panics(func() { c, err = jlibhttp.NewClient(text) })
	v.Assert(p == nil, "no URL text makes the factory panic")
	if p != nil {
		return
	}
	kind := ""
	if perr == nil {
		switch u.Scheme {
		case "http", "https":
			kind = "h1"
		case "ws", "wss":
			kind = "ws"
		case "h2":
			kind = "h2"
		case "h2c":
			kind = "h2c"
		}
	}
	if kind == "" {
		v.Reach("refused")
		v.Assert(err != nil && c == nil, "any other scheme or an unparsable URL gives an error")
		return
	}
	v.Reach(kind)
	v.Assert(err == nil && c != nil, "a known scheme gives a client")
	if c == nil {
		return
	}
	v.Assert(c.IsStreaming() == (kind != "h1"), "HTTP/1.1 clients are not streaming, all others are")
	scheme := u.Scheme
	switch x := c.(type) {
	case *jlibhttp.H1Client:
		v.Assert(kind == "h1", "http and https give an HTTP/1.1 client")
	case *jlibhttp.WSClient:
		v.Assert(kind == "ws", "ws and wss give a websocket client")
	case *jlibhttp.H2Client:
		v.Assert(kind == "h2" || kind == "h2c", "h2 and h2c give an HTTP/2 client")
		v.Assert(x.UseH2C == (kind == "h2c"), "only h2c uses clear text")
		scheme = map[string]string{"h2": "https", "h2c": "http"}[kind]
	default:
		v.Assert(false, "the client is of a known kind")
	}
	s := c.ServerURL()
	v.Assert(s.Scheme == scheme, "the client's URL keeps the scheme, as https and http for HTTP/2")
	v.Assert((s.User == nil) == (u.User == nil) && s.User.String() == u.User.String(), "the client keeps the credentials of the URL")
	v.Assert(s.Host == u.Host && s.Path == u.Path && s.RawQuery == u.RawQuery, "the client is aimed at the same host and path")
}

// CheckScheme: any scheme.
//
// Scheme texts of up to 5 (6) letters of htpsw2cHW.- before ://u:p@h.test:81/p?q=1 and two others.
//
//v:reach=h1,ws,h2,h2c,refused time=60 ttime=300
func CheckScheme() {
	right(v.StringOf("scheme", "htpsw2cHW.-", v.N(4, 6)) + v.Pick("rest", "://u:p@h.test:81/p?q=1", "s://u:p@h.test", "c:///x"))
}

// CheckText: texts that are hardly URLs.
//
// 24 fixed texts, and each known scheme followed by up to 3 (4) bytes out of
// :/%?#[]@ a2 and control.
//
//v:reach=h1,ws,h2,h2c,refused time=60 ttime=400
func CheckText() {
	if v.Choose("fixed", 2) == 0 {
		right(v.Pick("text", "", ":", "http", "http:", "://x", "http://[::1", "http://[::1]:80", "%zz", "http://h:port", "ws://h\x7f", "h2c:opaque", "ws:opaque", "h2:", "h2://", "h2c://h/%2f", "h2://h/%zz", "h2://h/a b", "//h/p", "/p", "ftp://h", "HTTP://H/P", "H2C://h", "unix:/x", "h2://h#f"))
		return
	}
	right(v.Pick("scheme", "http", "ws", "h2", "h2c") + v.StringOf("rest", ":/%?#[]@ a2\x01", v.N(3, 4)))
}

// CheckFlags: extra header flags.
//
// Up to 2 (3) flags of up to 2 (3) bytes out of a, B, -, = and space, alone or
// before one of three values, with quotes, tabs, commas and = inside.
//
//v:reach=parsed,rejected,repeated time=60 ttime=400
func CheckFlags() {
	var f jlibhttp.HeaderFlags
	n := v.Choose("n", v.N(3, 4))
	texts := []string{}
	for i := 0; i < n; i++ {
		t := v.StringOf("flag"+strconv.Itoa(i), "aB-= ", v.N(2, 3)) + v.Pick("tail"+strconv.Itoa(i), "", "=v", "= \"v, w=\"; ", "=\tv\t")
		texts = append(texts, t)
		v.Assert(f.Set(t) == nil, "a flag is taken")
	}
	want := http.Header{}
	bad := false
	for _, t := range texts {
		i := strings.IndexByte(t, '=')
		if i < 0 {
			bad = true
			continue
		}
		k := http.CanonicalHeaderKey(strings.Trim(t[:i], " "))
		want[k] = append(want[k], strings.Trim(t[i+1:], " "))
	}
	got, err := f.Parse()
	if bad {
		v.Reach("rejected")
		v.Assert(err != nil, "a flag without = is rejected")
		return
	}
	v.Reach("parsed")
	v.Assert(err == nil, "flags of the form name=value parse")
	v.Assert(len(got) == len(want), "the header has exactly the names given")
	for k, vs := range want {
		g := got[k]
		v.Assert(len(g) == len(vs), "repeated names accumulate")
		if len(vs) > 1 {
			v.Reach("repeated")
		}
		for i := range vs {
			if i < len(g) {
				v.Assert(g[i] == vs[i], "values keep their order and lose surrounding spaces")
			}
		}
	}
}
