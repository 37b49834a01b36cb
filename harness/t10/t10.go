// Package t10: a client's own settings govern its connections.
package t10

import (
	"context"
	"crypto/tls"
	"crypto/x509"
	"net/http"
	"sync"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t10.CheckOptions", CheckOptions)
var _ = v.Reg("t10.CheckOthers", CheckOthers)
var _ = v.Reg("t10.CheckTogether", CheckTogether)

func client(s *nx.Site) jlibhttp.Client {
	c, err := jlibhttp.NewClient(s.URL)
	v.Assert(err == nil && c != nil, "the factory makes a client")
	return c
}

func extra() http.Header {
	switch v.Choose("extra", 4) {
	case 1:
		return http.Header{"X-One": {v.StringOf("one", "ab1", 2)}}
	case 2:
		return http.Header{"X-One": {"b", "a"}, "X-Two": {v.StringOf("two", "ab1", 2)}}
	case 3:
		return http.Header{}
	}
	return nil
}

func same(a, b http.Header) bool {
	ok := len(a) == len(b)
	for k, vs := range a {
		ok = v.And(ok, len(b[k]) == len(vs))
		for i := range vs {
			if i < len(b[k]) {
				ok = v.And(ok, vs[i] == b[k][i])
			}
		}
	}
	return ok
}

func settings(s *nx.Site, which string) *tls.Config {
	switch which {
	case "good":
		return s.Good
	case "other":
		return &tls.Config{RootCAs: x509.NewCertPool()}
	}
	return nil
}

// call makes one call; it must get through exactly when may.
func call(c jlibhttp.Client, id int, may bool) bool {
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(id, "echo", []interface{}{id}))
	v.Assert((err == nil) == may, "a connection is made exactly when the client's own TLS settings trust the server")
	if err != nil || res == nil {
		return false
	}
	v.Assert(res.IsResult() && res.MustId() == interface{}(id), "the answer is the call's")
	return res.IsResult()
}

// arrived states what the last request or connection brought.
func arrived(s *nx.Site, n int, h http.Header) {
	k, path, got := s.Visits()
	v.Assert(k == n, "one request or connection is made")
	v.Assert(path == "/p", "it goes to the path of the URL")
	for name, vs := range h {
		v.Assert(nx.Contains(got[name], vs) && len(got[name]) == len(vs), "the extra headers accompany it, once")
	}
	if h["X-Two"] == nil {
		v.Assert(len(got["X-Two"]) == 0, "no other client's headers accompany it")
	}
	v.Assert(len(got["X-Theirs"]) == 0, "no other client's headers accompany it")
}

// untouched: nothing all programs share holds a client's settings.
func untouched() {
	ok := websocket.DefaultDialer.TLSClientConfig == nil
	if t, is := http.DefaultTransport.(*http.Transport); is && t.TLSClientConfig != nil {
		ok = ok && t.TLSClientConfig.RootCAs == nil
	}
	v.Assert(ok, "settings shared by the whole program are left alone")
	websocket.DefaultDialer.TLSClientConfig = nil
}

func copied(h http.Header) http.Header {
	c := http.Header{}
	for k, vs := range h {
		c[k] = append([]string{}, vs...)
	}
	return c
}

// each kind of client made by the factory, to a secure site or not, up to 3 extra header values of up to 2 letters, TLS settings none, trusting the site or trusting nobody, the settings made in either order; a call, the connection lost, another call, lost again, a third call
//
//v:reach=through,refused,again time=60 ttime=300 samples=6
func CheckOptions() {
	kind := v.Pick("kind", "http", "ws", "h2")
	s := nx.Open(kind, v.Choose("secure", 2) == 1)
	defer s.Stop()
	c := client(s)
	h := extra()
	before := copied(h)
	which := v.Pick("tls", "none", "good", "other")
	if v.Choose("order", 2) == 0 {
		c.SetExtraHeader(h)
		c.SetClientTLSConfig(settings(s, which))
	} else {
		c.SetClientTLSConfig(settings(s, which))
		c.SetExtraHeader(h)
	}
	_, secure := map[string]bool{"https": true, "wss": true, "h2": true}[scheme(s.URL)]
	may := !secure || which == "good"
	if !call(c, 1, may) {
		v.Reach("refused")
		n, _, _ := s.Visits()
		v.Assert(n == 0, "nothing reaches a server that is not trusted")
		return
	}
	v.Reach("through")
	arrived(s, 1, h)
	untouched()
	v.Assert(same(h, before) && same(before, copied(h)), "the caller's header is left as it was")
	for k := 2; k <= 3; k++ {
		if kind != "http" {
			s.Cut()
			v.Idle()
		}
		if call(c, k, may) {
			v.Reach("again")
			arrived(s, k, h)
			v.Assert(same(h, before), "the caller's header is left as it was")
		}
	}
	if kind != "http" {
		c.(interface{ Close() }).Close()
		v.Idle()
	}
}

func scheme(u string) string {
	for i := range u {
		if u[i] == ':' {
			return u[:i]
		}
	}
	return ""
}

// two clients of one kind to a secure site, each with its own headers and with TLS settings none, trusting the site or trusting nobody; either the first one's call comes first or all its settings are made after the second one's
//
//v:reach=first,second time=60 ttime=300 samples=6
func CheckOthers() {
	s := nx.Open(v.Pick("kind", "http", "ws", "h2"), true)
	defer s.Stop()
	a, b := client(s), client(s)
	wa, wb := v.Pick("tlsA", "none", "good", "other"), v.Pick("tlsB", "none", "good", "other")
	seta := func() {
		a.SetExtraHeader(http.Header{"X-Theirs": {"a"}})
		a.SetClientTLSConfig(settings(s, wa))
	}
	setb := func() {
		b.SetExtraHeader(http.Header{"X-One": {"b"}})
		b.SetClientTLSConfig(settings(s, wb))
	}
	n := 0
	calla := func() {
		if call(a, 1, wa == "good") {
			v.Reach("first")
			n++
		}
	}
	switch v.Choose("order", 3) {
	case 0:
		seta()
		calla()
		setb()
	case 1:
		seta()
		setb()
		calla()
	case 2:
		setb()
		seta()
	}
	if call(b, 2, wb == "good") {
		v.Reach("second")
		n++
		arrived(s, n, http.Header{"X-One": {"b"}})
	}
	for _, c := range []jlibhttp.Client{a, b} {
		if x, ok := c.(interface{ Close() }); ok {
			x.Close()
		}
	}
	v.Idle()
}

// two clients of one kind to a secure site, one that trusts it and one with TLS settings none or trusting nobody, calling at the same time
//
//v:reach=through time=60 ttime=300 samples=2 tries=8
func CheckTogether() {
	s := nx.Open(v.Pick("kind", "http", "ws", "h2"), true)
	defer s.Stop()
	a, b := client(s), client(s)
	a.SetClientTLSConfig(s.Good)
	b.SetClientTLSConfig(settings(s, v.Pick("tls", "none", "other")))
	var wg sync.WaitGroup
	v.Preempt(v.N(1, 2))
	wg.Add(1)
	go func() {
		defer wg.Done()
		if call(a, 1, true) {
			v.Reach("through")
		}
	}()
	call(b, 2, false)
	wg.Wait()
	untouched()
	for _, c := range []jlibhttp.Client{a, b} {
		if x, ok := c.(interface{ Close() }); ok {
			x.Close()
		}
	}
	v.Idle()
}
