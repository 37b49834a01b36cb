// Package t03: the gateway routes each request to the protocol it asked for.
package t03

import (
	"bytes"
	"context"
	"net/http"
	"strings"

	"github.com/superisaac/jlib/http"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("t03.CheckRoute", CheckRoute)
var _ = v.Reg("t03.CheckDirect", CheckDirect)
var _ = v.Reg("t03.CheckSequence", CheckSequence)

// gateway with an actor that counts what reaches it.
type world struct {
	actor  *jlibhttp.Actor
	plain  int    // requests without a session
	stream int    // requests with one
	closed int    // ended sessions
	method string // of the requests
}

func newWorld() *world {
	w := &world{actor: jlibhttp.NewActor(), method: "POST"}
	w.actor.OnRequest("m", func(req *jlibhttp.RPCRequest, params []interface{}) (interface{}, error) {
		if req.Session() == nil {
			w.plain++
		} else {
			w.stream++
		}
		return "ok", nil
	})
	w.actor.OnClose(func(r *http.Request, s jlibhttp.RPCSession) { w.closed++ })
	return w
}

const doc = `{"id":1,"method":"m","params":[]}`

// went tells which endpoint answered.
func (w *world) went(h http.Handler, major, minor int, upgrade []string, full bool) string {
	r := nx.Request(w.method, bytes.NewReader([]byte(doc)))
	r.ProtoMajor, r.ProtoMinor = major, minor
	r.Proto = "HTTP/" + string(rune('0'+major)) + "." + string(rune('0'+minor))
	if upgrade != nil {
		r.Header["Upgrade"] = upgrade
		if full {
			r.Header["Connection"] = []string{"Upgrade"}
		}
	}
	plain, stream, closed := w.plain, w.stream, w.closed
	rec := &nx.FlushRecorder{Recorder: nx.NewRecorder()}
	h.ServeHTTP(rec, r)
	rec.Done()
	v.Idle()
	out := "?"
	switch {
	case rec.Sent.Get("Sec-Websocket-Version") != "":
		out = "ws"
		v.Assert(rec.Code >= 400, "a websocket handshake that is not complete is refused")
	case rec.Flushed > 0:
		out = "h2"
		v.Assert(rec.Code == 200, "an HTTP/2 session begins with status 200")
		v.Assert(w.closed == closed+1, "the HTTP/2 endpoint serves the gateway's actor")
	case w.method != "POST" && rec.Code == 405:
		out = "h1"
		v.Assert(w.plain == plain && w.stream == stream, "a refused request reaches no handler")
	case w.plain == plain+1:
		out = "h1"
		v.Assert(rec.Code == 200 && strings.Contains(rec.Body.String(), `"ok"`), "the HTTP/1.1 endpoint answers")
	}
	return out
}

func want(major int, upgrade []string, insecure bool) string {
	u := ""
	if len(upgrade) > 0 {
		u = upgrade[0]
	}
	switch {
	case major >= 2:
		return "h2"
	case strings.EqualFold(u, "websocket"):
		return "ws"
	case strings.EqualFold(u, "h2c") && insecure:
		return "h2"
	}
	// over TLS an HTTP/1.x request asking for h2c is answered by the HTTP/2
	// endpoint's fallback
	return "h1"
}

func request(t string) (major, minor int, upgrade []string) {
	switch v.Choose("proto"+t, 4) {
	case 0:
		major, minor = 1, 1
	case 1:
		major, minor = 1, 0
	case 2:
		major = 2
	default:
		major = 3
	}
	switch v.Choose("upgrade"+t, 3) {
	case 1:
		upgrade = []string{v.Pick("token"+t, "websocket", "WebSocket", "WEBSOCKET", "websocke", "websockets", "h2c", "H2C", "h2", "h2cc", "tls", "")}
	case 2:
		upgrade = []string{v.StringOf("free"+t, "h2cHC-", 3)}
	}
	return
}

// CheckRoute: where one request goes.
//
// Methods POST, GET, PUT and DELETE; protocol versions 1.0, 1.1, 2.0 and 3.0; Upgrade absent, one of 11 texts or
// any text of up to 3 letters of h2cHC-, alone or with Connection; secure
// and insecure gateways.  Handshakes are incomplete (the connection cannot be
// taken over): complete ones are T05's.
//
//v:reach=h1,h2,ws time=30
func CheckRoute() {
	w := newWorld()
	insecure := v.Choose("insecure", 2) == 1
	g := jlibhttp.NewGatewayHandler(context.Background(), w.actor, insecure)
	v.Assert(g.Actor == w.actor, "the gateway has the actor given")
	w.method = v.Pick("method", "POST", "GET", "PUT", "DELETE")
	major, minor, upgrade := request("")
	got := w.went(g, major, minor, upgrade, v.Choose("full", 2) == 1)
	v.Reach(got)
	v.Assert(got == want(major, upgrade, insecure), "the request is handed to the endpoint it asked for")
}

// CheckDirect: an HTTP/1.x request to the HTTP/2 endpoint itself is answered
// like the HTTP/1.1 endpoint does, an HTTP/2 request begins a session.
//
// The same requests.
//
//v:reach=h1,h2 time=30
func CheckDirect() {
	w := newWorld()
	h := jlibhttp.NewH2Handler(context.Background(), w.actor)
	w.method = v.Pick("method", "POST", "GET", "PUT", "DELETE")
	major, minor, upgrade := request("")
	got := w.went(h, major, minor, upgrade, true)
	v.Reach(got)
	if major >= 2 {
		v.Assert(got == "h2", "an HTTP/2 request begins a session")
	} else {
		v.Assert(got == "h1", "an HTTP/1.x request falls back")
	}
}

// CheckSequence: requests to one gateway do not influence one another's route.
//
// 2 (3) requests of the same kinds, Upgrade absent or one of 3 texts.
//
//v:reach=h1,h2,ws time=30 ttime=200
func CheckSequence() {
	w := newWorld()
	insecure := v.Choose("insecure", 2) == 1
	g := jlibhttp.NewGatewayHandler(context.Background(), w.actor, insecure)
	for _, t := range []string{"a", "b", "c"}[:v.N(2, 3)] {
		major := 1 + v.Choose("major"+t, 2)
		var upgrade []string
		if k := v.Choose("upgrade"+t, 4); k > 0 {
			upgrade = []string{[]string{"", "websocket", "h2c", "x"}[k]}
		}
		got := w.went(g, major, 2-major, upgrade, false)
		v.Reach(got)
		v.Assert(got == want(major, upgrade, insecure), "each request is handed to the endpoint it asked for")
	}
}
