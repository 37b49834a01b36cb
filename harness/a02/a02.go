// Package a02: signed tokens are honoured only while valid, cached or not.
package a02

import (
	"net/http"
	"strconv"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/superisaac/jlib/http"
	_ "verif/harness/model"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("a02.CheckHistory", CheckHistory)
var _ = v.Reg("a02.CheckEdge", CheckEdge)
var _ = v.Reg("a02.CheckForms", CheckForms)
var _ = v.Reg("a02.CheckConcurrent", CheckConcurrent)

type token struct {
	header string
	user   string
	tag    string
	exp    int64
	secret string
	forged bool
}

func mint(name, secret, user string, exp int64) *token {
	t := &token{user: user, tag: name, exp: exp, secret: secret}
	t.header = "Bearer " + nx.Token(jwt.SigningMethodHS256, []byte(secret), user, map[string]interface{}{"tag": name}, exp)
	return t
}

type answer struct {
	code int
	info *jlibhttp.AuthInfo
}

// endpoint is a protected server with its own secret.
type endpoint struct {
	secret string
	h      *jlibhttp.AuthHandler
}

type protected struct{}

type seen struct{ info *jlibhttp.AuthInfo }

type seenKey struct{}

func (protected) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	info, _ := jlibhttp.AuthInfoFromContext(r.Context())
	r.Context().Value(seenKey{}).(*seen).info = info
	w.WriteHeader(204)
}

func server(secret string) *endpoint {
	return &endpoint{secret, jlibhttp.NewAuthHandler(&jlibhttp.AuthConfig{Jwt: &jlibhttp.JwtAuthConfig{Secret: secret}}, protected{})}
}

func (e *endpoint) present(t *token) answer {
	r := nx.Request("POST", nil)
	s := &seen{}
	r = r.WithContext(withSeen(r, s))
	r.Header.Set("Authorization", t.header)
	w := nx.NewRecorder()
	e.h.ServeHTTP(w, r)
	w.Done()
	return answer{w.Code, s.info}
}

// right states the property for one presentation.
func right(e *endpoint, t *token, now int64, a answer) {
	ok := v.And(!t.forged, t.secret == e.secret, t.exp >= now)
	if !ok {
		v.Reach("refused")
		v.Assert(a.code == 401 && a.info == nil, "an expired or badly signed token is refused")
		return
	}
	v.Reach("accepted")
	v.Assert(a.code == 204 && a.info != nil, "a well signed token that has not expired is accepted")
	if a.info != nil {
		tag, _ := a.info.Settings["tag"].(string)
		v.Assert(a.info.Username == t.user && tag == t.tag, "the identity is the one inside the token presented")
	}
}

// CheckHistory: presentations of several tokens while time passes.
//
// 3 presentations of 4 tokens to 2 servers with different secrets, 0 to 2 (3)
// seconds apart; expiry any whole second from 3 before to 6 after the start;
// one of the tokens is forged, one is of the other server.
//
//v:reach=accepted,refused,again,expired time=60 ttime=600 samples=3
func CheckHistory() {
	nx.MidSecond()
	now := time.Now().Unix()
	mine, other := server("s1"), server("s2")
	d0, d1 := v.Int64("exp0"), v.Int64("exp1")
	v.Assume(v.And(d0 >= -3, d0 <= 6, d1 >= -3, d1 <= 6))
	toks := []*token{
		mint("t0", "s1", "u0", now+d0),
		mint("t1", "s1", "u0", now+d1),
		mint("t2", "s2", "x", now+d1),
	}
	// the claims of one token with the signature of the other
	p, q := strings.Split(toks[0].header, "."), strings.Split(toks[1].header, ".")
	toks = append(toks, &token{header: p[0] + "." + p[1] + "." + q[2], exp: now + 100, secret: "s1", forged: true})
	used := map[string]bool{}
	for i := 0; i < 3; i++ {
		t := strconv.Itoa(i)
		wait := 0
		if i > 0 {
			wait = v.Choose("wait"+t, v.N(3, 4))
		}
		time.Sleep(time.Duration(wait) * time.Second)
		now += int64(wait)
		k := v.Choose("token"+t, len(toks))
		e, en := mine, "mine"
		if v.Choose("server"+t, 2) == 1 {
			e, en = other, "other"
		}
		a := e.present(toks[k])
		right(e, toks[k], now, a)
		key := en + strconv.Itoa(k)
		if used[key] {
			v.Reach("again")
			if toks[k].exp < now && toks[k].exp >= now-int64(wait) {
				v.Reach("expired")
			}
		}
		used[key] = true
	}
}

// CheckEdge: one token presented again at any later time.
//
// Expiry any whole second within a day of now; 2 presentations (thorough: 3)
// any number of seconds up to 2 days apart (in the replay, the second
// presentation happens at once when the wait is longer than 6 seconds).
//
//v:reach=accepted,refused time=60 samples=1
func CheckEdge() {
	nx.MidSecond()
	now := time.Now().Unix()
	e := server("s")
	d := v.Int64("exp")
	v.Assume(d >= -86400 && d <= 86400)
	t := mint("t", "s", "u", now+d)
	for i := 0; i < v.N(2, 3); i++ {
		if i > 0 {
			wait := []int64{0, 1, 2, 5, 3600, 172800}[v.Choose("wait"+strconv.Itoa(i), 6)]
			if wait > 6 && !v.Symbolic() {
				return
			}
			time.Sleep(time.Duration(wait) * time.Second)
			now += wait
		}
		right(e, t, now, e.present(t))
	}
}

// CheckForms: tokens of every signing method and without expiry.
//
// HMAC with SHA-256, 384 and 512, unsigned tokens ("none"), and texts that are
// no tokens; expiry absent or any whole second within a day of now; presented
// twice, a token of another method in between.
//
//v:reach=accepted,refused time=60
func CheckForms() {
	nx.MidSecond()
	now := time.Now().Unix()
	e := server("s")
	mk := func(name string) *token {
		exp := int64(0)
		if v.Choose(name+".expires", 2) == 1 {
			d := v.Int64(name + ".exp")
			v.Assume(d >= -86400 && d <= 86400)
			exp = now + d
		}
		t := &token{user: "u" + name, tag: name, exp: exp, secret: "s"}
		var key interface{} = []byte("s")
		var m jwt.SigningMethod = jwt.SigningMethodHS256
		switch v.Choose(name+".method", v.N(5, 7)) {
		case 1:
			m = jwt.SigningMethodHS512
		case 2:
			m, key, t.forged = jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, true
		case 3:
			key, t.secret = []byte(""), ""
		case 4:
			t.forged = true
			t.header = "Bearer " + []string{"", "a.b.c", "..", "a"}[v.Choose(name+".text", 4)]
			return t
		case 5:
			m = jwt.SigningMethodHS384
		case 6:
			t.forged = true
			t.header = "bearer " + nx.Token(m, key, t.user, map[string]interface{}{"tag": name}, exp)
			return t
		}
		t.header = "Bearer " + nx.Token(m, key, t.user, map[string]interface{}{"tag": name}, exp)
		return t
	}
	a, b := mk("a"), mk("b")
	right(e, a, now, e.present(a))
	right(e, b, now, e.present(b))
	right(e, a, now, e.present(a))
}

// CheckConcurrent: two requests with different tokens at the same time, after
// one of them was or was not presented before.
//
// Up to 2 preemptions (3 thorough).
//
//v:reach=accepted,refused preempt=2 time=60 ttime=400
func CheckConcurrent() {
	nx.MidSecond()
	now := time.Now().Unix()
	e := server("s")
	toks := []*token{
		mint("t0", "s", "u0", now+100),
		mint("t1", "s", "u1", now+[]int64{100, -100}[v.Choose("late", 2)]),
	}
	if k := v.Choose("before", 3); k < 2 {
		right(e, toks[k], now, e.present(toks[k]))
	}
	v.Preempt(v.N(2, 3))
	out := make(chan answer, 1)
	go func() { out <- e.present(toks[0]) }()
	b := e.present(toks[1])
	a := <-out
	right(e, toks[0], now, a)
	right(e, toks[1], now, b)
}
