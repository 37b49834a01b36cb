// Package a01: only matching credentials reach the protected handler.
package a01

import (
	"encoding/base64"
	"net/http"
	"strings"
	"time"

	"github.com/golang-jwt/jwt"
	"github.com/superisaac/jlib/http"
	_ "verif/harness/model"
	"verif/harness/nx"
	"verif/harness/v"
)

var _ = v.Reg("a01.CheckBasic", CheckBasic)
var _ = v.Reg("a01.CheckBearer", CheckBearer)
var _ = v.Reg("a01.CheckToken", CheckToken)
var _ = v.Reg("a01.CheckMixed", CheckMixed)
var _ = v.Reg("a01.CheckOpen", CheckOpen)

// who is one identity the request may be given.
type who struct {
	user string
	tag  string
}

// next is the protected handler.
type next struct {
	ran  int
	info *jlibhttp.AuthInfo
	has  bool
}

func (n *next) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	n.ran++
	n.info, n.has = jlibhttp.AuthInfoFromContext(r.Context())
	w.WriteHeader(204)
}

func settings(tag string) map[string]interface{} { return map[string]interface{}{"tag": tag} }

// serve runs one request and states the property: want holds the identities
// of every matching entry.
func serve(h *jlibhttp.AuthHandler, n *next, header string, want []who) {
	n.ran, n.info, n.has = 0, nil, false
	r := nx.Request("POST", nil)
	if header != "" {
		r.Header.Set("Authorization", header)
	}
	w := nx.NewRecorder()
	h.ServeHTTP(w, r)
	w.Done()
	if len(want) == 0 {
		v.Reach("refused")
		v.Assert(n.ran == 0, "a request without matching credentials does not reach the protected handler")
		v.Assert(w.Code == 401, "a request without matching credentials is answered 401")
		return
	}
	v.Reach("accepted")
	v.Assert(n.ran == 1, "a request with matching credentials reaches the protected handler once")
	v.Assert(w.Code == 204, "the protected handler's answer is not touched")
	if n.ran != 1 {
		return
	}
	v.Assert(n.has && n.info != nil, "an identity is attached to an authenticated request")
	if n.info == nil {
		return
	}
	got := false
	for _, o := range want {
		t, _ := n.info.Settings["tag"].(string)
		got = v.Or(got, v.And(n.info.Username == o.user, t == o.tag))
	}
	v.Assert(got, "the identity and settings are those of an entry that matched")
}

func basics(n int) (out []jlibhttp.BasicAuthConfig) {
	for i := 0; i < n; i++ {
		t := string(rune('0' + i))
		u := v.ASCII("user"+t, v.N(2, 3))
		out = append(out, jlibhttp.BasicAuthConfig{Username: u, Password: v.ASCII("pass"+t, v.N(2, 3)), Settings: settings("basic" + t)})
	}
	return
}

func bearers(n int) (out []jlibhttp.BearerAuthConfig) {
	for i := 0; i < n; i++ {
		t := string(rune('0' + i))
		u := ""
		if v.Choose("named"+t, 2) == 1 {
			u = v.ASCII("bearername"+t, 1)
		}
		out = append(out, jlibhttp.BearerAuthConfig{Token: v.ASCII("token"+t, v.N(2, 3)), Username: u, Settings: settings("bearer" + t)})
	}
	return
}

func wantBasic(cfg *jlibhttp.AuthConfig, user, pass string) (out []who) {
	for _, b := range cfg.Basic {
		if v.And(b.Username == user, b.Password == pass) {
			out = append(out, who{b.Username, b.Settings["tag"].(string)})
		}
	}
	return
}

func wantBearer(cfg *jlibhttp.AuthConfig, header string) (out []who) {
	for _, b := range cfg.Bearer {
		if header == "Bearer "+b.Token {
			u := b.Username
			if u == "" {
				u = b.Token
			}
			out = append(out, who{u, b.Settings["tag"].(string)})
		}
	}
	return
}

// CheckBasic: Basic credentials and malformed Basic headers.
//
// 0 to 2 (3) configured pairs, users, passwords and the pair sent of up to 2
// (3) ASCII bytes (a sent user has no colon), the token and bearer sections
// absent or present; fixed malformed headers.
//
//v:reach=accepted,refused,malformed time=60 ttime=500
func CheckBasic() {
	cfg := &jlibhttp.AuthConfig{Basic: basics(v.Choose("basics", v.N(3, 4)))}
	if v.Choose("others", 2) == 1 {
		cfg.Jwt = &jlibhttp.JwtAuthConfig{Secret: "s"}
		cfg.Bearer = []jlibhttp.BearerAuthConfig{{Token: "abc", Settings: settings("bearer")}}
	}
	n := &next{}
	h := jlibhttp.NewAuthHandler(cfg, n)
	switch k := v.Choose("form", 4); k {
	case 0, 1:
		user, pass := v.ASCII("user", v.N(2, 3)), v.ASCII("pass", v.N(2, 3))
		v.Assume(strings.IndexByte(user, ':') < 0)
		enc := base64.StdEncoding.EncodeToString([]byte(user + ":" + pass))
		if k == 0 {
			serve(h, n, "Basic "+enc, wantBasic(cfg, user, pass))
		} else {
			serve(h, n, "Bearer "+enc, nil)
		}
	case 2:
		v.Reach("malformed")
		// none of these holds a pair
		serve(h, n, v.Pick("header", "Basic", "Basic ", "Basic !!!!", "Basic YQ==", "Basic YTpi!", "YTpi", "Basic  YTpi", "Bearer YTpi", "Digest YTpi", " ", "Basic YTpiA", "Basic Og"), nil)
	case 3:
		c := v.Choose("concrete", 3)
		serve(h, n, []string{"Basic YTpi", "Basic Og==", "Basic YTpiOmM="}[c],
			wantBasic(cfg, []string{"a", "", "a"}[c], []string{"b", "", "b:c"}[c]))
	}
}

// CheckBearer: Bearer tokens and arbitrary short headers.
//
// 0 to 2 (3) configured tokens of up to 2 (3) ASCII bytes, named or not; the
// header is Bearer and up to 3 (4) ASCII bytes, or any text of up to 5 (7) bytes, or any scheme of up to 4 (6) bytes before abc;
// the Basic and token sections absent or present.
//
//v:reach=accepted,refused time=60 ttime=500
func CheckBearer() {
	cfg := &jlibhttp.AuthConfig{Bearer: bearers(v.Choose("bearers", v.N(3, 4)))}
	if v.Choose("others", 2) == 1 {
		cfg.Basic = []jlibhttp.BasicAuthConfig{{Username: "u", Password: "p", Settings: settings("basic")}}
	}
	n := &next{}
	h := jlibhttp.NewAuthHandler(cfg, n)
	var header string
	switch v.Choose("form", 4) {
	case 0:
		header = "Bearer " + v.ASCII("sent", v.N(3, 4))
	case 1:
		header = v.ASCII("text", v.N(5, 7))
	case 2:
		header = v.Pick("near", "", "Bearer", "Bearer ", "Token abc", "Bearer  abc", "Bearer abc ")
	case 3:
		header = v.ASCII("scheme", v.N(4,6)) + " abc"
	}
	// a header that is Basic credentials is CheckBasic's
	if len(header) >= 6 && strings.EqualFold(header[:6], "basic ") {
		v.Assume(false)
	}
	serve(h, n, header, wantBearer(cfg, header))
}

// CheckOpen: no configuration, and configurations that allow nothing.
//
//v:reach=accepted,refused time=30
func CheckOpen() {
	n := &next{}
	header := v.ASCII("text", 8)
	if v.Choose("nil", 2) == 0 {
		h := jlibhttp.NewAuthHandler(nil, n)
		r := nx.Request("GET", nil)
		r.Header.Set("Authorization", header)
		w := nx.NewRecorder()
		h.ServeHTTP(w, r)
		v.Reach("accepted")
		v.Assert(n.ran == 1 && w.Code == 204, "without configuration every request passes")
		v.Assert(!n.has && n.info == nil, "without configuration no identity is attached")
		return
	}
	cfg := &jlibhttp.AuthConfig{}
	switch v.Choose("kind", 3) {
	case 1:
		cfg.Basic = []jlibhttp.BasicAuthConfig{}
		cfg.Bearer = []jlibhttp.BearerAuthConfig{}
	case 2:
		cfg.Jwt = &jlibhttp.JwtAuthConfig{}
	}
	serve(jlibhttp.NewAuthHandler(cfg, n), n, header, nil)
}

// CheckToken: signed tokens, good, forged and damaged.
//
// Hash functions 256, 384, 512; secrets of up to 2 (3) ASCII bytes, users of
// up to 2; expiry from 5 s before to 5 s after now (second granularity is
// A02's); headers built by mixing the parts of two tokens, truncating,
// re-signing with another secret, the none algorithm, and fixed malformed
// texts.  HMAC is ideal; claims other than username, settings and exp absent.
//
//v:reach=accepted,refused,forged,malformed time=60 ttime=400
func CheckToken() {
	secret := v.ASCII("secret", v.N(2, 3))
	v.Assume(secret != "")
	cfg := &jlibhttp.AuthConfig{Jwt: &jlibhttp.JwtAuthConfig{Secret: secret}}
	if v.Choose("others", 2) == 1 {
		cfg.Basic = []jlibhttp.BasicAuthConfig{{Username: "u", Password: "p", Settings: settings("basic")}}
		cfg.Bearer = []jlibhttp.BearerAuthConfig{{Token: "abc", Settings: settings("bearer")}}
	}
	n := &next{}
	h := jlibhttp.NewAuthHandler(cfg, n)
	now := time.Now().Unix()
	user := v.ASCII("tokenuser", 2)
	tag := v.ASCII("tokentag", 1)
	methods := []jwt.SigningMethod{jwt.SigningMethodHS256, jwt.SigningMethodHS384, jwt.SigningMethodHS512}
	alg := v.Choose("alg", 3)
	mint := func(key, user string, exp int64) string {
		return nx.Token(methods[alg], []byte(key), user, settings(tag), exp)
	}
	mine := []who{{user, tag}}
	switch v.Choose("form", 8) {
	case 0:
		key := v.ASCII("signkey", v.N(2, 3))
		if key == secret {
			serve(h, n, "Bearer "+mint(key, user, now+3600), mine)
		} else {
			serve(h, n, "Bearer "+mint(key, user, now+3600), nil)
		}
	case 1:
		serve(h, n, "Bearer "+mint(secret, user, now-5-int64(v.Choose("ago", 2))*100000), nil)
	case 2:
		v.Reach("forged")
		// parts of two good tokens, and of a good and a self-signed one
		other := secret
		if v.Choose("otherkey", 2) == 1 {
			other = secret + "x"
		}
		a := strings.Split(mint(secret, user, now+3600), ".")
		b := strings.Split(mint(other, user+"z", now+7200), ".")
		m := v.Choose("mix", 6) + 1
		pick := func(i int) string {
			if m>>uint(i)&1 == 1 {
				return b[i]
			}
			return a[i]
		}
		if m == 1 || m == 6 {
			// both tokens have the same header part: these are b's and a's own
			// claims with their own signatures
			if m == 1 {
				serve(h, n, "Bearer "+pick(0)+"."+pick(1)+"."+pick(2), mine)
			} else if other == secret {
				serve(h, n, "Bearer "+pick(0)+"."+pick(1)+"."+pick(2), []who{{user + "z", tag}})
			} else {
				serve(h, n, "Bearer "+pick(0)+"."+pick(1)+"."+pick(2), nil)
			}
			return
		}
		serve(h, n, "Bearer "+pick(0)+"."+pick(1)+"."+pick(2), nil)
	case 3:
		v.Reach("forged")
		serve(h, n, "Bearer "+nx.Token(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, user, settings(tag), now+3600), nil)
	case 4:
		v.Reach("malformed")
		tok := mint(secret, user, now+3600)
		p := strings.Split(tok, ".")
		bad := []string{p[0] + "." + p[1], p[0] + "." + p[1] + ".", tok + ".x", "." + tok, p[0] + ".." + p[2], "." + p[1] + "." + p[2], tok + "A", " " + tok, tok + " ", "Bearer " + tok}
		serve(h, n, "Bearer "+bad[v.Choose("bad", len(bad))], nil)
	case 5:
		v.Reach("malformed")
		tok := mint(secret, user, now+3600)
		serve(h, n, v.Pick("scheme", "", "Basic ", "Token ", "Bearer", "Bearer\t", "Bearer,", "XBearer ")+tok, nil)
	case 6:
		v.Reach("malformed")
		serve(h, n, v.Pick("text", "Bearer", "Bearer ", "Bearer .", "Bearer ..", "Bearer ...", "Bearer a.b.c", "Bearer e30.e30.e30", "Bearer bnVsbA.bnVsbA.bnVsbA", "Bearer !!.!!.!!", " Bearer", "Bearer  "), nil)
	case 7:
		v.Reach("malformed")
		header := v.ASCII("free", v.N(7, 9))
		if len(header) >= 6 && strings.EqualFold(header[:6], "basic ") {
			v.Assume(false)
		}
		serve(h, n, header, wantBearer(cfg, header))
	}
}

// CheckMixed: all three sections with several entries, and every kind of
// credential sent.
//
// 1 or 2 Basic pairs, 1 or 2 Bearer tokens and a secret; one request with any
// of the three kinds of credentials, followed by another of any kind.
//
//v:reach=accepted,refused time=60 ttime=500
func CheckMixed() {
	cfg := &jlibhttp.AuthConfig{
		Basic: basics(1 + v.Choose("basics", v.N(1, 2))), Bearer: bearers(1 + v.Choose("bearers", v.N(1, 2))),
		Jwt: &jlibhttp.JwtAuthConfig{Secret: "secret"},
	}
	n := &next{}
	h := jlibhttp.NewAuthHandler(cfg, n)
	exp := time.Now().Unix() + 3600
	for i := 0; i < 2; i++ {
		t := string(rune('a' + i))
		switch v.Choose("form"+t, 4) {
		case 0:
			user, pass := v.ASCII("user"+t, 1), v.ASCII("pass"+t, 1)
			v.Assume(user != ":")
			serve(h, n, "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+pass)), wantBasic(cfg, user, pass))
		case 1:
			header := "Bearer " + v.ASCII("sent"+t, 2)
			serve(h, n, header, wantBearer(cfg, header))
		case 2:
			user := v.ASCII("tokenuser"+t, 1)
			serve(h, n, "Bearer "+nx.Token(jwt.SigningMethodHS256, []byte("secret"), user, settings("jwt"+t), exp), []who{{user, "jwt" + t}})
		case 3:
			serve(h, n, "Bearer "+nx.Token(jwt.SigningMethodHS256, []byte("other"), "x", settings("jwt"+t), exp), nil)
		}
	}
}
