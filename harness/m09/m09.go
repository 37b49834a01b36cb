// Package m09: cache keys identify the call.
package m09

import (
	"strings"

	"github.com/superisaac/jlib"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m09.CheckKey", CheckKey)
var _ = v.Reg("m09.CheckCopy", CheckCopy)

func param(n string) interface{} {
	switch v.Choose(n, 4) {
	case 0:
		return v.Value(n+"v", v.Shape{Kinds: "nbf", Lits: []string{"1", "10"}})
	case 1:
		return v.Pick(n+"s", "", "a", "[", `"`, "]", `\`, "a[", "1")
	case 2:
		return []interface{}{v.Value(n+"a", v.Shape{Kinds: "nbf", Lits: []string{"1", "10"}})}
	default:
		return map[string]interface{}{v.Pick(n+"k", "k", "l"): v.Bool(n + "o")}
	}
}

func side(n string) (m *jlib.RequestMessage, method string) {
	method = v.StringOf("method"+n, `aA["`, 2)
	v.Assume(method != "")
	ps := []interface{}{}
	for i := v.Choose("count"+n, v.N(2, 3)); i > 0; i-- {
		ps = append(ps, param("p"+n))
	}
	m = jlib.NewRequestMessage("id"+n, method, ps)
	m.SetTraceId("trace" + n)
	if n == "1" && v.Choose("parsed", 2) == 1 {
		p, err := jlib.ParseBytes(hx.MustBytes(m))
		v.Assert(err == nil, "parses")
		if err == nil {
			m = p.(*jlib.RequestMessage)
		}
	}
	return
}

// two requests, built or parsed: methods of 1 or 2 characters out of a A [ ", 0 or 1 params (0 to 2 in the thorough tier), each null, a boolean, 1, 10, one of eight strings with quotes, brackets and backslashes, a list or an object of one element, different ids and trace ids, a common prefix of up to 1 character
//v:reach=same,different
func CheckKey() {
	a, am := side("1")
	b, bm := side("2")
	prefix := v.ASCII("prefix", 1)
	before := hx.MustBytes(a)
	ka, kb := a.CacheKey(prefix), b.CacheKey(prefix)
	v.Assert(v.SameJSON(before, hx.MustBytes(a)), "making a key leaves the message alone")
	if v.And(am == bm, v.SameJSON(hx.Enc(a.Params), hx.Enc(b.Params))) {
		v.Reach("same")
		v.Assert(ka == kb, "the same call has the same key")
	} else {
		v.Reach("different")
		v.Assert(ka != kb, "different calls have different keys")
	}
}

// a request with any params of depth 2, its parsed form and its clone with another id have the same key; another method has another one
func CheckCopy() {
	ps, _ := hx.Params("p", 2)
	m := jlib.NewRequestMessage(hx.ID("id"), "m", ps)
	k := m.CacheKey("x")
	p, err := jlib.ParseBytes(hx.MustBytes(m))
	v.Assert(err == nil, "parses")
	if err == nil {
		v.Assert(p.(*jlib.RequestMessage).CacheKey("x") == k, "the same call has the same key")
	}
	v.Assert(m.Clone(hx.ID("other")).CacheKey("x") == k, "the same call has the same key")
	v.Assert(jlib.NewRequestMessage(1, "n", ps).CacheKey("x") != k, "different calls have different keys")
	v.Assert(m.CacheKey("y") != k, "another prefix gives another key")
	long := strings.Repeat("some/long/prefix:", 8)
	v.Assert(m.CacheKey(long+"x") != m.CacheKey(long+"y") && m.CacheKey(long) != k && m.CacheKey("") != k, "another prefix gives another key")
	v.Assert(m.CacheKey("x:") != k && m.CacheKey(" x") != k && m.CacheKey("X") != k, "another prefix gives another key")
}
