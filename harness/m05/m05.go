// Package m05: method name validators accept exactly the documented alphabet.
package m05

import (
	"github.com/superisaac/jlib"
	"verif/harness/v"
)

var _ = v.Reg("m05.CheckMethodName", CheckMethodName)
var _ = v.Reg("m05.CheckPublicMethodName", CheckPublicMethodName)

func alnum(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
}

// every byte string of at most N bytes (12 quick, 24 thorough)
//v:reach=ok,bad
func CheckMethodName() {
	s := v.String("name", v.N(12, 24))
	want := len(s) > 0
	for i := 0; i < len(s); i++ {
		if !v.Or(alnum(s[i]), v.In(s[i], "-_:+.")) {
			want = false
		}
	}
	got := jlib.IsMethod(s)
	v.Observe("got", got)
	if want {
		v.Reach("ok")
	} else {
		v.Reach("bad")
	}
	v.Assert(got == want, "IsMethod accepts exactly the documented names")
}

// every byte string of at most N bytes (12 quick, 24 thorough)
//v:reach=ok,bad,rpc
func CheckPublicMethodName() {
	s := v.String("name", v.N(12, 24))
	want := len(s) > 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		if i == 0 {
			if !alnum(c) {
				want = false
			}
		} else if !v.Or(alnum(c), v.In(c, "-_:+./\\&#")) {
			want = false
		}
	}
	if len(s) >= 4 && s[:4] == "rpc." {
		want = false
		v.Reach("rpc")
	}
	got := jlib.IsPublicMethod(s)
	v.Observe("got", got)
	if want {
		v.Reach("ok")
	} else {
		v.Reach("bad")
	}
	v.Assert(got == want, "IsPublicMethod accepts exactly the documented names")
}
