// Package m08: big integers survive JSON exactly and bad text is rejected.
package m08

import (
	"encoding/json"
	"regexp"

	"github.com/superisaac/jlib"
	_ "verif/harness/model"
	"verif/harness/hx"
	"verif/harness/v"
)

var _ = v.Reg("m08.CheckRoundTrip", CheckRoundTrip)
var _ = v.Reg("m08.CheckDecode", CheckDecode)
var _ = v.Reg("m08.CheckField", CheckField)
var _ = v.Reg("m08.CheckBadText", CheckBadText)
var _ = v.Reg("m08.CheckReuse", CheckReuse)
var _ = v.Reg("m08.CheckOtherKinds", CheckOtherKinds)

const digits = "0123456789"

// num is the canonical text of any integer of at most max digits.
func num(name string, max int) string {
	head := v.StringOf(name+".head", digits[1:], 1)
	if head == "" {
		return "0"
	}
	s := head + v.StringOf(name+".tail", digits, max-1)
	if v.Bool(name + ".neg") {
		s = "-" + s
	}
	return s
}

// every integer of at most 24 digits (60 thorough), either sign: encode, decode, compare
//v:reach=done
func CheckRoundTrip() {
	s := num("n", v.N(24, 60))
	var b jlib.Bigint
	b.Load(s)
	v.Assert(b.String() == s, "loading decimal text gives that integer")
	doc, err := json.Marshal(b)
	v.Assert(err == nil, "a big integer encodes")
	v.Assert(string(doc) == `"`+s+`"`, "the encoding is a JSON string of the decimal digits")
	doc2, err := json.Marshal(&b)
	v.Assert(err == nil && string(doc2) == string(doc), "a pointer encodes the same")
	var c jlib.Bigint
	err = json.Unmarshal(doc, &c)
	v.Assert(err == nil, "the encoding decodes")
	v.Assert(c.String() == s, "the decoded integer is exactly the encoded one")
	v.Assert(c.Value().Cmp(b.Value()) == 0, "the values compare equal")
	v.Reach("done")
}

// both wire forms of every integer of at most 24 digits (60 thorough), and fixed integers around powers of two up to 60 digits
//v:reach=string,number
func CheckDecode() {
	s := num("n", v.N(24, 60))
	if v.Choose("fixed", 2) == 1 {
		s = v.Pick("big", "9007199254740993", "-9007199254740993", "9223372036854775807", "9223372036854775808",
			"-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616",
			"340282366920938463463374607431768211456", "123456789012345678901234567890123456789012345678901234567891")
	}
	doc := s
	if v.Choose("form", 2) == 0 {
		doc = `"` + s + `"`
		v.Reach("string")
	} else {
		v.Reach("number")
	}
	var b jlib.Bigint
	err := json.Unmarshal([]byte(doc), &b)
	v.Assert(err == nil, "a decimal integer decodes")
	v.Assert(b.String() == s, "the decoded integer is exactly the given one")
	v.Observe("got", b.String())
}

type holder struct {
	A jlib.Bigint
	B *jlib.Bigint
	L []jlib.Bigint
}

// big integers of at most 4 digits as struct fields, pointers and list items
//v:reach=done
func CheckField() {
	s, t, u := num("s", v.N(4, 8)), num("t", v.N(2, 4)), num("u", v.N(2, 4))
	var h holder
	err := json.Unmarshal([]byte(`{"A":`+s+`,"B":"`+t+`","L":["`+u+`",`+s+`]}`), &h)
	v.Assert(err == nil, "fields decode")
	if err != nil {
		return
	}
	v.Assert(h.A.String() == s && h.B.String() == t, "fields hold exactly the given integers")
	v.Assert(len(h.L) == 2 && h.L[0].String() == u && h.L[1].String() == s, "list items hold exactly the given integers")
	v.Assert(v.SameJSON(hx.Enc(h), []byte(`{"A":"`+s+`","B":"`+t+`","L":["`+u+`","`+s+`"]}`)), "fields encode as decimal strings")
	v.Reach("done")
}

// value is what a decimal text of a few digits says.
func value(s string) int64 {
	n, neg := int64(0), false
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			neg = true
		}
		if s[i] >= '0' && s[i] <= '9' {
			n = n*10 + int64(s[i]-'0')
		}
	}
	if neg {
		return -n
	}
	return n
}

func matches(pat, s string) bool { ok, _ := regexp.MatchString(pat, s); return ok }

// every printable ASCII string of at most 3 bytes (4 thorough) as a JSON string or as a bare token
//v:reach=good,bad
func CheckBadText() {
	s := v.ASCII("text", v.N(3, 4))
	for i := 0; i < len(s); i++ {
		v.Assume(v.And(s[i] >= ' ', s[i] != '"', s[i] != '\\', s[i] != 0x7f))
	}
	doc := s
	good := false
	if v.Choose("form", 2) == 0 {
		doc = `"` + s + `"`
		good = matches(`^[-+]?[0-9]+$`, s)
	} else {
		good = matches(`^ *-?(0|[1-9][0-9]*) *$`, s)
		v.Assume(s != "null")
	}
	b := jlib.Bigint{}
	err := json.Unmarshal([]byte(doc), &b)
	if good {
		v.Reach("good")
		v.Assert(err == nil, "a decimal integer decodes")
		v.Assert(b.Value().IsInt64() && b.Value().Int64() == value(s), "the decoded integer is exactly the given one")
		if doc[0] == '"' {
			var l jlib.Bigint
			l.Load(s)
			v.Assert(l.Value().Cmp(b.Value()) == 0, "loading decimal text gives that integer")
		}
	} else {
		v.Reach("bad")
		v.Assert(err != nil, "text that is not a decimal integer is an error")
	}
}

// decoding into a Bigint that already holds another integer
//v:reach=done
func CheckReuse() {
	a, c := num("a", 3), num("c", 3)
	var b jlib.Bigint
	b.Load(a)
	doc := c
	if v.Choose("form", 2) == 0 {
		doc = `"` + c + `"`
	}
	err := json.Unmarshal([]byte(doc), &b)
	v.Assert(err == nil && b.String() == c, "decoding replaces the previous value")
	v.Reach("done")
}

// bools, lists, objects, fractional and exponent numbers are errors
//v:reach=done
func CheckOtherKinds() {
	doc := v.JSON("doc", v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: "bfao", Lits: []string{"0.5", "1e2", "-1.0", "1E400"}})
	var b jlib.Bigint
	err := json.Unmarshal(doc, &b)
	v.Assert(err != nil, "a document that is not a decimal integer is an error")
	v.Reach("done")
}
