// Package m06: command line values are guessed consistently.
package m06

import (
	"encoding/json"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/superisaac/jlib"
	"verif/harness/v"
)

var _ = v.Reg("m06.CheckText", CheckText)
var _ = v.Reg("m06.CheckWords", CheckWords)
var _ = v.Reg("m06.CheckDocuments", CheckDocuments)
var _ = v.Reg("m06.CheckArray", CheckArray)

func matches(pat, s string) bool { ok, _ := regexp.MatchString(pat, s); return ok }

// spec checks one guess against the documented reading of s.
func spec(s string, got interface{}, err error) {
	if _, isStr := got.(string); err == nil && !isStr {
		_, merr := json.Marshal(got)
		v.Assert(merr == nil, "the guessed value can be encoded as JSON")
	}
	switch {
	case s == "":
		v.Assert(err == nil && got == "", "empty text is an empty string")
	case s == "true":
		v.Assert(err == nil && got == true, "true is a boolean")
	case s == "false":
		v.Assert(err == nil && got == false, "false is a boolean")
	case s == "null":
		v.Assert(err == nil && got == nil, "null is null")
	case matches(`^[-+]?[0-9]+$`, s) && intFits(s):
		v.Reach("int")
		i, ok := got.(int64)
		v.Assert(err == nil && ok, "integer text is an integer")
		if ok {
			v.Assert(i == intValue(s), "integer text keeps its exact value")
		}
	case matches(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9]+)?$`, s):
		want, perr := strconv.ParseFloat(s, 64)
		if perr != nil {
			return // outside the range of float64
		}
		v.Reach("float")
		f, ok := got.(float64)
		v.Assert(err == nil && ok, "number text is a number")
		if ok {
			v.Assert(f == want, "number text keeps its value")
		}
	case s[0] == '[' || s[0] == '{' || s[0] == '"':
		if !json.Valid([]byte(s)) {
			v.Reach("malformed")
			v.Assert(err != nil, "malformed list, object or quoted text is an error")
			return
		}
		v.Reach("json")
		v.Assert(err == nil, "well formed list, object or quoted text is accepted")
		var want interface{}
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		if d.Decode(&want) == nil {
			v.Assert(reflect.DeepEqual(got, want), "list, object or quoted text is decoded")
		}
	default:
		f, isF := got.(float64)
		if isF {
			pf, perr := strconv.ParseFloat(s, 64)
			v.Assert(perr == nil && pf == f && !math.IsInf(f, 0), "only number text becomes a number")
			return
		}
		v.Reach("text")
		str, ok := got.(string)
		v.Assert(err == nil && ok, "any other text is a string")
		if ok {
			v.Assert(str == s, "any other text is passed through unchanged")
		}
	}
}

func intFits(s string) bool {
	if len(s) < 18 {
		return true
	}
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

func intValue(s string) int64 {
	if len(s) >= 18 {
		i, _ := strconv.ParseInt(s, 10, 64)
		return i
	}
	neg := s[0] == '-'
	if s[0] == '-' || s[0] == '+' {
		s = s[1:]
	}
	var n int64
	for i := 0; i < len(s); i++ {
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		return -n
	}
	return n
}

// every byte string of at most 4 bytes (5 thorough) not beginning with @
//v:reach=int,float,malformed,json,text
func CheckText() {
	s := v.String("text", v.N(4, 5))
	v.Assume(len(s) == 0 || s[0] != '@')
	got, err := jlib.GuessJson(s)
	v.Observe("err", err)
	spec(s, got, err)
}

// texts around interesting words and the 64-bit limits with one free byte appended
//v:reach=int,float,text
func CheckWords() {
	w := v.Pick("word", "tru", "fals", "nul", "922337203685477580", "-922337203685477580", "1844674407370955161", "in", "na", "-in", "+in", "infinit", "1e40", "1.7976931348623157e30", "1.7976931348623159e30", "4.9e-32", "1e30", "0x1p", "1_0", "00", "-", "1.", ".", " 1", "\"a\"", "[1]", "{}")
	s := w + v.String("tail", 2)
	got, err := jlib.GuessJson(s)
	v.Observe("err", err)
	spec(s, got, err)
}

// lists, objects and quoted strings of depth 2, alone or followed by more text
//v:reach=json,malformed
func CheckDocuments() {
	b := v.JSON("doc", v.Shape{Depth: 2, Width: 2, StrLen: 2, Keys: []string{"a", "b"}, Kinds: "nbifsao"})
	var x interface{}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	if d.Decode(&x) != nil {
		v.Assume(false)
	}
	switch x.(type) {
	case []interface{}, map[string]interface{}, string:
	default:
		v.Assume(false)
	}
	tail := v.Pick("tail", "", " ", "x", " 1", "]")
	got, err := jlib.GuessJson(string(b) + tail)
	if strings.TrimSpace(tail) != "" {
		v.Assert(err != nil, "malformed list, object or quoted text is an error")
		v.Reach("malformed")
		return
	}
	v.Assert(err == nil, "well formed list, object or quoted text is accepted")
	v.Assert(reflect.DeepEqual(got, x), "list, object or quoted text is decoded")
	v.Reach("json")
}

// lists of at most 2 arguments (3 thorough), each any text of at most 2 bytes (3 thorough) or one of the words
//v:reach=ok,fail
func CheckArray() {
	n := v.Choose("n", v.N(3, 4))
	var args []string
	for i := 0; i < n; i++ {
		s := ""
		if v.Choose("word", 2) == 1 {
			s = v.Pick("which", "null", "true", "false", "-12", "1.5", "[null]", "{\"a\":1}", "\"x\"", "null ", "{\"a\"")
		} else {
			s = v.String("arg", v.N(2, 3))
		}
		v.Assume(len(s) == 0 || s[0] != '@')
		args = append(args, s)
	}
	got, err := jlib.GuessJsonArray(args)
	var want []interface{}
	failed := false
	for _, a := range args {
		x, e := jlib.GuessJson(a)
		if e != nil {
			failed = true
			break
		}
		want = append(want, x)
	}
	v.Assert((err != nil) == failed, "a list fails exactly when some element fails")
	if failed {
		v.Reach("fail")
		return
	}
	v.Reach("ok")
	v.Assert(len(got) == len(args), "one value per argument")
	for i := range want {
		v.Assert(reflect.DeepEqual(got[i], want[i]), "values come in order")
	}
}
