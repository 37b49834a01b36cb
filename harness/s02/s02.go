// Package s02: composite schemas mean the boolean composition of their parts.
package s02

import (
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s02.CheckChoice", CheckChoice)
var _ = v.Reg("s02.CheckList", CheckList)
var _ = v.Reg("s02.CheckTuple", CheckTuple)
var _ = v.Reg("s02.CheckObject", CheckObject)
var _ = v.Reg("s02.CheckMethod", CheckMethod)
var _ = v.Reg("s02.CheckMethodDocs", CheckMethodDocs)
var _ = v.Reg("s02.CheckTrees", CheckTrees)

func judge(s sx.Schema, x interface{}) {
	got := sx.Valid(s, x)
	v.Assert(got == sx.Accepts(s, x), "the verdict is the composition of the parts' verdicts")
	if got {
		v.Reach("yes")
	} else {
		v.Reach("no")
	}
}

func stubs(name string, n int, values ...string) []sx.Schema {
	l := []sx.Schema{}
	for i := 0; i < n; i++ {
		l = append(l, sx.NewStub(name+strconv.Itoa(i), values...))
	}
	return l
}

// other is a value of a kind the composite never accepts.
func other(name string, kinds string) interface{} {
	return v.Value(name, v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: kinds})
}

// items is a list of n distinct values, one of which may be null, false, zero or empty.
func items(n int) ([]interface{}, []string) {
	l := []interface{}{}
	names := []string{}
	for i := 0; i < n; i++ {
		names = append(names, strconv.Itoa(i))
		l = append(l, strconv.Itoa(i))
	}
	if odd := v.Choose("odd", n+1); odd < n {
		l[odd] = sx.Odd("value")
		names[odd] = sx.Key(l[odd])
	}
	return l, names
}

// any-of and all-of of 0..3 (4 thorough) arbitrary children, not of an arbitrary child
//v:reach=yes,no
func CheckChoice() {
	n := v.Choose("n", v.N(4, 5))
	var x interface{} = "x"
	if v.Choose("odd", 2) == 1 {
		x = sx.Odd("value")
	}
	switch v.Choose("node", 3) {
	case 0:
		s := jlibschema.NewAnyOfSchema()
		s.Choices = stubs("c", n, sx.Key(x))
		judge(s, x)
	case 1:
		s := jlibschema.NewAllOfSchema()
		s.Choices = stubs("c", n, sx.Key(x))
		judge(s, x)
	default:
		s := jlibschema.NewNotSchema()
		s.Child = sx.NewStub("c", sx.Key(x))
		judge(s, x)
	}
}

// lists of 0..3 (4 thorough) items against an arbitrary item schema and any limits, and non-lists
//v:reach=yes,no
func CheckList() {
	n := v.Choose("n", v.N(5, 6))
	l, names := items(n)
	s := jlibschema.NewListSchema()
	s.Item = sx.NewStub("item", names...)
	s.MinItems, s.MaxItems = sx.OptLen("min"), sx.OptLen("max")
	if n == v.N(4, 5) {
		judge(s, other("x", "nbifso"))
		return
	}
	judge(s, l)
}

// lists of 0..3 (4 thorough) items against 0..2 (3) arbitrary children with and without an additional schema, and non-lists
//v:reach=yes,no
func CheckTuple() {
	n := v.Choose("n", v.N(5, 6))
	l, names := items(n)
	s := jlibschema.NewTupleSchema()
	s.Children = stubs("c", v.Choose("children", v.N(3, 4)), names...)
	if v.Choose("additional", 2) == 1 {
		s.AdditionalSchema = sx.NewStub("extra", names...)
	}
	if n == v.N(4, 5) {
		judge(s, other("x", "nbifso"))
		return
	}
	judge(s, l)
}

// objects over three keys (a, b, c, or the empty text and texts with dots and spaces; any subset) against any declared and required subset of the first two with arbitrary children, with and without an additional schema, every map order, one value possibly null, false, zero or empty, and non-objects
//v:reach=yes,no
func CheckObject() {
	v.MapOrder()
	keys := []string{"a", "b", "c"}
	vals := []interface{}{"va", "vb", "vc"}
	switch v.Choose("keys", 3) {
	case 1:
		keys = []string{"a.b", "a", ""}
	case 2:
		keys = []string{"", " a", "a "}
	default:
		if odd := v.Choose("odd", 4); odd < 3 {
			vals[odd] = sx.Odd("value")
		}
	}
	names := []string{sx.Key(vals[0]), sx.Key(vals[1]), sx.Key(vals[2])}
	s := jlibschema.NewObjectSchema()
	for i, k := range keys[:2] {
		if v.Choose("declare "+strconv.Itoa(i), 2) == 1 {
			s.Properties[k] = sx.NewStub("prop "+strconv.Itoa(i), names[:2]...)
			if v.Choose("require "+strconv.Itoa(i), 2) == 1 {
				s.Requires[k] = true
			}
		}
	}
	if v.Choose("additional", 2) == 1 {
		s.AdditionalProperties = sx.NewStub("extra", names...)
	}
	if v.Choose("object", 2) == 0 {
		judge(s, other("x", "nbifsa"))
		return
	}
	x := map[string]interface{}{}
	for i, k := range keys {
		if v.Choose("has "+strconv.Itoa(i), 2) == 1 {
			x[k] = vals[i]
		}
	}
	judge(s, x)
}

// method schemas of 0..2 (3 thorough) arbitrary params with and without an additional schema and returns against messages with 0..3 (4) params or a result
//v:reach=yes,no
func CheckMethod() {
	n := v.Choose("n", v.N(4, 5))
	l, names := items(n)
	s := jlibschema.NewMethodSchema()
	s.Params = stubs("c", v.Choose("params", v.N(3, 4)), names...)
	if v.Choose("additional", 2) == 1 {
		s.AdditionalSchema = sx.NewStub("extra", names...)
	}
	if v.Choose("returns", 2) == 1 {
		s.Returns = sx.NewStub("returns", "r")
	}
	switch v.Choose("message", 3) {
	case 0:
		judge(s, map[string]interface{}{"params": l, "method": "m", "id": 1})
	case 1:
		var r interface{} = "r"
		if v.Choose("odd result", 2) == 1 {
			r = sx.Odd("result")
			if s.Returns != nil {
				s.Returns = sx.NewStub("returns", sx.Key(r))
			}
		}
		judge(s, map[string]interface{}{"result": r, "id": 1})
	default:
		judge(s, map[string]interface{}{"params": l})
	}
}

// method schemas against documents that are not messages, and results of every kind
//v:reach=yes,no
func CheckMethodDocs() {
	s := jlibschema.NewMethodSchema()
	s.Params = []sx.Schema{sx.Prim("p", "*i"[:v.N(1, 2)])}
	if v.Choose("returns", 2) == 1 {
		s.Returns = sx.Prim("r", "nbI")
	}
	judge(s, v.Value("x", v.Shape{Depth: 2, Width: 2, StrLen: 1, Keys: []string{"params", "result", "z"}, Kinds: "nbisao"}))
}

// every schema tree of depth 2 (any-of, all-of, not, list, tuple, object over bool, integer and string leaves, width 1; 2 thorough) against every value of depth 2 and width 2
//v:reach=yes,no
func CheckTrees() {
	s := sx.Tree("s", 2, "ALNlto", "bS", v.N(1, 2))
	x := v.Value("x", v.Shape{Depth: 2, Width: 2, StrLen: 1, Keys: []string{"a", "b"}, Kinds: "bsao"})
	judge(s, x)
}
