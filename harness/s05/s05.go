// Package s05: serialised schemas rebuild to an equal schema.
package s05

import (
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/hx"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s05.CheckPrims", CheckPrims)
var _ = v.Reg("s05.CheckNumbers", CheckNumbers)
var _ = v.Reg("s05.CheckComposites", CheckComposites)
var _ = v.Reg("s05.CheckObjectNames", CheckObjectNames)
var _ = v.Reg("s05.CheckTrees", CheckTrees)

// kids are the direct children of a schema.
func kids(s sx.Schema) []sx.Schema {
	l := []sx.Schema{}
	switch t := s.(type) {
	case *jlibschema.MethodSchema:
		l = append(append(l, t.Params...), t.Returns, t.AdditionalSchema)
	case *jlibschema.AnyOfSchema:
		l = append(l, t.Choices...)
	case *jlibschema.AllOfSchema:
		l = append(l, t.Choices...)
	case *jlibschema.NotSchema:
		l = append(l, t.Child)
	case *jlibschema.ListSchema:
		l = append(l, t.Item)
	case *jlibschema.TupleSchema:
		l = append(append(l, t.Children...), t.AdditionalSchema)
	case *jlibschema.ObjectSchema:
		for _, k := range []string{"a", "b", "c"} {
			l = append(l, t.Properties[k])
		}
		l = append(l, t.AdditionalProperties)
	}
	out := []sx.Schema{}
	for _, c := range l {
		if c != nil {
			out = append(out, c)
		}
	}
	return out
}

// withReturns gives every method schema a returns schema, as the builder does:
// a document cannot say that there is none.
func withReturns(s sx.Schema) {
	if t, ok := s.(*jlibschema.MethodSchema); ok && t.Returns == nil {
		t.Returns = &jlibschema.AnySchema{}
	}
	for _, c := range kids(s) {
		withReturns(c)
	}
}

func rebuild(s sx.Schema) sx.Schema {
	withReturns(s)
	var text string
	r := hx.Panics(func() { text = jlibschema.SchemaToString(s) })
	v.Assert(r == nil, "serialising never panics")
	if r != nil {
		return nil
	}
	t, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(text))
	v.Assert(err == nil, "the serialised schema builds")
	if err != nil {
		return nil
	}
	v.Assert(sx.Like(s, t), "the rebuilt schema has the same type, names, constraints and children")
	v.Assert(s.Equal(t), "the rebuilt schema equals the original")
	v.Reach("done")
	return t
}

func name(s sx.Schema) {
	s.SetName(v.ASCII("name", 1))
	s.SetDescription(v.ASCII("desc", 1))
}

// every primitive schema with name, description and one bound, and the values of depth 1 it accepts
//v:reach=done
func CheckPrims() {
	s := sx.Prim("s", "nb*FIs")
	name(s)
	t := rebuild(s)
	if t == nil {
		return
	}
	x := v.Value("x", v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: "nbisao"})
	v.Assert(sx.Valid(s, x) == sx.Valid(t, x), "both accept the same values")
}

// number, integer and string schemas with every combination of bounds and flags
//v:reach=done
func CheckNumbers() {
	s := sx.Prim("s", "fis")
	rebuild(s)
}

// any-of, all-of, not, list, tuple, object and method schemas over bool and string children with limits, the schema and its children named
//v:reach=done
func CheckComposites() {
	v.MapOrder()
	kinds := "ALNltom"
	s := sx.Node("s", kinds[v.Choose("kind", len(kinds))], 1, "", "bS", 2)
	name(s)
	for i, c := range kids(s) {
		c.SetName(v.ASCII("name"+strconv.Itoa(i), 1))
	}
	rebuild(s)
}

// object schemas with two properties of arbitrary ASCII names of at most 2 bytes or reserved words, any of them required
//v:reach=done
func CheckObjectNames() {
	s := jlibschema.NewObjectSchema()
	words := []string{"type", "params", "properties", "anyOf", "allOf", "not", "requires", "name"}
	for i := 0; i < 2; i++ {
		k := ""
		if w := v.Choose("word", len(words)+1); w < len(words) {
			k = words[w]
		} else {
			k = v.ASCII("prop", 2)
		}
		s.Properties[k] = sx.Prim("p", "bS")
		s.Properties[k].SetDescription(v.ASCII("desc", 1))
		if v.Choose("req", 2) == 1 {
			s.Requires[k] = true
		}
	}
	rebuild(s)
}

// every schema tree of depth 2, width 1 (2 thorough) over bool and string leaves
//v:reach=done
func CheckTrees() {
	rebuild(sx.Tree("s", 2, "ALNltom", "bS"[:v.N(1, 2)], v.N(1, 2)))
}
