// Package s04: schema documents build the schema they describe or an error.
package s04

import (
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/hx"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s04.CheckScalars", CheckScalars)
var _ = v.Reg("s04.CheckLists", CheckLists)
var _ = v.Reg("s04.CheckObjects", CheckObjects)
var _ = v.Reg("s04.CheckNames", CheckNames)
var _ = v.Reg("s04.CheckMethods", CheckMethods)
var _ = v.Reg("s04.CheckChoices", CheckChoices)
var _ = v.Reg("s04.CheckMeta", CheckMeta)
var _ = v.Reg("s04.CheckAnything", CheckAnything)
var _ = v.Reg("s04.CheckBytes", CheckBytes)
var _ = v.Reg("s04.CheckReuse", CheckReuse)

func judge(doc interface{}) {
	want, ok := sx.Ref(doc)
	var got sx.Schema
	var err error
	r := hx.Panics(func() { got, err = jlibschema.NewSchemaBuilder().Build(doc) })
	v.Assert(r == nil, "building never panics")
	if r != nil {
		return
	}
	check(want, ok, got, err)
}

func check(want sx.Schema, ok bool, got sx.Schema, err error) {
	if err != nil {
		v.Reach("error")
		v.Assert(!ok, "a document that describes a schema builds")
		v.Assert(err.Error() != "", "the error says something")
		return
	}
	v.Reach("built")
	v.Assert(ok, "a document with a malformed constraint, property or type is an error")
	if !ok {
		return
	}
	if m, isM := got.(*jlibschema.MethodSchema); isM && m.Returns != nil {
		if w, isM := want.(*jlibschema.MethodSchema); isM && w.Returns == nil {
			// no returns stated: any result
			_, isAny := m.Returns.(*jlibschema.AnySchema)
			v.Assert(isAny, "a method without returns accepts any result")
			m.Returns = nil
		}
	}
	v.Assert(sx.Like(want, got), "the schema has the type, names, constraints and children the document states")
}

// any is any JSON value of the depth.
func anyValue(name string, depth int, keys ...string) interface{} {
	return v.Value(name, v.Shape{Depth: depth, Width: 1, StrLen: 4, Keys: keys, Kinds: "nbifsao"})
}

// node is a schema document for a child: shorthand, primitive map, or any JSON value.
func node(name string) interface{} {
	switch v.Choose(name+".form", 5) {
	case 0:
		return v.Pick(name+".short", "string", "integer", "bool", "any", "method", "x")
	case 1:
		return map[string]interface{}{"type": "string", "maxLength": v.Int(name + ".max")}
	case 2:
		return map[string]interface{}{"not": "null"}
	case 3:
		return map[string]interface{}{"type": "bool"}
	}
	return anyValue(name, 0)
}

func set(doc map[string]interface{}, key string, gen func(string) interface{}) {
	if v.Choose("has "+key, 2) == 1 {
		doc[key] = gen(key)
	}
}

// number, integer and string documents with each constraint absent or any JSON value, native int or native float (any float for number, ten floats around every edge of the integer range for integer and string)
//v:reach=built,error
func CheckScalars() {
	attrs := []string{"maximum", "minimum", "exclusiveMaximum", "exclusiveMinimum"}
	tp := v.Pick("type", "number", "integer", "string")
	if tp == "string" {
		attrs = []string{"maxLength", "minLength"}
	}
	doc := map[string]interface{}{"type": tp}
	odd := v.Choose("odd", len(attrs))
	for i, a := range attrs {
		set(doc, a, func(k string) interface{} {
			if i == odd {
				switch v.Choose("form", 3) {
				case 0:
					if tp != "number" {
						return v.Value(k, v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: "nbisao"})
					}
					return anyValue(k, 1, "a")
				case 1:
					return v.Int(k)
				default:
					if tp == "number" {
						return v.Float(k)
					}
					fs := []float64{0, 3, -1, 2.5, 1e18, 1e19, -1e19, 1e300, 1e-7}
					return fs[v.Choose("f", len(fs))]
				}
			}
			if i >= 2 {
				return v.Bool(k)
			}
			return v.Int(k)
		})
	}
	judge(doc)
}

// list documents: items any child, list of 0..2 children or any value; limits and additionalItems absent, valid or any value
//v:reach=built,error
func CheckLists() {
	doc := map[string]interface{}{"type": "list"}
	set(doc, "items", func(k string) interface{} {
		if v.Choose("tuple", 2) == 0 {
			return node(k)
		}
		l := []interface{}{}
		for i, n := 0, v.Choose("n", 3); i < n; i++ {
			l = append(l, node("item"+strconv.Itoa(i)))
		}
		return l
	})
	switch v.Choose("odd", 3) {
	case 0:
		set(doc, "maxItems", func(k string) interface{} { return anyValue(k, 0) })
	case 1:
		set(doc, "minItems", func(k string) interface{} { return anyValue(k, 0) })
		doc["maxItems"] = 3
		if _, tuple := doc["items"].([]interface{}); tuple {
			delete(doc, "maxItems")
			delete(doc, "minItems")
		}
	default:
		set(doc, "additionalItems", node)
	}
	if _, tuple := doc["items"].([]interface{}); tuple {
		delete(doc, "maxItems") // limits of tuples are outside the property
	} else {
		delete(doc, "additionalItems")
	}
	judge(doc)
}

// object documents: type given or inferred, properties absent, a map of 0..2 children or any value, requires and additionalProperties absent, valid or any value, every map order
//v:reach=built,error
func CheckObjects() {
	v.MapOrder()
	doc := map[string]interface{}{}
	if v.Choose("typed", 2) == 0 {
		doc["type"] = "object"
	}
	odd := v.Choose("odd", 4)
	set(doc, "properties", func(k string) interface{} {
		if odd == 0 {
			return anyValue(k, 1, "a", "type", "params")
		}
		m := map[string]interface{}{"a": "string"}
		if odd == 1 {
			m["a"] = node("a")
		}
		if v.Choose("b", 2) == 1 {
			m["b"] = map[string]interface{}{"type": "integer", "minimum": 3}
		}
		return m
	})
	set(doc, "requires", func(k string) interface{} {
		if odd == 2 {
			return anyValue(k, 1, "a")
		}
		l := []interface{}{}
		for i, n := 0, v.Choose("requires", 3); i < n; i++ {
			l = append(l, v.Pick("req", "a", "b", "c"))
		}
		return l
	})
	if odd == 3 {
		set(doc, "additionalProperties", node)
	}
	judge(doc)
}

// object documents with two properties of any ASCII names of at most 4 bytes or reserved words
//v:reach=built
func CheckNames() {
	words := []string{"type", "params", "properties", "anyOf", "allOf", "not", "requires", "items", "name"}
	props := map[string]interface{}{}
	req := []interface{}{}
	for i := 0; i < 2; i++ {
		k := ""
		if w := v.Choose("word", len(words)+1); w < len(words) {
			k = words[w]
		} else {
			k = v.ASCII("prop", 4)
		}
		switch v.Choose("child", 3) {
		case 0:
			props[k] = "string"
		case 1:
			props[k] = map[string]interface{}{"type": "string", "maxLength": v.Int("max")}
		default:
			props[k] = map[string]interface{}{"properties": map[string]interface{}{words[v.Choose("inner", 4)]: "bool"}}
		}
		if v.Choose("req", 2) == 1 {
			req = append(req, k)
		}
	}
	judge(map[string]interface{}{"type": "object", "properties": props, "requires": req})
}

// method documents: type given or inferred, params absent, a list of 0..2 children or any value, returns and additionalParams absent, a child or any value
//v:reach=built,error
func CheckMethods() {
	doc := map[string]interface{}{}
	if v.Choose("typed", 2) == 0 {
		doc["type"] = "method"
	}
	odd := v.Choose("odd", 3)
	set(doc, "params", func(k string) interface{} {
		if odd == 0 {
			if v.Choose("any", 2) == 0 {
				return anyValue(k, 1, "a", "type")
			}
			return []interface{}{node("p0"), node("p1")}
		}
		return []interface{}{"string"}[v.Choose("empty", 2):]
	})
	set(doc, "returns", func(k string) interface{} {
		if odd == 1 {
			if v.Choose("any", 2) == 0 {
				return anyValue(k, 1, "type", "name")
			}
			return node(k)
		}
		return map[string]interface{}{"description": "x"}
	})
	if odd == 2 {
		set(doc, "additionalParams", node)
	}
	judge(doc)
}

// any-of, all-of and not documents: type given or inferred (also with several candidates), children lists of 0..2 children or any value
//v:reach=built,error
func CheckChoices() {
	doc := map[string]interface{}{}
	kinds := []string{"anyOf", "allOf", "not"}
	k := kinds[v.Choose("kind", 3)]
	if v.Choose("typed", 2) == 0 {
		doc["type"] = k
	}
	set(doc, k, func(k string) interface{} {
		switch v.Choose("form", 3) {
		case 0:
			return anyValue(k, 1, "type")
		case 1:
			return node(k)
		}
		l := []interface{}{}
		for i, n := 0, v.Choose("n", 3); i < n; i++ {
			l = append(l, node("c"+strconv.Itoa(i)))
		}
		return l
	})
	if v.Choose("also", 2) == 1 {
		doc[kinds[v.Choose("alsokind", 3)]] = []interface{}{"string"}
	}
	judge(doc)
}

// documents of every type with name and description absent or any JSON value
//v:reach=built,error
func CheckMeta() {
	doc := map[string]interface{}{"type": v.Pick("type", "any", "null", "bool", "number", "integer", "string", "list", "object", "method", "anyOf", "not"),
		"items": "string", "anyOf": []interface{}{"null"}, "not": "null", "params": []interface{}{}, "properties": map[string]interface{}{}}
	set(doc, "name", func(k string) interface{} { return anyValue(k, 0) })
	set(doc, "description", func(k string) interface{} { return anyValue(k, 0) })
	judge(doc)
}

// any JSON value of depth 2 over the attribute names, with strings of at most 7 bytes
//v:reach=built,error
func CheckAnything() {
	judge(v.Value("doc", v.Shape{Depth: v.N(2, 3), Width: 2, StrLen: v.N(6, 7), Keys: []string{"type", "items", "not", "properties", "params"}, Kinds: "nbisao"}))
}

// documents given as JSON text
//v:reach=built,error
func CheckBytes() {
	doc := map[string]interface{}{"type": v.Pick("type", "number", "integer", "string", "bad"), "maximum": anyValue("max", 0), "minLength": v.Int("min")}
	want, ok := sx.Ref(doc)
	text := hx.Enc(doc)
	if v.Choose("bad", 2) == 1 {
		_, err := jlibschema.NewSchemaBuilder().BuildBytes([]byte(v.Pick("text", "", "{", "[1", "nul", `{"type":}`, `"number`, "}")))
		v.Assert(err != nil, "text that is not JSON is an error")
		return
	}
	got, err := jlibschema.NewSchemaBuilder().BuildBytes(text)
	check(want, ok, got, err)
}

// building twice from one document gives equal schemas
//v:reach=done
func CheckReuse() {
	doc := map[string]interface{}{"properties": map[string]interface{}{"a": node("a"), "b": map[string]interface{}{"params": []interface{}{"string"}, "returns": map[string]interface{}{"name": "r"}}}}
	b := jlibschema.NewSchemaBuilder()
	s, err := b.Build(doc)
	t, err2 := b.Build(doc)
	v.Assert((err == nil) == (err2 == nil), "a document builds every time or never")
	if err == nil && err2 == nil {
		v.Assert(sx.Same(s, t), "a document always builds the same schema")
		v.Reach("done")
	}
}
