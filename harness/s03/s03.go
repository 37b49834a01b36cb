// Package s03: validation errors point at a failing place and leave no residue.
package s03

import (
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s03.CheckPaths", CheckPaths)
var _ = v.Reg("s03.CheckMethodPaths", CheckMethodPaths)
var _ = v.Reg("s03.CheckReuse", CheckReuse)
var _ = v.Reg("s03.CheckStubReuse", CheckStubReuse)
var _ = v.Reg("s03.CheckErrorText", CheckErrorText)

// blames says whether rejecting x may be reported at path (relative to x):
// some part of x at that place is really rejected by the part of the schema
// that applies to it.
func blames(s sx.Schema, x interface{}, path string) bool {
	if path == "" {
		return !sx.Accepts(s, x)
	}
	at := func(c sx.Schema, e interface{}, step string) bool {
		return len(path) >= len(step) && path[:len(step)] == step && blames(c, e, path[len(step):])
	}
	list := func(children []sx.Schema, extra sx.Schema, l []interface{}, prefix string) bool {
		for i, e := range l {
			c := extra
			if i < len(children) {
				c = children[i]
			}
			if c != nil && at(c, e, prefix+"["+strconv.Itoa(i)+"]") {
				return true
			}
		}
		return false
	}
	switch t := s.(type) {
	case *jlibschema.AllOfSchema:
		for _, c := range t.Choices {
			if blames(c, x, path) {
				return true
			}
		}
	case *jlibschema.ListSchema:
		l, _ := x.([]interface{})
		return list(nil, t.Item, l, "")
	case *jlibschema.TupleSchema:
		l, _ := x.([]interface{})
		return list(t.Children, t.AdditionalSchema, l, "")
	case *jlibschema.ObjectSchema:
		m, _ := x.(map[string]interface{})
		for k := range t.Requires {
			if _, has := m[k]; !has && path == "."+k {
				return true
			}
		}
		for k, e := range m {
			c, declared := t.Properties[k]
			if !declared {
				c = t.AdditionalProperties
			}
			if c != nil && at(c, e, "."+k) {
				return true
			}
		}
	case *jlibschema.MethodSchema:
		m, _ := x.(map[string]interface{})
		if l, ok := m["params"].([]interface{}); ok {
			if path == ".params" {
				return !sx.Accepts(s, x)
			}
			return list(t.Params, t.AdditionalSchema, l, ".params")
		}
		if r, has := m["result"]; has && t.Returns != nil {
			return at(t.Returns, r, ".result")
		}
	}
	return false
}

func pathOf(e *jlibschema.ErrorPos) string {
	if e == nil {
		return "ok"
	}
	return "at " + e.Path()
}

func value(name string, depth int) interface{} {
	return v.Value(name, v.Shape{Depth: depth, Width: 2, StrLen: 1, Keys: []string{"a", "b"}, Kinds: "bsao"})
}

// every schema tree of depth 2 (width 1; 2 thorough) against every value of depth 2: the reported path, and the same validator asked again
//v:reach=ok,root,deep
func CheckPaths() {
	s := sx.Tree("s", 2, "ALNlto", "bS", v.N(1, 2))
	x := value("x", 2)
	vd := jlibschema.NewSchemaValidator()
	e := vd.Validate(s, x)
	if e == nil {
		v.Reach("ok")
	} else {
		v.Assert(blames(s, x, e.Path()), "the reported path is a place that is really rejected")
		if e.Path() == "" {
			v.Reach("root")
		} else {
			v.Reach("deep")
		}
	}
	v.Assert(pathOf(vd.Validate(s, x)) == pathOf(e), "a reused validator gives the same verdict and path")
}

// method schemas with 0..1 (2 thorough) params, additional params and returns against messages with params or results of depth 1
//v:reach=ok,deep
func CheckMethodPaths() {
	s := sx.Node("s", 'm', 2, "lo", "b", v.N(1, 2))
	m := map[string]interface{}{}
	if v.Choose("form", 2) == 0 {
		l := []interface{}{}
		for i, n := 0, v.Choose("n", 3); i < n; i++ {
			l = append(l, v.Value("p"+strconv.Itoa(i), v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a"}, Kinds: "bsao"}))
		}
		m["params"] = l
	} else {
		m["result"] = value("r", 1)
	}
	e := jlibschema.NewSchemaValidator().Validate(s, m)
	if e == nil {
		v.Reach("ok")
		v.Assert(sx.Accepts(s, m), "an accepted message conforms")
		return
	}
	v.Reach("deep")
	v.Assert(blames(s, m, e.Path()), "the reported path is a place that is really rejected")
}

// wrapped builds one of the ways to nest an arbitrary child.
func wrapped(name string, child sx.Schema) sx.Schema {
	switch v.Choose(name, 7) {
	case 0:
		s := jlibschema.NewAnyOfSchema()
		s.Choices = []sx.Schema{child, &jlibschema.BoolSchema{}}
		return s
	case 1:
		s := jlibschema.NewAllOfSchema()
		s.Choices = []sx.Schema{&jlibschema.AnySchema{}, child}
		return s
	case 2:
		s := jlibschema.NewNotSchema()
		s.Child = child
		return s
	case 3:
		s := jlibschema.NewListSchema()
		s.Item = child
		return s
	case 4:
		s := jlibschema.NewTupleSchema()
		s.Children = []sx.Schema{child}
		s.AdditionalSchema = child
		return s
	case 5:
		s := jlibschema.NewObjectSchema()
		s.Properties["a"] = child
		s.Requires["a"] = true
		s.AdditionalProperties = child
		return s
	}
	s := jlibschema.NewMethodSchema()
	s.Params = []sx.Schema{child}
	s.AdditionalSchema = child
	s.Returns = child
	return s
}

// a validation of a composite of depth 2 over leaves with arbitrary verdicts and then one of depth 1 (both depth 2 and width 3 thorough) on one validator, compared with fresh validators
//v:reach=done
func CheckStubReuse() {
	vd := jlibschema.NewSchemaValidator()
	errs, texts := []*jlibschema.ErrorPos{}, []string{}
	for i := 0; i < 2; i++ {
		id := strconv.Itoa(i)
		var s sx.Schema = sx.NewStub("leaf"+id, "p")
		if i == 0 || v.Tier() == "thorough" {
			s = wrapped("inner"+id, s)
		}
		s = wrapped("outer"+id, s)
		leaf := func(k int) interface{} {
			switch v.Choose("leafvalue"+id, k) {
			case 0:
				return "p"
			case 1:
				return "q"
			case 2:
				return []interface{}{"p", "q"}
			case 3:
				return map[string]interface{}{"a": "p", "b": "q"}
			case 4:
				return map[string]interface{}{"params": []interface{}{"p", "q"}}
			}
			return map[string]interface{}{"result": "p"}
		}
		var x interface{}
		shapes := 4
		if i == 1 && v.Tier() == "quick" {
			shapes = 1
		}
		switch v.Choose("value"+id, shapes) {
		case 0:
			x = leaf(6)
		case 1:
			x = []interface{}{leaf(6)}
		case 2:
			x = map[string]interface{}{"a": leaf(6)}
		default:
			x = map[string]interface{}{"params": []interface{}{leaf(4)}}
		}
		a := vd.Validate(s, x)
		b := jlibschema.NewSchemaValidator().Validate(s, x)
		v.Assert(pathOf(a) == pathOf(b), "a reused validator gives the same verdict and path as a fresh one")
		errs, texts = append(errs, a), append(texts, pathOf(b))
		v.Assert(pathOf(errs[0]) == texts[0], "a later validation does not change an earlier error")
	}
	v.Reach("done")
}

// one validator asked about two unrelated tree/value pairs of depth 1
//v:reach=done
func CheckReuse() {
	vd := jlibschema.NewSchemaValidator()
	errs, texts := []*jlibschema.ErrorPos{}, []string{}
	for i := 0; i < 2; i++ {
		id := strconv.Itoa(i)
		s := sx.Tree("s"+id, 1, "ALNlto", "S", 1)
		x := v.Value("x"+id, v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a", "b"}, Kinds: "bsao"})
		a := vd.Validate(s, x)
		b := jlibschema.NewSchemaValidator().Validate(s, x)
		v.Assert(pathOf(a) == pathOf(b), "a reused validator gives the same verdict and path as a fresh one")
		errs, texts = append(errs, a), append(texts, pathOf(b))
		v.Assert(pathOf(errs[0]) == texts[0], "a later validation does not change an earlier error")
	}
	v.Reach("done")
}

// the error text names the path
//v:reach=done
func CheckErrorText() {
	s := jlibschema.NewObjectSchema()
	k := v.ASCII("key", 3)
	s.Properties[k] = &jlibschema.BoolSchema{}
	e := jlibschema.NewSchemaValidator().Validate(s, map[string]interface{}{k: v.ASCII("val", 1)})
	v.Assert(e != nil && e.Path() == "."+k, "the path is the property that is rejected")
	v.Reach("done")
}
