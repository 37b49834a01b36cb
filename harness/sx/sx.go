// Package sx generates schemas and holds the reference reading of them.
package sx

import (
	"encoding/json"
	"strconv"

	"github.com/superisaac/jlib/schema"
	"verif/harness/v"
)

type Schema = jlibschema.Schema

func optFloat(name string) *float64 {
	if v.Choose(name+"?", 2) == 0 {
		return nil
	}
	x := v.Float(name)
	return &x
}

func optInt64(name string) *int64 {
	if v.Choose(name+"?", 2) == 0 {
		return nil
	}
	x := v.Int64(name)
	return &x
}

// OptLen is an absent or any non-negative length.
func OptLen(name string) *int {
	if v.Choose(name+"?", 2) == 0 {
		return nil
	}
	x := v.Int(name)
	v.Assume(x >= 0)
	return &x
}

func optBool(name string) *bool {
	if v.Choose(name+"?", 2) == 0 {
		return nil
	}
	x := v.Bool(name)
	return &x
}

func Number(name string) *jlibschema.NumberSchema {
	s := jlibschema.NewNumberSchema()
	s.Minimum = optFloat(name + ".min")
	s.Maximum = optFloat(name + ".max")
	s.ExclusiveMinimum = optBool(name + ".exmin")
	s.ExclusiveMaximum = optBool(name + ".exmax")
	return s
}

func Integer(name string) *jlibschema.IntegerSchema {
	s := jlibschema.NewIntegerSchema()
	s.Minimum = optInt64(name + ".min")
	s.Maximum = optInt64(name + ".max")
	s.ExclusiveMinimum = optBool(name + ".exmin")
	s.ExclusiveMaximum = optBool(name + ".exmax")
	return s
}

func String(name string) *jlibschema.StringSchema {
	s := jlibschema.NewStringSchema()
	s.MinLength = OptLen(name + ".minlen")
	s.MaxLength = OptLen(name + ".maxlen")
	return s
}

// Prim is a primitive schema of one of the kinds: n null, b bool, * any,
// f number, i integer, s string with all attributes, F number with a
// maximum, I integer with a minimum, S string with a maximum length.
func Prim(name, kinds string) Schema {
	switch kinds[v.Choose(name+".kind", len(kinds))] {
	case 'n':
		return &jlibschema.NullSchema{}
	case 'b':
		return &jlibschema.BoolSchema{}
	case '*':
		return &jlibschema.AnySchema{}
	case 'f':
		return Number(name)
	case 'i':
		return Integer(name)
	case 's':
		return String(name)
	case 'F':
		s := jlibschema.NewNumberSchema()
		x := v.Float(name + ".max")
		s.Maximum = &x
		return s
	case 'I':
		s := jlibschema.NewIntegerSchema()
		x := v.Int64(name + ".min")
		s.Minimum = &x
		return s
	case 'S':
		s := jlibschema.NewStringSchema()
		x := v.Int(name + ".maxlen")
		v.Assume(x >= 0)
		s.MaxLength = &x
		return s
	}
	panic("kind")
}

// Tree is a schema tree of the depth whose leaves are of the primitive kinds
// and whose inner nodes are of the kinds: A any-of, L all-of, N not, l list,
// t tuple, o object.
func Tree(name string, depth int, inner, leaves string, width int) Schema {
	if depth == 0 {
		return Prim(name, leaves)
	}
	k := v.Choose(name+".node", len(inner)+1)
	if k == len(inner) {
		return Prim(name, leaves)
	}
	return Node(name, inner[k], depth, inner, leaves, width)
}

// Node is an inner node of the kind.
func Node(name string, kind byte, depth int, inner, leaves string, width int) Schema {
	sub := func(n string) Schema { return Tree(name+n, depth-1, inner, leaves, width) }
	subs := func() []Schema {
		l := []Schema{}
		for i, n := 0, v.Choose(name+".n", width+1); i < n; i++ {
			l = append(l, sub("."+strconv.Itoa(i)))
		}
		return l
	}
	opt := func() Schema {
		if v.Choose(name+".additional?", 2) == 0 {
			return nil
		}
		return Prim(name+".additional", leaves)
	}
	switch kind {
	case 'A':
		s := jlibschema.NewAnyOfSchema()
		s.Choices = subs()
		return s
	case 'L':
		s := jlibschema.NewAllOfSchema()
		s.Choices = subs()
		return s
	case 'N':
		s := jlibschema.NewNotSchema()
		s.Child = sub(".not")
		return s
	case 'l':
		s := jlibschema.NewListSchema()
		s.Item = sub(".item")
		s.MinItems = OptLen(name + ".minitems")
		s.MaxItems = OptLen(name + ".maxitems")
		return s
	case 't':
		s := jlibschema.NewTupleSchema()
		s.Children = subs()
		s.AdditionalSchema = opt()
		return s
	case 'o':
		s := jlibschema.NewObjectSchema()
		for i, n := 0, v.Choose(name+".n", width+1); i < n; i++ {
			k := []string{"a", "b", "c"}[i]
			s.Properties[k] = sub("." + k)
			if v.Choose(name+".req", 2) == 1 {
				s.Requires[k] = true
			}
		}
		s.AdditionalProperties = opt()
		return s
	case 'm':
		s := jlibschema.NewMethodSchema()
		s.Params = subs()
		s.AdditionalSchema = opt()
		if v.Choose(name+".returns?", 2) == 1 {
			s.Returns = sub(".returns")
		}
		return s
	}
	panic("kind")
}

// Accepts is the reference reading of a schema.
func Accepts(s Schema, x interface{}) bool {
	switch t := s.(type) {
	case *jlibschema.AnySchema:
		return true
	case *jlibschema.NullSchema:
		return x == nil
	case *jlibschema.BoolSchema:
		_, ok := x.(bool)
		return ok
	case *jlibschema.StringSchema:
		str, ok := x.(string)
		if !ok {
			return false
		}
		return v.And(t.MinLength == nil || len(str) >= *t.MinLength, t.MaxLength == nil || len(str) <= *t.MaxLength)
	case *jlibschema.IntegerSchema:
		var n int64
		switch y := x.(type) {
		case int:
			n = int64(y)
		case json.Number:
			i, err := strconv.ParseInt(string(y), 10, 64)
			if err != nil {
				return false
			}
			n = i
		default:
			return false
		}
		return v.And(t.Minimum == nil || v.Or(*t.Minimum < n, v.And(*t.Minimum == n, !on(t.ExclusiveMinimum))),
			t.Maximum == nil || v.Or(n < *t.Maximum, v.And(*t.Maximum == n, !on(t.ExclusiveMaximum))))
	case *jlibschema.NumberSchema:
		var n float64
		switch y := x.(type) {
		case int:
			n = float64(y)
		case float64:
			n = y
		case json.Number:
			n, _ = strconv.ParseFloat(string(y), 64)
		default:
			return false
		}
		return v.And(t.Minimum == nil || v.Or(*t.Minimum < n, v.And(*t.Minimum == n, !on(t.ExclusiveMinimum))),
			t.Maximum == nil || v.Or(n < *t.Maximum, v.And(*t.Maximum == n, !on(t.ExclusiveMaximum))))
	case *jlibschema.AnyOfSchema:
		for _, c := range t.Choices {
			if Accepts(c, x) {
				return true
			}
		}
		return false
	case *jlibschema.AllOfSchema:
		for _, c := range t.Choices {
			if !Accepts(c, x) {
				return false
			}
		}
		return true
	case *jlibschema.NotSchema:
		return !Accepts(t.Child, x)
	case *jlibschema.ListSchema:
		l, ok := x.([]interface{})
		if !ok || t.MinItems != nil && len(l) < *t.MinItems || t.MaxItems != nil && len(l) > *t.MaxItems {
			return false
		}
		for _, e := range l {
			if !Accepts(t.Item, e) {
				return false
			}
		}
		return true
	case *jlibschema.TupleSchema:
		l, ok := x.([]interface{})
		return ok && acceptsAll(t.Children, t.AdditionalSchema, l)
	case *jlibschema.ObjectSchema:
		m, ok := x.(map[string]interface{})
		if !ok {
			return false
		}
		for k := range t.Requires {
			if _, has := m[k]; !has {
				return false
			}
		}
		for k, e := range m {
			if p, declared := t.Properties[k]; declared {
				if !Accepts(p, e) {
					return false
				}
			} else if t.AdditionalProperties != nil && !Accepts(t.AdditionalProperties, e) {
				return false
			}
		}
		return true
	case *jlibschema.MethodSchema:
		m, ok := x.(map[string]interface{})
		if !ok {
			return false
		}
		if l, ok := m["params"].([]interface{}); ok {
			return acceptsAll(t.Params, t.AdditionalSchema, l)
		}
		if r, has := m["result"]; has {
			return t.Returns == nil || Accepts(t.Returns, r)
		}
		return false
	case interface{ Accepts(x interface{}) bool }:
		return t.Accepts(x)
	}
	panic("schema type")
}

func on(b *bool) bool { return b != nil && *b }

func acceptsAll(children []Schema, extra Schema, l []interface{}) bool {
	if len(l) < len(children) || extra == nil && len(l) > len(children) {
		return false
	}
	for i, e := range l {
		c := extra
		if i < len(children) {
			c = children[i]
		}
		if !Accepts(c, e) {
			return false
		}
	}
	return true
}

// Stub is a child schema that accepts the values of a table with arbitrary
// verdicts and rejects everything else, which makes the checks of composite
// schemas independent of what the children are.
type Stub struct {
	jlibschema.SchemaMixin
	Verdicts map[string]bool
}

func NewStub(name string, values ...string) *Stub {
	s := &Stub{Verdicts: map[string]bool{}}
	for _, x := range values {
		s.Verdicts[x] = v.Bool(name + "." + x)
	}
	return s
}

func (s *Stub) Accepts(x interface{}) bool {
	return s.Verdicts[Key(x)]
}

// Key names a value in the table of a Stub.
func Key(x interface{}) string {
	switch x := x.(type) {
	case string:
		return x
	case nil:
		return "null"
	case bool:
		return strconv.FormatBool(x)
	case int:
		return "#" + strconv.Itoa(x)
	case []interface{}:
		return "[" + strconv.Itoa(len(x)) + "]"
	case map[string]interface{}:
		return "{" + strconv.Itoa(len(x)) + "}"
	}
	return "?"
}

// Odd is one of the values that are easily taken for no value at all.
func Odd(name string) interface{} {
	return []interface{}{nil, false, 0, "", []interface{}{}, map[string]interface{}{}}[v.Choose(name, 6)]
}

func (s *Stub) Type() string                { return "stub" }
func (s *Stub) Map() map[string]interface{} { return map[string]interface{}{"type": "stub"} }
func (s *Stub) Equal(o Schema) bool         { return s == o }
func (s *Stub) Scan(vd *jlibschema.SchemaValidator, x interface{}) *jlibschema.ErrorPos {
	if s.Accepts(x) {
		return nil
	}
	return vd.NewErrorPos("stub")
}

// Valid is the library's verdict from a fresh validator.
func Valid(s Schema, x interface{}) bool {
	return jlibschema.NewSchemaValidator().Validate(s, x) == nil
}

// Same: the schemas have the same type, name, description, constraints and
// children.  Like: the same, except that an absent exclusive flag and one set
// to false are not told apart.
func Same(a, b Schema) bool { return alike(a, b, true) }
func Like(a, b Schema) bool { return alike(a, b, false) }

func same[T comparable](a, b *T) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return *a == *b
}

func alike(a, b Schema, strict bool) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	meta := v.And(a.GetName() == b.GetName(), a.GetDescription() == b.GetDescription())
	flag := func(p, q *bool) bool {
		if strict {
			return same(p, q)
		}
		return on(p) == on(q)
	}
	list := func(x, y []Schema) bool {
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if !alike(x[i], y[i], strict) {
				return false
			}
		}
		return true
	}
	switch x := a.(type) {
	case *jlibschema.AnySchema:
		_, ok := b.(*jlibschema.AnySchema)
		return ok && meta
	case *jlibschema.NullSchema:
		_, ok := b.(*jlibschema.NullSchema)
		return ok && meta
	case *jlibschema.BoolSchema:
		_, ok := b.(*jlibschema.BoolSchema)
		return ok && meta
	case *jlibschema.NumberSchema:
		y, ok := b.(*jlibschema.NumberSchema)
		return ok && v.And(meta, same(x.Minimum, y.Minimum), same(x.Maximum, y.Maximum), flag(x.ExclusiveMinimum, y.ExclusiveMinimum), flag(x.ExclusiveMaximum, y.ExclusiveMaximum))
	case *jlibschema.IntegerSchema:
		y, ok := b.(*jlibschema.IntegerSchema)
		return ok && v.And(meta, same(x.Minimum, y.Minimum), same(x.Maximum, y.Maximum), flag(x.ExclusiveMinimum, y.ExclusiveMinimum), flag(x.ExclusiveMaximum, y.ExclusiveMaximum))
	case *jlibschema.StringSchema:
		y, ok := b.(*jlibschema.StringSchema)
		return ok && v.And(meta, same(x.MinLength, y.MinLength), same(x.MaxLength, y.MaxLength))
	case *jlibschema.AnyOfSchema:
		y, ok := b.(*jlibschema.AnyOfSchema)
		return ok && meta && list(x.Choices, y.Choices)
	case *jlibschema.AllOfSchema:
		y, ok := b.(*jlibschema.AllOfSchema)
		return ok && meta && list(x.Choices, y.Choices)
	case *jlibschema.NotSchema:
		y, ok := b.(*jlibschema.NotSchema)
		return ok && meta && alike(x.Child, y.Child, strict)
	case *jlibschema.ListSchema:
		y, ok := b.(*jlibschema.ListSchema)
		return ok && v.And(meta, same(x.MinItems, y.MinItems), same(x.MaxItems, y.MaxItems)) && alike(x.Item, y.Item, strict)
	case *jlibschema.TupleSchema:
		y, ok := b.(*jlibschema.TupleSchema)
		return ok && meta && list(x.Children, y.Children) && alike(x.AdditionalSchema, y.AdditionalSchema, strict)
	case *jlibschema.MethodSchema:
		y, ok := b.(*jlibschema.MethodSchema)
		return ok && meta && list(x.Params, y.Params) && alike(x.AdditionalSchema, y.AdditionalSchema, strict) && alike(x.Returns, y.Returns, strict)
	case *jlibschema.ObjectSchema:
		y, ok := b.(*jlibschema.ObjectSchema)
		if !ok || !meta || len(x.Properties) != len(y.Properties) || len(x.Requires) != len(y.Requires) {
			return false
		}
		for k, p := range x.Properties {
			q, has := y.Properties[k]
			if !has || !alike(p, q, strict) {
				return false
			}
		}
		for k := range x.Requires {
			if !y.Requires[k] {
				return false
			}
		}
		return alike(x.AdditionalProperties, y.AdditionalProperties, strict)
	}
	panic("schema type")
}
