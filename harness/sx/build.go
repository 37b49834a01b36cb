package sx

import (
	"encoding/json"
	"strconv"

	"github.com/superisaac/jlib/schema"
)

// Ref is the reference reading of a schema document: the schema it describes,
// or false when it is not a schema document.
func Ref(doc interface{}) (Schema, bool) { return ref(doc, false) }

func ref(doc interface{}, returns bool) (Schema, bool) {
	switch d := doc.(type) {
	case string:
		switch d {
		case "string":
			return jlibschema.NewStringSchema(), true
		case "number":
			return jlibschema.NewNumberSchema(), true
		case "integer":
			return jlibschema.NewIntegerSchema(), true
		case "bool":
			return &jlibschema.BoolSchema{}, true
		case "null":
			return &jlibschema.NullSchema{}, true
		}
		return nil, false
	case map[string]interface{}:
		s, ok := refMap(d, returns)
		if !ok {
			return nil, false
		}
		if n, has := d["name"]; has {
			str, ok := n.(string)
			if !ok {
				return nil, false
			}
			s.SetName(str)
		}
		if n, has := d["description"]; has {
			str, ok := n.(string)
			if !ok {
				return nil, false
			}
			s.SetDescription(str)
		}
		return s, true
	}
	return nil, false
}

func has(d map[string]interface{}, k string) bool { _, ok := d[k]; return ok }

func refMap(d map[string]interface{}, returns bool) (Schema, bool) {
	tp := ""
	if t, ok := d["type"]; ok {
		tp, _ = t.(string)
	} else {
		switch {
		case has(d, "params"):
			tp = "method"
		case has(d, "properties"):
			tp = "object"
		case has(d, "anyOf"):
			tp = "anyOf"
		case has(d, "allOf"):
			tp = "allOf"
		case has(d, "not"):
			tp = "not"
		case returns:
			tp = "any"
		}
	}
	good := true
	float := func(k string) *float64 {
		x, ok := d[k]
		if !ok {
			return nil
		}
		f, ok := Float(x)
		good = good && ok
		return &f
	}
	integer := func(k string) *int64 {
		x, ok := d[k]
		if !ok {
			return nil
		}
		i, ok := Int(x)
		good = good && ok
		return &i
	}
	length := func(k string) *int {
		p := integer(k)
		if p == nil {
			return nil
		}
		n := int(*p)
		good = good && n >= 0
		return &n
	}
	flag := func(k string) *bool {
		x, ok := d[k]
		if !ok {
			return nil
		}
		b, ok := x.(bool)
		good = good && ok
		return &b
	}
	sub := func(k string) Schema {
		x, ok := d[k]
		if !ok {
			return nil
		}
		s, ok := Ref(x)
		good = good && ok
		return s
	}
	subs := func(k string) []Schema {
		l, ok := d[k].([]interface{})
		if !ok {
			good = false
			return nil
		}
		out := []Schema{}
		for _, e := range l {
			s, ok := Ref(e)
			if !ok {
				good = false
				return nil
			}
			out = append(out, s)
		}
		return out
	}
	var s Schema
	switch tp {
	case "any":
		s = &jlibschema.AnySchema{}
	case "null":
		s = &jlibschema.NullSchema{}
	case "bool":
		s = &jlibschema.BoolSchema{}
	case "number":
		t := jlibschema.NewNumberSchema()
		t.Maximum, t.Minimum = float("maximum"), float("minimum")
		t.ExclusiveMaximum, t.ExclusiveMinimum = flag("exclusiveMaximum"), flag("exclusiveMinimum")
		s = t
	case "integer":
		t := jlibschema.NewIntegerSchema()
		t.Maximum, t.Minimum = integer("maximum"), integer("minimum")
		t.ExclusiveMaximum, t.ExclusiveMinimum = flag("exclusiveMaximum"), flag("exclusiveMinimum")
		s = t
	case "string":
		t := jlibschema.NewStringSchema()
		t.MaxLength, t.MinLength = length("maxLength"), length("minLength")
		s = t
	case "anyOf":
		t := jlibschema.NewAnyOfSchema()
		t.Choices = subs("anyOf")
		s = t
	case "allOf":
		t := jlibschema.NewAllOfSchema()
		t.Choices = subs("allOf")
		s = t
	case "not":
		t := jlibschema.NewNotSchema()
		t.Child = sub("not")
		good = good && t.Child != nil
		s = t
	case "list":
		items, ok := d["items"]
		if !ok {
			return nil, false
		}
		if _, ok := items.([]interface{}); ok {
			t := jlibschema.NewTupleSchema()
			t.Children = subs("items")
			t.AdditionalSchema = sub("additionalItems")
			s = t
			break
		}
		t := jlibschema.NewListSchema()
		t.Item = sub("items")
		t.MaxItems, t.MinItems = length("maxItems"), length("minItems")
		s = t
	case "object":
		t := jlibschema.NewObjectSchema()
		if p, ok := d["properties"]; ok {
			m, ok := p.(map[string]interface{})
			if !ok {
				return nil, false
			}
			for k, e := range m {
				c, ok := Ref(e)
				if !ok {
					return nil, false
				}
				t.Properties[k] = c
			}
		}
		if r, ok := d["requires"]; ok {
			l, ok := r.([]interface{})
			if !ok {
				return nil, false
			}
			for _, e := range l {
				k, ok := e.(string)
				if !ok {
					return nil, false
				}
				if _, ok := t.Properties[k]; !ok {
					return nil, false
				}
				t.Requires[k] = true
			}
		}
		t.AdditionalProperties = sub("additionalProperties")
		s = t
	case "method":
		t := jlibschema.NewMethodSchema()
		t.Params = subs("params")
		t.AdditionalSchema = sub("additionalParams")
		if r, ok := d["returns"]; ok {
			c, ok := ref(r, true)
			good = good && ok
			t.Returns = c
		}
		s = t
	default:
		return nil, false
	}
	return s, good
}

// Float is the float64 a stated number means.
func Float(x interface{}) (float64, bool) {
	switch n := x.(type) {
	case int:
		return float64(n), true
	case float64:
		return n, true
	case json.Number:
		f, err := strconv.ParseFloat(string(n), 64)
		return f, err == nil
	}
	return 0, false
}

// Int is the integer a stated number means.
func Int(x interface{}) (int64, bool) {
	switch n := x.(type) {
	case int:
		return int64(n), true
	case float64:
		if -0x1p63 <= n && n < 0x1p63 && n == float64(int64(n)) {
			return int64(n), true
		}
	case json.Number:
		i, err := strconv.ParseInt(string(n), 10, 64)
		return i, err == nil
	}
	return 0, false
}
