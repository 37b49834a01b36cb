// Package s07: YAML-shaped schemas mean the same as their JSON form.
package s07

import (
	"fmt"
	"reflect"

	"github.com/superisaac/jlib/schema"
	"verif/harness/hx"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s07.CheckFix", CheckFix)
var _ = v.Reg("s07.CheckDeep", CheckDeep)
var _ = v.Reg("s07.CheckBuild", CheckBuild)
var _ = v.Reg("s07.CheckNumbers", CheckNumbers)
var _ = v.Reg("s07.CheckText", CheckText)

// yaml builds a YAML-shaped value, the same value with string keys, and
// whether some map has a key that is not a string.
func yaml(name string, depth int) (y, j interface{}, bad bool) {
	k := 3
	if depth > 0 {
		k = 6
	}
	switch v.Choose(name+".kind", k) {
	case 0:
		x := v.Int(name)
		return x, x, false
	case 1:
		x := v.ASCII(name, 1)
		return x, x, false
	case 2:
		return nil, nil, false
	case 3:
		ly, lj := []interface{}{}, []interface{}{}
		for i, n := 0, v.Choose(name+".n", 2+depth/2); i < n; i++ {
			a, b, c := yaml(fmt.Sprint(name, i), depth-1)
			ly, lj, bad = append(ly, a), append(lj, b), bad || c
		}
		return ly, lj, bad
	case 4:
		my, mj := map[interface{}]interface{}{}, map[string]interface{}{}
		for i, n := 0, v.Choose(name+".n", 2+depth/2); i < n; i++ {
			a, b, c := yaml(fmt.Sprint(name, i), depth-1)
			bad = bad || c
			key := fmt.Sprint("k", i)
			switch v.Choose(name+".key", 4) {
			case 0:
				my[i] = a
				bad = true
			case 1:
				my[nil] = a
				bad = true
			case 2:
				my[true] = a
				bad = true
			default:
				my[key] = a
			}
			mj[key] = b
		}
		return my, mj, bad
	}
	my, mj := map[string]interface{}{}, map[string]interface{}{}
	for i, n := 0, v.Choose(name+".n", 2+depth/2); i < n; i++ {
		a, b, c := yaml(fmt.Sprint(name, i), depth-1)
		bad = bad || c
		key := fmt.Sprint("k", i)
		my[key], mj[key] = a, b
	}
	return my, mj, bad
}

// every nesting of depth 2 of lists, string-keyed maps and any-keyed maps of at most 2 entries (1 at the inner level) with string, integer, null and bool keys
//v:reach=ok,bad
func CheckFix() {
	v.MapOrder()
	y, j, bad := yaml("y", 2)
	got, err := jlibschema.NewSchemaBuilder().FixYamlMaps(y)
	if bad {
		v.Reach("bad")
		v.Assert(err != nil, "a map with a key that is not a string is an error")
		return
	}
	v.Reach("ok")
	v.Assert(err == nil, "a value whose keys are strings is accepted")
	v.Assert(reflect.DeepEqual(got, j), "the normalised value is the same value with string-keyed maps")
}

// chains of 5 (7 thorough) levels, each a list, a string-keyed map or an any-keyed map, with one entry before or after the next level, ending in a map with a string or another key
//v:reach=ok,bad
func CheckDeep() {
	var y, j interface{} = map[interface{}]interface{}{"k": "x"}, map[string]interface{}{"k": "x"}
	bad := false
	if v.Choose("end", 2) == 1 {
		bad = true
		y = map[interface{}]interface{}{v.Int("end"): "x"}
	}
	for i, n := 0, v.N(5, 7); i < n; i++ {
		switch v.Choose(fmt.Sprint("level", i), 5) {
		case 0:
			y, j = []interface{}{y}, []interface{}{j}
		case 1:
			y, j = []interface{}{nil, y}, []interface{}{nil, j}
		case 2:
			y, j = []interface{}{y, "z"}, []interface{}{j, "z"}
		case 3:
			y, j = map[interface{}]interface{}{"a": y}, map[string]interface{}{"a": j}
		default:
			y, j = map[string]interface{}{"a": y}, map[string]interface{}{"a": j}
		}
	}
	got, err := jlibschema.NewSchemaBuilder().FixYamlMaps(y)
	if bad {
		v.Reach("bad")
		v.Assert(err != nil, "a map with a key that is not a string is an error")
		return
	}
	v.Reach("ok")
	v.Assert(err == nil, "a value whose keys are strings is accepted")
	v.Assert(reflect.DeepEqual(got, j), "the normalised value is the same value with string-keyed maps")
}

// asYAML gives the value the map types a YAML reader may give it.
func asYAML(name string, x interface{}) interface{} {
	switch t := x.(type) {
	case []interface{}:
		l := []interface{}{}
		for i, e := range t {
			l = append(l, asYAML(fmt.Sprint(name, i), e))
		}
		return l
	case map[string]interface{}:
		if v.Choose(name+".map", 2) == 0 {
			m := map[string]interface{}{}
			for k, e := range t {
				m[k] = asYAML(name+"."+k, e)
			}
			return m
		}
		m := map[interface{}]interface{}{}
		for k, e := range t {
			m[k] = asYAML(name+"."+k, e)
		}
		return m
	}
	return x
}

func doc() interface{} {
	leaf := func(n string) interface{} {
		if v.Choose(n, 2) == 0 {
			return "bool"
		}
		return map[string]interface{}{"type": "string", "maxLength": v.Int(n + ".max")}
	}
	switch v.Choose("doc", 5) {
	case 0:
		return map[string]interface{}{"type": "object", "properties": map[string]interface{}{"a": leaf("a"), "b": leaf("b")}, "requires": []interface{}{"a"}}
	case 1:
		return map[string]interface{}{"params": []interface{}{leaf("a"), leaf("b")}, "returns": leaf("r")}
	case 2:
		return map[string]interface{}{"anyOf": []interface{}{leaf("a"), map[string]interface{}{"not": leaf("b")}}}
	case 3:
		return map[string]interface{}{"type": "list", "items": leaf("a"), "minItems": v.Int("min")}
	}
	return map[string]interface{}{"properties": map[string]interface{}{"a": map[string]interface{}{"properties": map[string]interface{}{"b": leaf("b")}}}}
}

// schema documents of depth up to 4 with every choice of map type for each map
//v:reach=built,error
func CheckBuild() {
	d := doc()
	y := asYAML("y", d)
	s, err := jlibschema.NewSchemaBuilder().BuildYamlInterface(y)
	t, jerr := jlibschema.NewSchemaBuilder().Build(d)
	v.Assert((err == nil) == (jerr == nil), "the YAML form builds exactly when the JSON form does")
	if err != nil || jerr != nil {
		v.Reach("error")
		return
	}
	v.Reach("built")
	v.Assert(s.Equal(t) && sx.Same(s, t), "the YAML form builds an equal schema")
}

// number, integer and string documents whose constraints are native integers or floats in YAML and JSON numbers in JSON
//v:reach=built
func CheckNumbers() {
	k := v.Pick("attr", "maximum", "maxLength")
	tp := "string"
	if k == "maximum" {
		tp = v.Pick("type", "number", "integer")
	}
	var n interface{} = v.Int("n")
	if v.Choose("float", 2) == 1 {
		if tp == "number" {
			n = v.Float("f")
		} else {
			fs := []float64{0, 3, -1, 2.5, 1e18, 1e19, -1e19, 1e21, 1e300, 1e-7}
			n = fs[v.Choose("f", len(fs))]
		}
	}
	y := map[interface{}]interface{}{"type": tp, k: n}
	s, err := jlibschema.NewSchemaBuilder().BuildYamlInterface(y)
	t, jerr := jlibschema.NewSchemaBuilder().BuildBytes(hx.Enc(map[string]interface{}{"type": tp, k: n}))
	v.Assert((err == nil) == (jerr == nil), "the YAML form builds exactly when the JSON form does")
	if err == nil && jerr == nil {
		v.Reach("built")
		v.Assert(s.Equal(t), "the YAML form builds an equal schema")
	}
}

// schema documents as YAML text (block and flow style, quoted and plain, comments, anchors) with one arbitrary digit and letter, against their JSON text; texts that are no YAML, no map or have keys that are not strings are errors
//v:reach=built,error
func CheckText() {
	d := v.ASCII("digit", 1)
	v.Assume(len(d) == 1 && d[0] >= '0' && d[0] <= '9')
	l := v.ASCII("letter", 1)
	v.Assume(len(l) == 1 && l[0] >= 'a' && l[0] <= 'z' && l[0] != 'y' && l[0] != 'n')
	docs := [][2]string{
		{"type: integer\nminimum: " + d, `{"type":"integer","minimum":` + d + `}`},
		{"type: number\nmaximum: 2.5\nexclusiveMaximum: true # no more\n", `{"type":"number","maximum":2.5,"exclusiveMaximum":true}`},
		{"{type: list, items: {type: string, maxLength: " + d + "}, minItems: 0}", `{"type":"list","items":{"type":"string","maxLength":` + d + `},"minItems":0}`},
		{"type: object\nname: " + l + "\nproperties:\n  " + l + ": string\n  'kk': {anyOf: [number, \"null\"]}\nrequires: [" + l + "]\n", `{"type":"object","name":"` + l + `","properties":{"` + l + `":"string","kk":{"anyOf":["number","null"]}},"requires":["` + l + `"]}`},
		{"params:\n- &a {type: integer}\n- *a\nreturns: bool\ndescription: |\n  " + l + "\n", `{"params":[{"type":"integer"},{"type":"integer"}],"returns":"bool","description":"` + l + `\n"}`},
		{"type: list\nitems:\n  - string\n  - type: not\n    not: {type: any}\nadditionalItems: {type: number}", `{"type":"list","items":["string",{"type":"not","not":{"type":"any"}}],"additionalItems":{"type":"number"}}`},
		{"type: " + l, `{"type":"` + l + `"}`},
		{"type: object\nproperties:\n  " + d + ": string\n", ""},
		{"type: object\nproperties: {a: {true: 1}}\n", ""},
		{"- type: string\n", ""},
		{"type: [string\n", ""},
		{"", `{}`},
		{"null: string\ntype: any\n", ""},
	}
	doc := docs[v.Choose("doc", len(docs))]
	s, err := jlibschema.NewSchemaBuilder().BuildYamlBytes([]byte(doc[0]))
	if doc[1] == "" {
		v.Assert(err != nil && s == nil, "what is no schema document in YAML is an error")
		v.Assert(err == nil || len(err.Error()) > 0, "the error says something")
		v.Reach("error")
		return
	}
	w, werr := jlibschema.NewSchemaBuilder().BuildBytes([]byte(doc[1]))
	v.Assert((err == nil) == (werr == nil), "YAML text builds exactly when its JSON form does")
	if err != nil || werr != nil {
		v.Reach("error")
		return
	}
	v.Assert(w.Equal(s) && s.Equal(w), "YAML text builds the same schema as its JSON form")
	v.Assert(reflect.DeepEqual(s.Map(), w.Map()), "both serialise to the same form")
	v.Reach("built")
}
