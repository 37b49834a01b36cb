ID="s03-required-path"; PROP="S03"; PKG="schema"
EDITS=[("schema/schema.go","""				errPos := validator.NewErrorPos("required prop is not present")
				validator.popPath("." + prop)
				return errPos
""","""				defer validator.popPath("." + prop)
				return &ErrorPos{paths: validator.paths, hint: "required prop is not present"}
""")]
NEEDS="two validations on one validator: the first fails on a missing property, the error is read after the second pushed other locations"
BREAKS="an error's path changes when the validator is used again"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	b := NewSchemaBuilder()
	s, err := b.BuildBytes([]byte(`{"type":"object","properties":{"a":{"type":"object","properties":{"b":"string"},"requires":["b"]}}}`))
	if err != nil { t.Fatal(err) }
	v := NewSchemaValidator()
	e := v.Validate(s, map[string]interface{}{"a": map[string]interface{}{}})
	p := e.Path()
	v.Validate(s, map[string]interface{}{"a": 3})
	l, _ := b.BuildBytes([]byte(`{"type":"list","items":{"type":"list","items":"bool"}}`))
	v.Validate(l, []interface{}{[]interface{}{true, 1}})
	if e.Path() != p || p != ".a.b" { t.Fatalf("%q became %q", p, e.Path()) }
}
'''
