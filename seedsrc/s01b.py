ID="s01-single-precision"; PROP="S01"; PKG="schema"
EDITS=[("schema/schema.go","""	if n, ok := data.(float64); ok {
		return self.checkRange(validator, n)""","""	if n, ok := data.(float64); ok {
		return self.checkRange(validator, float64(float32(n)))""")]
NEEDS="a value that differs from a bound by less than single precision tells"
BREAKS="a number beyond the maximum is accepted"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	max := 1.0
	s := &NumberSchema{}
	s.Maximum = &max
	if NewSchemaValidator().Validate(s, 1.00000000001) == nil { t.Fatal("accepted") }
	if NewSchemaValidator().Validate(s, 1.0) != nil { t.Fatal("refused") }
}
'''
