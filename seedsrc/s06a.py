ID="s06-requires-len"; PROP="S06"; PKG="schema"
EDITS=[("schema/schema.go","""func SchemaMapValueEqual[T comparable](m1 map[string]T, m2 map[string]T) bool {
	if m1 != nil && m2 != nil {
		if len(m1) != len(m2) {
			return false
		}
""","""func SchemaMapValueEqual[T comparable](m1 map[string]T, m2 map[string]T) bool {
	if m1 != nil && m2 != nil {
		if len(m1) > len(m2) {
			return false
		}
""")]
NEEDS="two object schemas that differ only in that the second requires more properties"
BREAKS="equality is not symmetric and misses a required property"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	b := NewSchemaBuilder()
	s, _ := b.BuildBytes([]byte(`{"type":"object","properties":{"a":"string"}}`))
	r, _ := b.BuildBytes([]byte(`{"type":"object","properties":{"a":"string"},"requires":["a"]}`))
	if s.Equal(r) || r.Equal(s) { t.Fatal("equal") }
}
'''
