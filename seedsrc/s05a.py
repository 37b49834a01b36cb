ID="s05-requires-order"; PROP="S05"; PKG="schema"
EDITS=[("schema/schema.go","""	for name, _ := range self.Requires {
		arr = append(arr, name)
	}
""","""	for name, _ := range self.Requires {
		if p, ok := self.Properties[name]; ok && p.GetName() == "" || p.GetName() == name {
			arr = append(arr, name)
		}
	}
""")]
NEEDS="a required property whose schema carries a name different from the property's"
BREAKS="the serialised schema no longer requires that property"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	b := NewSchemaBuilder()
	s, err := b.BuildBytes([]byte(`{"type":"object","properties":{"a":{"type":"string","name":"label"}},"requires":["a"]}`))
	if err != nil { t.Fatal(err) }
	r, err := b.BuildBytes([]byte(SchemaToString(s)))
	if err != nil || !s.Equal(r) { t.Fatalf("%v %s", err, SchemaToString(r)) }
}
'''
