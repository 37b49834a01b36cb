ID="s04-tuple-limits"; PROP="S04"; PKG="schema"
EDITS=[("schema/builder.go","""		newPaths := append(paths, ".additionalParams")
		addSchema, err := self.buildNode(additional, newPaths...)
		if err != nil {
			return nil, err
		}
		schema.AdditionalSchema = addSchema
""","""		newPaths := append(paths, ".additionalParams")
		addSchema, err := self.buildNode(additional, newPaths...)
		if err != nil {
			return nil, err
		}
		if len(schema.Params) > 0 {
			schema.AdditionalSchema = addSchema
		}
""")]
NEEDS="a method schema document with an empty params list and additionalParams"
BREAKS="the additional params schema is dropped when there are no positional params"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"params":[],"additionalParams":"bool"}`))
	if err != nil { t.Fatal(err) }
	if NewSchemaValidator().Validate(s, map[string]interface{}{"params": []interface{}{true}}) != nil { t.Fatal("rejected") }
}
'''
