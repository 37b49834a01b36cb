ID="s02-tuple-additional-offset"; PROP="S02"; PKG="schema"
EDITS=[("schema/schema.go","""		for i, item := range items[len(self.Children):] {
			pos := fmt.Sprintf("[%d]", i+len(self.Children))
			if errPos""","""		for i, item := range items {
			if i <= len(self.Children) && len(self.Children) > 0 {
				continue
			}
			pos := fmt.Sprintf("[%d]", i)
			if errPos""")]
NEEDS="a tuple with an additional schema and a value whose first extra item is not accepted by it"
BREAKS="the first additional item of a tuple is not validated"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	s, err := NewSchemaBuilder().BuildBytes([]byte(`{"type":"list","items":["string"],"additionalItems":"bool"}`))
	if err != nil { t.Fatal(err) }
	if NewSchemaValidator().Validate(s, []interface{}{"a", 3, true}) == nil { t.Fatal("accepted") }
}
'''
