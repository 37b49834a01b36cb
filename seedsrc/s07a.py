ID="s07-list-alias"; PROP="S07"; PKG="schema"
EDITS=[("schema/builder.go","""			newElem, err := self.FixYamlMaps(elem, newPaths...)
			if err != nil {
				return nil, err
			}
			list1 = append(list1, newElem)
""","""			newElem, err := self.FixYamlMaps(elem, newPaths...)
			if err != nil {
				if _, nested := elem.([]interface{}); !nested {
					return nil, err
				}
				newElem = elem
			}
			list1 = append(list1, newElem)
""")]
NEEDS="a map with a non-string key inside a list inside a list"
BREAKS="the non-string key is not rejected"
TEST='''package jlibschema
import "testing"
func TestDemo(t *testing.T) {
	_, err := NewSchemaBuilder().FixYamlMaps([]interface{}{[]interface{}{map[interface{}]interface{}{1: 2}}})
	if err == nil { t.Fatal("accepted") }
}
'''
