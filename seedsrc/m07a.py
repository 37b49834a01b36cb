ID="m07-null-param"; PROP="M07"; PKG=""
EDITS=[("utils.go","""		param := params[idx]
		idx++
""","""		param := params[idx]
		if param == nil && field.Type.Kind() != reflect.Interface {
			continue
		}
		idx++
""")]
NEEDS="a null parameter for a field that is not an interface, followed by more parameters"
BREAKS="the parameters after a null are lost"
TEST='''package jlib
import "testing"
type demoDst struct { A *int; C string }
func TestDemo(t *testing.T) {
	var d demoDst
	if err := DecodeParams([]interface{}{nil, "x"}, &d); err != nil { t.Fatal(err) }
	if d.A != nil || d.C != "x" { t.Fatalf("%+v", d) }
}
'''
