ID="d02-has-depth"; PROP="D02"; PKG="http"
EDITS=[("http/request.go","""	for _, child := range self.children {
		if child.Has(method) {
			return true
		}
	}
	return false
""","""	for _, child := range self.children {
		if _, exist := child.getHandler(method); exist {
			return true
		}
	}
	return false
""")]
NEEDS="a method registered two levels below the actor asked"
BREAKS="methods of grandchildren are listed but not found or dispatched"
TEST='''package jlibhttp
import "testing"
func TestDemo(t *testing.T) {
	a, b, c := NewActor(), NewActor(), NewActor()
	a.AddChild(b); b.AddChild(c)
	c.On("m", func(p []interface{}) (interface{}, error) { return 1, nil })
	if !a.Has("m") { t.Fatal("grandchild method not found") }
}
'''
