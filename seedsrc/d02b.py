ID="d02-list-cache"; PROP="D02"; PKG="http"
EDITS=[("http/request.go","""	methods := []string{}
	for mname, _ := range self.methodHandlers {
		methods = append(methods, mname)
	}""","""	methods := []string{}
	if len(*self.listed) != len(self.methodHandlers) {
		*self.listed = nil
		for mname, _ := range self.methodHandlers {
			*self.listed = append(*self.listed, mname)
		}
	}
	methods = append(methods, *self.listed...)"""),
("http/request.go","""	children         []*Actor
}""","""	children         []*Actor
	listed           *[]string
}"""),("http/request.go","		children:       make([]*Actor, 0),","		children:       make([]*Actor, 0),\n		listed:         new([]string),")]
NEEDS="the method list asked for, one method removed and another added, and the list asked for again"
BREAKS="the list still names the removed method and not the added one"
TEST='''package jlibhttp
import "testing"
func TestDemo(t *testing.T) {
	a := NewActor()
	h := func(params []interface{}) (interface{}, error) { return nil, nil }
	a.On("a", h)
	a.MethodList()
	a.Off("a")
	a.On("b", h)
	if l := a.MethodList(); len(l) != 1 || l[0] != "b" { t.Fatal(l) }
}
'''
