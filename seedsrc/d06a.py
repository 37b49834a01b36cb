ID="d06-close-children"; PROP="D06"; PKG="http"
EDITS=[("http/request.go","""	for _, child := range self.children {
		child.HandleClose(r, session)
	}

	if self.closeHandler != nil {
		self.closeHandler(r, session)
	}
""","""	if self.closeHandler != nil {
		self.closeHandler(r, session)
	}

	for i, child := range self.children {
		if i > 0 && child.closeHandler == nil {
			// nothing to do here
			continue
		}
		child.HandleClose(r, session)
	}
""")]
NEEDS="a second child without its own close handler that has a child with one"
BREAKS="the grandchild's close callback is skipped"
TEST='''package jlibhttp
import ("testing";"net/http")
func TestDemo(t *testing.T) {
	a, b, c, d := NewActor(), NewActor(), NewActor(), NewActor()
	a.AddChild(b); a.AddChild(c); c.AddChild(d)
	n := 0
	d.OnClose(func(r *http.Request, s RPCSession) { n++ })
	a.HandleClose(nil, nil)
	if n != 1 { t.Fatal("close callbacks run", n) }
}
'''
