ID="m02-id-params"; PROP="M02"; PKG=""
EDITS=[("parse.go","""	} else if un.Id != nil {
		// parse id""","""	} else if un.Id != nil && un.Params == nil {
		// parse id""")]
NEEDS="a document with an id and params but no method, result or error"
BREAKS="the document is rejected instead of being a null result"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	m, err := ParseBytes([]byte(`{"id":1,"params":[]}`))
	if err != nil { t.Fatal(err) }
	if !m.IsResult() || m.MustResult() != nil { t.Fatal(m) }
}
'''
