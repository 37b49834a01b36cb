ID="m08-load-base"; PROP="M08"; PKG=""
EDITS=[("utils.go","""	self.Value().SetString(repr, 10)
""","""	self.Value().SetString(strings.TrimPrefix(repr, "+"), 0)
""")]
NEEDS="Load of a decimal text with leading zeros"
BREAKS="the text is read as an octal number"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	var b Bigint
	b.Load("0123")
	if b.String() != "123" { t.Fatal(b.String()) }
}
'''
