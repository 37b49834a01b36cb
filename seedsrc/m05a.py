ID="m05-multiline"; PROP="M05"; PKG=""
EDITS=[("validators.go","(`^[0-9a-zA-Z][0-9a-zA-Z\\-\\_\\:\\+\\.\\/\\\\\\&\\#]*$`, name)","(`(?m)^[0-9a-zA-Z][0-9a-zA-Z\\-\\_\\:\\+\\.\\/\\\\\\&\\#]*$`, name)")]
NEEDS="a name with a newline after a good beginning"
BREAKS="the name is accepted as a public method name"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	if IsPublicMethod("abc\\n;rm") || IsPublicMethod("abc\\n") { t.Fatal("accepted") }
	if !IsPublicMethod("abc") { t.Fatal("refused") }
}
'''
