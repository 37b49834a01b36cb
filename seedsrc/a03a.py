ID="a03-basic-both"; PROP="A03"; PKG="http"
EDITS=[("http/auth_handler.go","""			if basicCfg.Username == "" || basicCfg.Password == "" {
""","""			if basicCfg.Username+basicCfg.Password == "" {
""")]
NEEDS="a Basic entry with exactly one empty field"
BREAKS="an unusable entry is accepted"
TEST='''package jlibhttp
import "testing"
func TestDemo(t *testing.T) {
	c := &AuthConfig{Basic: []BasicAuthConfig{{Username: "u"}}}
	if c.ValidateValues() == nil { t.Fatal("accepted") }
}
'''
