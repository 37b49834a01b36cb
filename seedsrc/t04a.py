ID="t04-header-split"; PROP="T04"; PKG="http"
EDITS=[("http/client_util.go","""		arr := strings.SplitN(hr, "=", 2)
""","""		arr := strings.Split(hr, "=")
""")]
NEEDS="a header flag whose value contains ="
BREAKS="a flag of the form name=value is rejected"
TEST='''package jlibhttp
import "testing"
func TestDemo(t *testing.T) {
	f := HeaderFlags{"X-Token=YWI=="}
	h, err := f.Parse()
	if err != nil || h.Get("X-Token") != "YWI==" { t.Fatal(h, err) }
}
'''
