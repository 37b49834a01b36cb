ID="m01-result-null-trace"; PROP="M01"; PKG=""
EDITS=[("parse.go","""		// result is null
		resmsg := rawResultMessage(id, nil)
		resmsg.SetTraceId(un.TraceId)
""","""		// result is null
		resmsg := rawResultMessage(id, nil)
""")]
NEEDS="a result message whose result is null and whose trace id is not empty"
BREAKS="decoding an encoded null result drops the trace id"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	m := NewResultMessage(NewRequestMessage(7, "a", nil), nil)
	m.SetTraceId("tr")
	b, err := MessageBytes(m)
	if err != nil { t.Fatal(err) }
	d, err := ParseBytes(b)
	if err != nil { t.Fatal(err) }
	if d.TraceId() != "tr" { t.Fatalf("trace id %q after %s", d.TraceId(), b) }
}
'''
