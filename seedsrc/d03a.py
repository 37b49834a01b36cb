ID="d03-notify-unvalidated"; PROP="D03"; PKG="http"
EDITS=[("http/request.go","""		if handler.schema != nil && self.ValidateSchema {
""","""		if handler.schema != nil && self.ValidateSchema && (msg.IsRequest() || len(params) > 0) {
""")]
NEEDS="a notify with no parameters to a method whose schema requires some"
BREAKS="the handler runs with parameters its schema rejects"
TEST='''package jlibhttp
import ("testing";"context";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	ran := false
	a.On("m", func(p []interface{}) (interface{}, error) { ran = true; return 1, nil },
		WithSchemaJson(`{"type":"method","params":[{"type":"string"}]}`))
	a.Feed(NewRPCRequest(context.Background(), jlib.NewNotifyMessage("m", []interface{}{}), TransportHTTP, nil))
	if ran { t.Fatal("handler ran with rejected parameters") }
}
'''
