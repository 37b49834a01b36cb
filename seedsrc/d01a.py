ID="d01-notify-reply"; PROP="D01"; PKG="http"
EDITS=[("http/request.go","""	if !msg.IsRequest() {
		if err != nil {
			msg.Log().Errorf("wrapResult(), error handleing res, %#v", err)
		}
		return nil, err
	}
""","""	if !msg.IsRequest() {
		if err != nil {
			msg.Log().Errorf("wrapResult(), error handleing res, %#v", err)
		}
		reply, _ := res.(jlib.Message)
		return reply, err
	}
""")]
NEEDS="a notify whose handler returns a message"
BREAKS="a notify is answered"
TEST='''package jlibhttp
import ("testing";"context";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("m", func(p []interface{}) (interface{}, error) { return jlib.NewNotifyMessage("x", []interface{}{}), nil })
	res, err := a.Feed(NewRPCRequest(context.Background(), jlib.NewNotifyMessage("m", []interface{}{1}), TransportHTTP, nil))
	if err != nil || res != nil { t.Fatal(res, err) }
}
'''
