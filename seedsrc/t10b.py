ID="t10-header-alias"; PROP="T10"; PKG="http"
EDITS=[("http/h2_client.go","""	req := &http.Request{
		Method: "PRI",
		URL:    serverUrl,
		Header: header,
		Body:   pipeReader,
	}
""","""	if header == nil {
		header = http.Header{}
	}
	// name each value once, servers may refuse repeated ones
	for name, values := range header {
		if len(values) > 1 && values[0] != values[len(values)-1] {
			header[name] = values[len(values)-1:]
		}
	}
	req := &http.Request{
		Method: "PRI",
		URL:    serverUrl,
		Header: header,
		Body:   pipeReader,
	}
""")]
NEEDS="an extra header with two different values on an HTTP/2 client"
BREAKS="only the last value accompanies the connection and the caller's header loses the others"
TEST='''package jlibhttp
import ("testing";"context";"net/http";"net/http/httptest";"net/url";"strings";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.OnRequest("m", func(req *RPCRequest, params []interface{}) (interface{}, error) { return strings.Join(req.HttpRequest().Header["X-A"], ","), nil })
	s := httptest.NewServer(NewH2Handler(context.Background(), a).H2CHandler())
	u, _ := url.Parse("h2c" + strings.TrimPrefix(s.URL, "http"))
	c := NewH2Client(u)
	h := http.Header{"X-A": {"1", "2"}}
	c.SetExtraHeader(h)
	res, err := c.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil))
	if err != nil { t.Fatal(err) }
	if res.MustResult() != "1,2" || len(h["X-A"]) != 2 { t.Fatal(res.MustResult(), h) }
}
'''
