ID='t02-answer-limit'; PROP='T02'; PKG='http'
EDITS=[('http/h1_client.go','ioutil.ReadAll(resp.Body)','ioutil.ReadAll(io.LimitReader(resp.Body, 1<<16))'),('http/h1_client.go','	"io/ioutil"','	"io"\n	"io/ioutil"')]
NEEDS='an HTTP/1 answer longer than 64 KiB'
BREAKS='the call fails although the server answered it'
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"net/url";"strings";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("echo", func(params []interface{}) (interface{}, error) { return params[0], nil })
	ctx := context.Background()
	s := httptest.NewServer(NewH1Handler(a))
	u, _ := url.Parse(s.URL)
	c := NewH1Client(u)
	for _, n := range []int{10, 60000, 100000} {
		var got string
		if err := c.UnwrapCall(ctx, jlib.NewRequestMessage(1, "echo", []interface{}{strings.Repeat("a", n)}), &got); err != nil || len(got) != n {
			t.Fatal(n, len(got), err)
		}
	}
}
'''
