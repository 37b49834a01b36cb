ID="t02-send-accepted"; PROP="T02"; PKG="http"
EDITS=[("http/h1_client.go","""	if resp.StatusCode != 200 {
		abnResp := &WrappedResponse{
			Response: resp,
		}
""","""	if resp.StatusCode < 200 || resp.StatusCode > 206 {
		abnResp := &WrappedResponse{
			Response: resp,
		}
""")]
NEEDS="a one-way message answered with status 201 to 206"
BREAKS="a status other than 200 is reported as success"
TEST='''package jlibhttp
import ("testing";"context";"net/http";"net/http/httptest";"net/url";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(203) }))
	defer s.Close()
	u, _ := url.Parse(s.URL)
	if err := NewH1Client(u).Send(context.Background(), jlib.NewNotifyMessage("m", []interface{}{})); err == nil { t.Fatal("no error") }
}
'''
