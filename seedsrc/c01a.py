ID="c01-env-first"; PROP="C01"; PKG="cli/call"
EDITS=[("cli/call/main.go","""	serverUrl := *pServerUrl
	if serverUrl == "" {
		serverUrl = os.Getenv("JSONRPC_CONNECT")
	}
""","""	serverUrl := os.Getenv("JSONRPC_CONNECT")
	if serverUrl == "" {
		serverUrl = *pServerUrl
	}
""")]
NEEDS="the server named by the environment and another one by the flag"
BREAKS="the call goes to the wrong server"
TEST='''package main
import ("testing";"net/http";"net/http/httptest";"os")
func TestDemo(t *testing.T) {
	n := 0
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { n++; w.Write([]byte(`{"id":1,"result":1}`)) }))
	o := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(`{"id":1,"result":1}`)) }))
	os.Setenv("JSONRPC_CONNECT", o.URL)
	os.Args = []string{"call", "-c", s.URL, "m"}
	main()
	if n != 1 { t.Fatal("the flag's server was not called") }
}
'''
