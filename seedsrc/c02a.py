ID="c02-count-kept"; PROP="C02"; PKG="cli/watch"
EDITS=[("cli/watch/main.go","""	// reset connectretry after connected
	self.connectretry = 0

	if self.method != "" {
""","""	if self.method != "" {
		// reset connectretry after connected
		self.connectretry = 0
""")]
NEEDS="watching without a method while the server comes and goes more often than the retry limit"
BREAKS="it gives up although no two attempts in a row failed"
TEST='''package main
import ("testing";"os";"net/http";"net/http/httptest";"strings";"github.com/gorilla/websocket")
func TestDemo(t *testing.T) {
	n := 0
	var s *httptest.Server
	s = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		up := websocket.Upgrader{}
		c, err := up.Upgrade(w, r, nil)
		if err != nil { return }
		n++
		if n == 3 { s.Listener.Close() }
		c.Close()
	}))
	os.Args = []string{"watch", "-c", "ws" + strings.TrimPrefix(s.URL, "http"), "-retry", "2"}
	main()
	if n != 3 { t.Fatal("connections", n) }
}
'''
