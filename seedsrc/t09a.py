ID="t09-tls-last"; PROP="T09"; PKG="http"
EDITS=[("http/server_utils.go","""			tlsConfig = cfg
			break
""","""			tlsConfig = cfg
""")]
NEEDS="two TLS configurations that are not nil"
BREAKS="the second one is used instead of the first"
TEST='''package jlibhttp
import ("testing";"context";"net/http")
func TestDemo(t *testing.T) {
	err := ListenAndServe(context.Background(), "127.0.0.1:0", http.NotFoundHandler(), &TLSConfig{Certfile: "/nonexistent-a", Keyfile: "/nonexistent-a"}, &TLSConfig{Certfile: "/nonexistent-b", Keyfile: "/nonexistent-b"})
	if err == nil || err.Error() != "open /nonexistent-a: no such file or directory" { t.Fatal(err) }
}
'''
