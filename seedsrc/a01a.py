ID="a01-first-user"; PROP="A01"; PKG="http"
EDITS=[("http/auth_handler.go","""				if basicCfg.Username == username && basicCfg.Password == password {
					return &AuthInfo{
						Username: username,
						Settings: basicCfg.Settings}, true
				}
""","""				if basicCfg.Username == username {
					return &AuthInfo{
						Username: username,
						Settings: basicCfg.Settings}, basicCfg.Password == password
				}
""")]
NEEDS="two Basic entries of one user, the second one's password sent"
BREAKS="a configured pair is refused"
TEST='''package jlibhttp
import ("testing";"net/http")
func TestDemo(t *testing.T) {
	h := NewAuthHandler(&AuthConfig{Basic: []BasicAuthConfig{{Username: "u", Password: "a"}, {Username: "u", Password: "b"}}}, nil)
	r, _ := http.NewRequest("POST", "http://x", nil)
	r.SetBasicAuth("u", "b")
	if _, ok := h.TryAuth(r); !ok { t.Fatal("refused") }
}
'''
