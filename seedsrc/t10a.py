ID="t10-shared-transport"; PROP="T10"; PKG="http"
EDITS=[("http/h1_client.go","""func NewH1Client(""","""var sharedTransport *http.Transport
var sharedLock sync.Mutex

func NewH1Client("""),
("http/h1_client.go","""		tr := &http.Transport{
			MaxIdleConns:        30,
			MaxIdleConnsPerHost: 10,
			IdleConnTimeout:     30 * time.Second,
		}
		if self.clientTLS != nil {
			tr.TLSClientConfig = self.clientTLS
		}
""","""		// clients share idle connections
		sharedLock.Lock()
		defer sharedLock.Unlock()
		tr := sharedTransport
		if tr == nil || self.clientTLS != nil && tr.TLSClientConfig != self.clientTLS {
			tr = &http.Transport{
				MaxIdleConns:        30,
				MaxIdleConnsPerHost: 10,
				IdleConnTimeout:     30 * time.Second,
			}
			if self.clientTLS != nil {
				tr.TLSClientConfig = self.clientTLS
			}
			sharedTransport = tr
		}
""")]
NEEDS="a client without TLS settings used after a client with TLS settings in the same process"
BREAKS="the second client trusts the server on the first one's settings"
TEST='''package jlibhttp
import ("testing";"context";"crypto/tls";"crypto/x509";"net/http";"net/http/httptest";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	s := httptest.NewTLSServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte(`{"id":1,"result":1}`)) }))
	pool := x509.NewCertPool()
	pool.AddCert(s.Certificate())
	a, _ := NewClient(s.URL)
	a.SetClientTLSConfig(&tls.Config{RootCAs: pool})
	if _, err := a.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err != nil { t.Fatal(err) }
	b, _ := NewClient(s.URL)
	if _, err := b.Call(context.Background(), jlib.NewRequestMessage(1, "m", nil)); err == nil { t.Fatal("the server is trusted") }
}
'''
