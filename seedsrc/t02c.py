ID="t02-shared-buffer"; PROP="T02"; PKG="http"
EDITS=[('http/h1_client.go','	connectOnce sync.Once\n','	connectOnce sync.Once\n	sendBuf     bytes.Buffer\n'),('http/h1_client.go','''	reader := bytes.NewReader(marshaled)

	ctx, cancel := context.WithCancel(rootCtx)
	defer cancel()

	req, err := http.NewRequestWithContext(ctx, "POST", self.serverUrl.String(), reader)
	if err != nil {
		return nil, errors''','''	self.sendBuf.Reset()
	self.sendBuf.Write(marshaled)
	reader := bytes.NewReader(self.sendBuf.Bytes())

	ctx, cancel := context.WithCancel(rootCtx)
	defer cancel()

	req, err := http.NewRequestWithContext(ctx, "POST", self.serverUrl.String(), reader)
	if err != nil {
		return nil, errors''')]
NEEDS="two calls of one client at the same time"
BREAKS="the message of one call is sent for the other"
TEST='''package jlibhttp
import ("testing";"context";"net/http/httptest";"net/url";"sync";"github.com/superisaac/jlib")
func TestDemo(t *testing.T) {
	a := NewActor()
	a.On("echo", func(params []interface{}) (interface{}, error) { return params[0], nil })
	s := httptest.NewServer(NewH1Handler(a))
	defer s.Close()
	u, _ := url.Parse(s.URL)
	c := NewH1Client(u)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 50; k++ {
				m := jlib.NewRequestMessage(i, "echo", []interface{}{i})
				res, err := c.Call(context.Background(), m)
				if err != nil { t.Error(err); return }
				if res.MustId() != i { t.Error("not mine", res.MustId(), i); return }
			}
		}()
	}
	wg.Wait()
}
'''
