ID="m03-id-fallback"; PROP="M02"; PKG=""
EDITS=[("parse.go","""	var sid string
	if err := json.Unmarshal(*un.Id, &sid); err != nil {
		return nil, err
	}
""","""	var sid string
	if err := json.Unmarshal(*un.Id, &sid); err != nil {
		if un.Method == "" {
			return nil, err
		}
		return nil, nil
	}
""")]
NEEDS="a request whose id is neither an integer nor a string (1.5, true, a list)"
BREAKS="a request with an invalid id is accepted as a notify instead of being rejected"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	m, err := ParseBytes([]byte(`{"id":[1],"method":"m","params":[]}`))
	if err == nil { t.Fatalf("accepted as %#v", m) }
}
'''
