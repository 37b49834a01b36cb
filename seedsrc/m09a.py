ID="m09-key-text"; PROP="M09"; PKG=""
EDITS=[("messageimpl.go","""	paramBytes, err := json.Marshal(self.Params)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%s%s%s", prefix, self.Method, string(paramBytes))
""","""	params := self.Params
	if len(params) == 1 {
		// the usual case of one object
		if m, ok := params[0].(map[string]interface{}); ok && len(m) > 0 {
			paramBytes, err := json.Marshal(m)
			if err != nil {
				panic(err)
			}
			return fmt.Sprintf("%s%s%s", prefix, self.Method, string(paramBytes))
		}
		if l, ok := params[0].([]interface{}); ok && len(l) > 0 {
			params = l
		}
	}
	paramBytes, err := json.Marshal(params)
	if err != nil {
		panic(err)
	}
	return fmt.Sprintf("%s%s%s", prefix, self.Method, string(paramBytes))
""")]
NEEDS="a call with one list param and a call with the elements of that list as params"
BREAKS="both calls have the same cache key"
TEST='''package jlib
import "testing"
func TestDemo(t *testing.T) {
	a := NewRequestMessage(1, "m", []interface{}{[]interface{}{1, 2}})
	b := NewRequestMessage(2, "m", []interface{}{1, 2})
	if a.CacheKey("x") == b.CacheKey("x") { t.Fatal("same key") }
}
'''
