ID="m01-data-number"; PROP="M01"; PKG=""
EDITS=[("parse.go","""		errdec := json.NewDecoder(bytes.NewReader(*un.Error))
		errdec.UseNumber()
""","""		errdec := json.NewDecoder(bytes.NewReader(*un.Error))
""")]
NEEDS="an error message whose data holds an integer beyond 2^53"
BREAKS="numbers in error data are rounded when decoded"
TEST='''package jlib
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	d, err := ParseBytes([]byte(`{"jsonrpc":"2.0","id":1,"error":{"code":3,"message":"m","data":[9007199254740993]}}`))
	if err != nil { t.Fatal(err) }
	b, err := MessageBytes(d)
	if err != nil { t.Fatal(err) }
	l := d.MustError().Data.([]interface{})
	if fmt.Sprint(l[0]) != "9007199254740993" { t.Fatalf("%v %s", l, b) }
}
'''
