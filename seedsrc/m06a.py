ID="m06-guess-int-base"; PROP="M06"; PKG=""
EDITS=[("utils.go","iv, err := strconv.ParseInt(input, 10, 64)","iv, err := strconv.ParseInt(input, 0, 64)")]
NEEDS="an argument such as 010 or 0x1f or 1_000"
BREAKS="text that is a decimal number with leading zeros is read as octal; hexadecimal text becomes a number"
TEST='''package jlib
import ("testing";"fmt")
func TestDemo(t *testing.T) {
	v, err := GuessJson("010")
	if err != nil || fmt.Sprint(v) != "10" { t.Fatalf("%v %v", v, err) }
}
'''
