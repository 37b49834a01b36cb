// Package d05: typed handlers receive exactly the given arguments.
package d05

import (
	"context"
	"encoding/json"
	"math/big"
	"reflect"
	"strconv"
	"sync"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"verif/harness/hd"
	"verif/harness/hx"
	_ "verif/harness/model"
	"verif/harness/v"
)

var _ = v.Reg("d05.CheckScalar", CheckScalar)
var _ = v.Reg("d05.CheckComposite", CheckComposite)
var _ = v.Reg("d05.CheckNarrow", CheckNarrow)
var _ = v.Reg("d05.CheckCount", CheckCount)
var _ = v.Reg("d05.CheckFirst", CheckFirst)
var _ = v.Reg("d05.CheckResult", CheckResult)
var _ = v.Reg("d05.CheckRegister", CheckRegister)
var _ = v.Reg("d05.CheckTogether", CheckTogether)

type inner struct {
	A    int
	B    string `json:"b"`
	priv int
}

// call feeds a request for m with the params to a typed handler and says
// whether it was answered with a result; anything else must be the invalid
// params error.
func call(a *jlibhttp.Actor, params ...interface{}) (interface{}, bool) {
	var res jlib.Message
	var err error
	p := hx.Panics(func() { res, err = hd.Feed(a, jlib.NewRequestMessage(1, "m", params)) })
	v.Assert(p == nil, "no parameter crashes the server")
	if p != nil {
		return nil, false
	}
	v.Assert(err == nil && res != nil, "the call is answered")
	if err != nil || res == nil {
		return nil, false
	}
	if res.IsError() {
		v.Assert(res.MustError().Code == -32602, "arguments that do not fit give the invalid params error")
		return nil, false
	}
	return res.MustResult(), true
}

func one() v.Shape {
	return v.Shape{Depth: v.N(1, 2), Width: v.N(1, 2), StrLen: 2, Keys: []string{"a", "b"}, Kinds: "nbifsao"}
}

type seen struct {
	runs int
	args []interface{}
}

func (s *seen) rec(args ...interface{}) (int, error) {
	s.runs++
	s.args = args
	return 7, nil
}

// judge checks a call of a one argument handler.
func judge(s *seen, x interface{}, t string, res interface{}, ok bool) {
	w, yes, no := hd.Want(x, t)
	if !ok {
		v.Reach("refused")
		v.Assert(s.runs == 0, "the handler does not run when it is refused")
		v.Assert(!yes, "a convertible argument is accepted")
		return
	}
	v.Reach("called")
	v.Assert(s.runs == 1, "the handler runs once")
	v.Assert(!no, "an argument that cannot be converted is refused")
	if no || s.runs != 1 {
		return
	}
	v.Assert(reflect.DeepEqual(s.args[0], w), "the handler receives exactly the value sent")
	v.Assert(res == 7, "the caller gets what the handler returned")
}

// one argument of any JSON kind (depth 1, 2 thorough) to a handler of an int, int64, float64, string, bool, interface or pointer
//v:reach=called,refused
func CheckScalar() {
	x := v.Value("x", one())
	a := jlibhttp.NewActor()
	s := &seen{}
	t := ""
	switch v.Choose("type", 7) {
	case 0:
		t = "int"
		a.OnTyped("m", func(x int) (int, error) { return s.rec(x) })
	case 1:
		t = "int"
		a.OnTyped("m", func(x int64) (int, error) { return s.rec(int(x)) })
	case 2:
		t = "float"
		a.OnTyped("m", func(x float64) (int, error) { return s.rec(x) })
	case 3:
		t = "string"
		a.OnTyped("m", func(x string) (int, error) { return s.rec(x) })
	case 4:
		t = "bool"
		a.OnTyped("m", func(x bool) (int, error) { return s.rec(x) })
	case 5:
		t = "any"
		a.OnTyped("m", func(x interface{}) (int, error) { return s.rec(x) })
	default:
		t = "int"
		a.OnTyped("m", func(x *int) (int, error) {
			if x == nil {
				return s.rec(0)
			}
			return s.rec(*x)
		})
	}
	res, ok := call(a, x)
	judge(s, x, t, res, ok)
}

// one argument of any JSON kind (depth 2) to a handler of a list, a list of integers, a map, a struct or a pointer to a struct
//v:reach=called,refused
func CheckComposite() {
	sh := one()
	sh.Depth = 2
	sh.Width = v.N(1, 2)
	x := v.Value("x", sh)
	a := jlibhttp.NewActor()
	s := &seen{}
	kind := v.Choose("type", 6)
	switch kind {
	case 0:
		a.OnTyped("m", func(x []interface{}) (int, error) { return s.rec(x) })
	case 1:
		a.OnTyped("m", func(x []int) (int, error) { return s.rec(x) })
	case 2:
		a.OnTyped("m", func(x map[string]interface{}) (int, error) { return s.rec(x) })
	case 3:
		a.OnTyped("m", func(x inner) (int, error) { return s.rec(x) })
	case 4:
		a.OnTyped("m", func(x *inner) (int, error) {
			if x == nil {
				return s.rec(inner{})
			}
			return s.rec(*x)
		})
	default:
		a.OnTyped("m", func(x []string) (int, error) { return s.rec(x) })
	}
	_, ok := call(a, x)
	if !ok {
		v.Assert(s.runs == 0, "the handler does not run when it is refused")
		v.Reach("refused")
	} else {
		v.Assert(s.runs == 1, "the handler runs once")
		v.Reach("called")
	}
	if x == nil {
		return // null may be refused or be the empty value
	}
	l, isList := x.([]interface{})
	m, isMap := x.(map[string]interface{})
	switch kind {
	case 0:
		v.Assert(ok == isList, "a list argument accepts exactly lists")
		if ok && isList {
			v.Assert(v.SameJSON(hx.Enc(s.args[0]), hx.Enc(l)), "the handler receives exactly the value sent")
		}
	case 1, 5:
		t := "int"
		if kind == 5 {
			t = "string"
		}
		yes, no := isList, !isList
		for i := range l {
			_, y, n := hd.Want(l[i], t)
			yes, no = yes && y, no || n
		}
		v.Assert(ok || !yes, "a convertible argument is accepted")
		v.Assert(!ok || !no, "an argument that cannot be converted is refused")
		if !ok || no {
			return
		}
		for i := range l {
			w, y, _ := hd.Want(l[i], t)
			if ints, is := s.args[0].([]int); is && y {
				v.Assert(len(ints) == len(l) && ints[i] == w, "the handler receives exactly the value sent")
			}
			if strs, is := s.args[0].([]string); is && y {
				v.Assert(len(strs) == len(l) && strs[i] == w, "the handler receives exactly the value sent")
			}
		}
	case 2:
		v.Assert(ok == isMap, "a map argument accepts exactly objects")
		if ok && isMap {
			v.Assert(v.SameJSON(hx.Enc(s.args[0]), hx.Enc(m)), "the handler receives exactly the value sent")
		}
	default:
		if !isMap {
			v.Assert(!ok, "a struct argument accepts only objects")
			return
		}
		wa, yesA, noA := hd.Want(m["a"], "int")
		wb, yesB, noB := hd.Want(m["b"], "string")
		v.Assert(ok || !yesA || !yesB, "a convertible argument is accepted")
		v.Assert(!ok || !noA && !noB, "an argument that cannot be converted is refused")
		if ok && !noA && !noB {
			got := s.args[0].(inner)
			v.Assert(got.A == wa && got.B == wb, "the handler receives exactly the value sent")
		}
	}
}

// any 64-bit integer, decoded from JSON or native, and ten floats to handlers of int8, int16, uint8, uint32 and uint64
//v:reach=called,refused
func CheckNarrow() {
	a := jlibhttp.NewActor()
	s := &seen{}
	var lo, hi int64
	switch v.Choose("type", 5) {
	case 0:
		lo, hi = -1<<7, 1<<7-1
		a.OnTyped("m", func(x int8) (int, error) { return s.rec(int64(x)) })
	case 1:
		lo, hi = -1<<15, 1<<15-1
		a.OnTyped("m", func(x int16) (int, error) { return s.rec(int64(x)) })
	case 2:
		lo, hi = 0, 1<<8-1
		a.OnTyped("m", func(x uint8) (int, error) { return s.rec(int64(x)) })
	case 3:
		lo, hi = 0, 1<<32-1
		a.OnTyped("m", func(x uint32) (int, error) { return s.rec(int64(x)) })
	default:
		lo, hi = 0, 1<<63-1
		a.OnTyped("m", func(x uint64) (int, error) { return s.rec(int64(x)) })
	}
	n := v.Int64("n")
	var x interface{} = int(n)
	fits := v.And(lo <= n, n <= hi)
	switch v.Choose("form", 3) {
	case 0:
		x = json.Number(strconv.FormatInt(n, 10))
	case 1:
		fs := []float64{0, 1, -1, 0.5, 127, 128, -129, 255.5, 1e10, 1e300}
		f := fs[v.Choose("f", len(fs))]
		x = f
		fits = f == float64(int64(f)) && float64(lo) <= f && f <= float64(hi) && f < 1<<63
		n = int64(f)
	}
	_, ok := call(a, x)
	v.Assert(ok == fits, "an argument is accepted exactly when the type can hold it")
	if ok && s.runs == 1 {
		v.Reach("called")
		v.Assert(s.args[0] == n, "the handler receives exactly the value sent")
	} else {
		v.Reach("refused")
		v.Assert(s.runs == 0, "the handler does not run when it is refused")
	}
}

// handlers of 0..3 arguments of different types, pointers or an interface last, called with 0..4 arguments
//v:reach=called,refused
func CheckCount() {
	a := jlibhttp.NewActor()
	s := &seen{}
	n := v.Choose("declared", 4)
	form := v.Choose("form", 3) // plain arguments, pointers, interfaces last
	switch {
	case n == 0:
		a.OnTyped("m", func() (int, error) { return s.rec() })
	case n == 1 && form == 0:
		a.OnTyped("m", func(x int) (int, error) { return s.rec(x) })
	case n == 1 && form == 1:
		a.OnTyped("m", func(x *int) (int, error) { return s.rec(*x) })
	case n == 1:
		a.OnTyped("m", func(x interface{}) (int, error) { return s.rec(x) })
	case n == 2 && form == 0:
		a.OnTyped("m", func(x int, y string) (int, error) { return s.rec(x, y) })
	case n == 2 && form == 1:
		a.OnTyped("m", func(x *int, y *string) (int, error) { return s.rec(*x, *y) })
	case n == 2:
		a.OnTyped("m", func(x int, y interface{}) (int, error) { return s.rec(x, y) })
	case form == 0:
		a.OnTyped("m", func(x int, y string, z bool) (int, error) { return s.rec(x, y, z) })
	case form == 1:
		a.OnTyped("m", func(x *int, y *string, z *bool) (int, error) { return s.rec(*x, *y, *z) })
	default:
		a.OnTyped("m", func(x int, y string, z interface{}) (int, error) { return s.rec(x, y, z) })
	}
	sent := []interface{}{v.Int("x"), v.ASCII("y", 2), v.Bool("z"), "surplus"}[:v.Choose("sent", 5)]
	if v.Choose("swap", 2) == 1 && len(sent) > 1 {
		sent[0], sent[1] = sent[1], sent[0]
	}
	res, ok := call(a, sent...)
	fits := len(sent) >= n
	for i := 0; i < n && i < len(sent); i++ {
		t := []string{"int", "string", "bool"}[i]
		if form == 2 && i == n-1 {
			t = "any"
		}
		_, yes, _ := hd.Want(sent[i], t)
		if i < 2 {
			fits = fits && yes
		}
	}
	v.Assert(ok == fits, "a handler is called exactly when every argument it declares is present and convertible")
	if ok {
		v.Reach("called")
		v.Assert(s.runs == 1 && len(s.args) == n && res == 7, "the handler runs once")
		for i := range s.args {
			v.Assert(s.args[i] == sent[i], "the i-th argument is the i-th parameter and surplus ones are ignored")
		}
	} else {
		v.Reach("refused")
		v.Assert(s.runs == 0, "the handler does not run when it is refused")
	}
}

// typed handlers with a request or context first argument and 0..2 more, called with 0..3 arguments
//v:reach=called,refused
func CheckFirst() {
	a := jlibhttp.NewActor()
	s := &seen{}
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, "mine")
	sent := []interface{}{v.Int("x"), v.ASCII("y", 1), "surplus"}[:v.Choose("sent", 4)]
	req := jlibhttp.NewRPCRequest(ctx, jlib.NewRequestMessage(1, "m", sent), jlibhttp.TransportHTTP, nil)
	n := v.Choose("declared", 3)
	var err error
	switch n {
	case 0:
		err = a.OnTypedRequest("m", func(r *jlibhttp.RPCRequest) (int, error) {
			v.Assert(r == req, "the handler receives the request")
			return s.rec()
		})
	case 1:
		err = a.OnTypedContext("m", func(c context.Context, x int) (int, error) {
			v.Assert(c.Value(key{}) == "mine", "the handler receives the request's context")
			return s.rec(x)
		})
	default:
		err = a.OnTypedRequest("m", func(r *jlibhttp.RPCRequest, x int, y string) (int, error) {
			v.Assert(r == req, "the handler receives the request")
			return s.rec(x, y)
		})
	}
	v.Assert(err == nil, "the handler is registered")
	res, err := a.Feed(req)
	v.Assert(err == nil && res != nil, "the call is answered")
	if err != nil || res == nil {
		return
	}
	v.Assert(res.IsResult() == (len(sent) >= n), "a handler is called exactly when every argument it declares is present and convertible")
	if res.IsResult() {
		v.Reach("called")
		v.Assert(s.runs == 1 && len(s.args) == n, "the handler runs once")
		for i := range s.args {
			v.Assert(s.args[i] == sent[i], "the i-th argument is the i-th parameter and surplus ones are ignored")
		}
	} else {
		v.Reach("refused")
		v.Assert(s.runs == 0 && res.MustError().Code == -32602, "too few arguments give the invalid params error")
	}
}

type item struct {
	N    int    `json:"n"`
	S    string `json:"s,omitempty"`
	priv int
}

type outer struct {
	item
	P *item           `json:"p"`
	L []item          `json:"l"`
	M map[string]item `json:"m"`
	X interface{}
	H string `json:"-"`
}

type text struct{ a, b string }

func (t text) MarshalJSON() ([]byte, error) { return json.Marshal(t.a + "/" + t.b) }

// results of every kind of type: numbers, text, lists, maps, structs with tags, embedded fields and nested pointers, pointers, nil, raw values, own JSON forms, empty and nil lists, maps and structs
//v:reach=done
func CheckResult() {
	a := jlibhttp.NewActor()
	var want interface{}
	n, t := v.Int("n"), v.ASCII("t", 1)
	it := item{n, t, 3}
	switch v.Choose("type", 25) {
	case 0:
		want = n
		a.OnTyped("m", func() (int, error) { return n, nil })
	case 1:
		want = t
		a.OnTyped("m", func() (string, error) { return t, nil })
	case 2:
		want = v.Value("x", one())
		a.OnTyped("m", func() (interface{}, error) { return want, nil })
	case 3:
		want = []interface{}{n, t, nil}
		a.OnTyped("m", func() ([]interface{}, error) { return []interface{}{n, t, nil}, nil })
	case 4:
		want = []string{t, "b"}
		a.OnTyped("m", func() ([]string, error) { return []string{t, "b"}, nil })
	case 5:
		want = map[string]int{"k": n}
		a.OnTyped("m", func() (map[string]int, error) { return map[string]int{"k": n}, nil })
	case 6:
		want = it
		a.OnTyped("m", func() (item, error) { return it, nil })
	case 7:
		want = &it
		a.OnTyped("m", func() (*item, error) { return &it, nil })
	case 8:
		want = nil
		a.OnTyped("m", func() (*item, error) { return nil, nil })
	case 9:
		o := outer{item: it, P: &it, L: []item{it}, M: map[string]item{"k": it}, X: t, H: "hidden"}
		want = o
		a.OnTyped("m", func() (outer, error) { return o, nil })
	case 10:
		want = []item{it}
		a.OnTyped("m", func() ([]item, error) { return []item{it}, nil })
	case 11:
		want = text{t, "x"}
		a.OnTyped("m", func() (text, error) { return text{t, "x"}, nil })
	case 12:
		b := jlib.Bigint(*big.NewInt(12))
		want = b
		a.OnTyped("m", func() (jlib.Bigint, error) { return b, nil })
	case 13:
		want = 1.5
		a.OnTyped("m", func() (float64, error) { return 1.5, nil })
	case 14:
		want = map[string]item{"k": it}
		a.OnTyped("m", func() (map[string]item, error) { return map[string]item{"k": it}, nil })
	case 15:
		want = []*item{&it, nil}
		a.OnTyped("m", func() ([]*item, error) { return []*item{&it, nil}, nil })
	case 16:
		want = []int{}
		a.OnTyped("m", func() ([]int, error) { return []int{}, nil })
	case 17:
		want = []interface{}(nil)
		a.OnTyped("m", func() ([]interface{}, error) { return nil, nil })
	case 18:
		want = map[string]interface{}{}
		a.OnTyped("m", func() (map[string]interface{}, error) { return map[string]interface{}{}, nil })
	case 19:
		want = map[string]int(nil)
		a.OnTyped("m", func() (map[string]int, error) { return nil, nil })
	case 20:
		want = item{}
		a.OnTyped("m", func() (item, error) { return item{}, nil })
	case 21:
		want = (*item)(nil)
		a.OnTyped("m", func() (interface{}, error) { return (*item)(nil), nil })
	case 22:
		want = []interface{}{}
		a.OnTyped("m", func() (interface{}, error) { return []interface{}{}, nil })
	case 23:
		want = []string{}
		a.OnTyped("m", func() ([]string, error) { return []string{}, nil })
	default:
		want = v.Bool("b")
		a.OnTyped("m", func() (bool, error) { return want.(bool), nil })
	}
	res, ok := call(a)
	v.Assert(ok, "the call gives a result")
	v.Assert(v.SameJSON(hx.Enc(res), hx.Enc(want)), "the caller gets what the handler returned")
	v.Reach("done")
}

// registering functions of every shape: the wrong ones are refused with an error, the right ones accepted and callable
//v:reach=accepted,refused
func CheckRegister() {
	a := jlibhttp.NewActor()
	good, variadic := false, false // a variadic handler may be refused
	var f interface{}
	switch v.Choose("shape", 9) {
	case 0:
		f = 3
	case 1:
		f = func(r *jlibhttp.RPCRequest) int { return 0 }
	case 2:
		f = func(r *jlibhttp.RPCRequest) (int, int) { return 0, 0 }
	case 3:
		f = func() (int, error) { return 0, nil }
	case 4:
		f = func(x int) (int, error) { return x, nil }
	case 5:
		f = func(r *jlibhttp.RPCRequest) (int, error, int) { return 0, nil, 0 }
	case 6:
		f, good = func(r *jlibhttp.RPCRequest) (int, error) { return 7, nil }, true
	case 7:
		f, good, variadic = func(r *jlibhttp.RPCRequest, l ...int) (int, error) { return 7, nil }, true, true
	default:
		f, good = func(r *jlibhttp.RPCRequest, l []int) (int, error) { return 7, nil }, true
	}
	var err error
	p := hx.Panics(func() { err = a.OnTypedRequest("m", f) })
	v.Assert(p == nil, "registering never panics")
	if err != nil {
		v.Reach("refused")
		v.Assert(!good || variadic, "a handler of the right shape is accepted")
		return
	}
	v.Reach("accepted")
	v.Assert(good, "a function that is no handler is refused")
	call(a, []interface{}{1, 2})
	call(a, 1)
	call(a)
}

// two calls of one typed handler, each with any integer and a string: at the same time with two scheduling deviations (three in the thorough tier), or the second from inside the first
//v:fields time=60 ttime=200 samples=2 tries=8
func CheckTogether() {
	type got struct {
		n int
		s string
	}
	var mu sync.Mutex
	all := map[string]got{}
	a := jlibhttp.NewActor()
	n1, n2 := v.Int("n1"), v.Int("n2")
	nested := v.Choose("nested", 2) == 1
	var inner interface{}
	innerOK := false
	h := func(n int, s string) (string, error) {
		if nested && s == "one" {
			inner, innerOK = call(a, n2, "two")
		}
		mu.Lock()
		defer mu.Unlock()
		all[s] = got{n, s}
		return "<" + s + ">", nil
	}
	switch v.Choose("kind", 3) {
	case 0:
		a.OnTyped("m", h)
	case 1:
		a.OnTypedContext("m", func(ctx context.Context, n int, s string) (string, error) { return h(n, s) })
	default:
		a.OnTypedRequest("m", func(req *jlibhttp.RPCRequest, n int, s string) (string, error) {
			p := req.Msg().MustParams()
			v.Assert(len(p) == 2 && p[1] == interface{}(s), "a handler is given its own request")
			return h(n, s)
		})
	}
	var x interface{}
	ok := false
	if nested {
		x, ok = call(a, n1, "one")
	} else {
		v.Preempt(v.N(2, 3))
		done := make(chan bool)
		go func() {
			inner, innerOK = call(a, n2, "two")
			close(done)
		}()
		x, ok = call(a, n1, "one")
		<-done
	}
	v.Assert(ok && x == interface{}("<one>"), "the caller gets what the handler returned for its call")
	v.Assert(innerOK && inner == interface{}("<two>"), "the caller gets what the handler returned for its call")
	v.Assert(len(all) == 2 && all["one"].n == n1 && all["two"].n == n2, "the handler receives exactly the values sent")
}
