// Package d03: a schema-guarded handler only ever sees conforming params.
package d03

import (
	"strconv"

	"github.com/superisaac/jlib"
	"github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/schema"
	"verif/harness/hd"
	"verif/harness/hx"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("d03.CheckGuard", CheckGuard)
var _ = v.Reg("d03.CheckSingle", CheckSingle)
var _ = v.Reg("d03.CheckDocument", CheckDocument)

func guard(s sx.Schema, m jlib.Message, conforms bool, params interface{}) {
	runs := 0
	t := jlibhttp.NewActor()
	t.On("m", func(p []interface{}) (interface{}, error) {
		runs++
		v.Assert(v.SameJSON(hx.Enc(p), hx.Enc(params)), "the handler sees the params of the message")
		return "ok", nil
	}, jlibhttp.WithSchema(s))
	a := t
	if v.Choose("child", 2) == 1 {
		a = jlibhttp.NewActor()
		a.AddChild(t)
	}
	valid := v.Choose("validate", 2) == 0
	t.ValidateSchema = valid
	var res jlib.Message
	var err error
	if v.Choose("session", 2) == 0 {
		res, err = hd.Feed(a, m)
	} else {
		res, err = hd.FeedSession(a, m, jlibhttp.TransportWebsocket)
	}
	if conforms || !valid {
		v.Reach("run")
		v.Assert(runs == 1, "the handler runs when the params conform or validation is off")
		v.Assert(err == nil, "no error when the handler runs")
		return
	}
	v.Reach("refused")
	v.Assert(runs == 0, "the handler does not run when the params do not conform")
	if m.IsNotify() {
		v.Assert(res == nil && err != nil, "a refused notify is an error")
		return
	}
	v.Assert(err == nil && res != nil && res.IsError(), "a refused request is answered with an error message")
	if err == nil && res != nil && res.IsError() {
		v.Assert(res.MustError().Code == -32633, "the error is the invalid schema error")
		v.Assert(res.MustId() == m.MustId() && res.TraceId() == m.TraceId(), "the error carries the request's id and trace id")
	}
}

func message(params interface{}) jlib.Message {
	if v.Choose("notify", 2) == 1 {
		return hd.Notify("m", params)
	}
	return hd.Request("m", params)
}

// method schemas of 0..2 params (bool, string with any limit, list of bool, object with a required string) with and without additional params and with a returns schema, against lists of 0..3 values of depth 1
//v:reach=run,refused
func CheckGuard() {
	s := jlibschema.NewMethodSchema()
	s.Returns = &jlibschema.NullSchema{}
	prim := func(name string) sx.Schema {
		switch v.Choose(name, 4) {
		case 0:
			return &jlibschema.BoolSchema{}
		case 1:
			return sx.Prim(name, "S")
		case 2:
			l := jlibschema.NewListSchema()
			l.Item = &jlibschema.BoolSchema{}
			return l
		}
		o := jlibschema.NewObjectSchema()
		o.Properties["a"] = jlibschema.NewStringSchema()
		o.Requires["a"] = true
		return o
	}
	for i, n := 0, v.Choose("n", 3); i < n; i++ {
		s.Params = append(s.Params, prim("s"+strconv.Itoa(i)))
	}
	if v.Choose("additional", 2) == 1 {
		s.AdditionalSchema = &jlibschema.BoolSchema{}
	}
	params := []interface{}{}
	for i, n := 0, v.Choose("params", v.N(3, 4)); i < n; i++ {
		params = append(params, v.Value("p"+strconv.Itoa(i), v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a", "b"}, Kinds: "nbsao"}))
	}
	conforms := sx.Accepts(s, map[string]interface{}{"params": params})
	guard(s, message(params), conforms, params)
}

// params that are one value instead of a list (they are not a positional list, so they do not conform to a method schema)
//v:reach=run,refused
func CheckSingle() {
	s := jlibschema.NewMethodSchema()
	s.Params = []jlibschema.Schema{&jlibschema.AnySchema{}}
	x := v.Value("p", v.Shape{Depth: 1, Width: 1, StrLen: 1, Keys: []string{"a", "params", "result"}, Kinds: "bso"})
	guard(s, message(x), false, []interface{}{x})
}

// the schema given as a JSON or YAML document guards like the schema it describes
//v:reach=run,refused
func CheckDocument() {
	runs := 0
	a := jlibhttp.NewActor()
	set := jlibhttp.WithSchemaJson(`{"params":[{"type":"integer","minimum":3,"exclusiveMinimum":true}],"additionalParams":"string"}`)
	if v.Choose("yaml", 2) == 1 {
		set = jlibhttp.WithSchemaYaml("type: method\nparams:\n  - type: integer\n    minimum: 3\n    exclusiveMinimum: true\nadditionalParams: string\n")
	}
	a.On("m", func(p []interface{}) (interface{}, error) { runs++; return nil, nil }, set)
	p := []interface{}{v.Int("p")}
	ok := p[0].(int) > 3
	if v.Choose("more", 2) == 1 {
		x := v.Value("x", v.Shape{Kinds: "bs", StrLen: 1})
		_, str := x.(string)
		ok = v.And(ok, str)
		p = append(p, x)
	}
	hd.Feed(a, jlib.NewRequestMessage(1, "m", p))
	v.Assert((runs == 1) == ok, "the handler runs exactly when the params conform")
	if runs == 1 {
		v.Reach("run")
	} else {
		v.Reach("refused")
	}
}
