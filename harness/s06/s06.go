// Package s06: schema equality is an equivalence that sees every constraint.
package s06

import (
	"github.com/superisaac/jlib/schema"
	"verif/harness/hx"
	"verif/harness/sx"
	"verif/harness/v"
)

var _ = v.Reg("s06.CheckPrims", CheckPrims)
var _ = v.Reg("s06.CheckNumbers", CheckNumbers)
var _ = v.Reg("s06.CheckComposites", CheckComposites)
var _ = v.Reg("s06.CheckObjects", CheckObjects)
var _ = v.Reg("s06.CheckWide", CheckWide)
var _ = v.Reg("s06.CheckTriples", CheckTriples)
var _ = v.Reg("s06.CheckReflexive", CheckReflexive)

func compare(a, b sx.Schema) {
	var e, f bool
	r := hx.Panics(func() {
		e = a.Equal(b)
		f = b.Equal(a)
	})
	v.Assert(r == nil, "comparison never panics")
	if r != nil {
		return
	}
	v.Assert(e == f, "equality is symmetric")
	if e {
		v.Reach("equal")
		v.Assert(sx.Like(a, b), "schemas that differ are never reported equal")
	} else {
		v.Reach("different")
		v.Assert(!sx.Same(a, b), "schemas that are the same are reported equal")
	}
}

// every pair of primitive schemas with names and descriptions (at most 1 byte) and one or no bound
//v:reach=equal,different
func CheckPrims() {
	a, b := sx.Prim("a", "nb*FIs"), sx.Prim("b", "nb*FIs")
	for i, s := range []sx.Schema{a, b} {
		id := string(rune('a' + i))
		s.SetName(v.ASCII(id+".name", 1))
		s.SetDescription(v.ASCII(id+".desc", 1))
	}
	compare(a, b)
}

// every pair of number or integer schemas with every combination of bounds and flags
//v:reach=equal,different
func CheckNumbers() {
	if v.Choose("kind", 2) == 0 {
		compare(sx.Number("a"), sx.Number("b"))
		return
	}
	compare(sx.Integer("a"), sx.Integer("b"))
}

// every pair of any-of, all-of, not, list, tuple and method schemas over bool and string children (width 2; lists with limits)
//v:reach=equal,different
func CheckComposites() {
	kinds := "ALNltm"
	a := sx.Node("a", kinds[v.Choose("a.kind", len(kinds))], 1, "", "bS", 1)
	kb := v.Choose("b.kind", len(kinds))
	b := sx.Node("b", kinds[kb], 1, "", "bS", v.N(1, 2))
	a.SetName(v.ASCII("a.name", 1))
	b.SetName(v.ASCII("b.name", 1))
	a.SetDescription(v.ASCII("a.desc", 1))
	b.SetDescription(v.ASCII("b.desc", 1))
	compare(a, b)
}

// every pair of object schemas declaring any properties of a, b with any required subset and additional schema, and an object against a method schema
//v:reach=equal,different
func CheckObjects() {
	a := sx.Node("a", 'o', 1, "", "bS", 2)
	if v.Choose("other", 2) == 0 {
		compare(a, sx.Node("b", 'm', 1, "", "b", 1))
		return
	}
	b := jlibschema.NewObjectSchema()
	for _, k := range []string{"a", "b"} {
		if v.Choose("b has "+k, 2) == 1 {
			b.Properties[k] = sx.Prim("b."+k, "bS")
			if v.Choose("b requires "+k, 2) == 1 {
				b.Requires[k] = true
			}
		}
	}
	if v.Choose("b.additional?", 2) == 1 {
		b.AdditionalProperties = sx.Prim("b.additional", "bS")
	}
	a.SetName(v.ASCII("a.name", 1))
	b.SetName(v.ASCII("b.name", 1))
	a.SetDescription(v.ASCII("a.desc", 1))
	b.SetDescription(v.ASCII("b.desc", 1))
	compare(a, b)
}

// any-of, all-of, tuple, method and object schemas of 4 (6 thorough) children against one that has one child fewer or more, two children swapped or one child, one required name or the additional schema changed, at any place
//v:reach=equal,different
func CheckWide() {
	n := v.N(4, 6)
	kind := "ALtmo"[v.Choose("kind", 5)]
	change := v.Choose("change", 7)
	i, j := v.Choose("at", n), v.Choose("with", n)
	leaf := func(k int) sx.Schema {
		s := jlibschema.NewIntegerSchema()
		m := int64(k)
		s.Maximum = &m
		return s
	}
	build := func(changed bool) sx.Schema {
		l := []sx.Schema{}
		for k := 0; k < n; k++ {
			l = append(l, leaf(k))
		}
		required := map[int]bool{0: true, n - 1: true}
		var extra sx.Schema = leaf(n)
		if changed {
			switch change {
			case 1:
				l = append(l[:i], l[i+1:]...)
			case 2:
				l = append(l, leaf(0))
			case 3:
				l[i], l[j] = l[j], l[i]
			case 4:
				l[i] = leaf(-1)
			case 5:
				required[i] = !required[i]
			case 6:
				extra = leaf(-1)
			}
		}
		switch kind {
		case 'A':
			s := jlibschema.NewAnyOfSchema()
			s.Choices = l
			return s
		case 'L':
			s := jlibschema.NewAllOfSchema()
			s.Choices = l
			return s
		case 't':
			s := jlibschema.NewTupleSchema()
			s.Children, s.AdditionalSchema = l, extra
			return s
		case 'm':
			s := jlibschema.NewMethodSchema()
			s.Params, s.AdditionalSchema, s.Returns = l, extra, leaf(0)
			return s
		}
		s := jlibschema.NewObjectSchema()
		for k, c := range l {
			name := string(rune('a' + k))
			s.Properties[name] = c
			if required[k] {
				s.Requires[name] = true
			}
		}
		s.AdditionalProperties = extra
		return s
	}
	compare(build(false), build(true))
}

// every triple of schemas of depth 1 over integer leaves
//v:reach=chain
func CheckTriples() {
	kinds := "ANlto"
	k := kinds[v.Choose("kind", len(kinds))]
	a := sx.Node("a", k, 1, "", "I", 1)
	b := sx.Node("b", k, 1, "", "I", 1)
	c := sx.Node("c", k, 1, "", "I", 1)
	if a.Equal(b) && b.Equal(c) {
		v.Reach("chain")
		v.Assert(a.Equal(c), "equality is transitive")
	}
}

// every schema tree of depth 2 and width 1 (2 thorough) equals itself
//v:reach=done
func CheckReflexive() {
	s := sx.Tree("s", 2, "ALNltom", "b*S", v.N(1, 2))
	v.Assert(s.Equal(s), "equality is reflexive")
	v.Assert(!s.Equal(nil), "no schema equals nil")
	v.Reach("done")
}
