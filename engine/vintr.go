package main

// Engine side of the harness interface (package verif/harness/v).

import (
	"fmt"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

const vPkg = harnessModule + "/v"

func vname(fr *Frame, v Value) string { return fr.p.mustStr(v, "input name") }

func (p *Path) addInput(name, kind string, render func(m Model) string) {
	p.inputs = append(p.inputs, &nondet{name: name, kind: kind, render: render})
}

func (p *Path) vString(name string, max int, ascii bool, alphabet string) Value {
	name = p.uniq(name)
	var s Value = ""
	if max > 0 {
		b := make([]Value, max)
		for i := range b {
			t := p.tt.Var(fmt.Sprintf("%s[%d]", name, i), 8)
			if ascii {
				p.assume(p.tt.Cmp(OpULT, t, BVC(8, 0x80)))
			}
			if alphabet != "" {
				c := False
				for j := 0; j < len(alphabet); j++ {
					c = p.tt.Or(c, p.tt.Eq(t, BVC(8, uint64(alphabet[j]))))
				}
				p.assume(c)
			}
			b[i] = t
		}
		l := p.tt.Var(name+".len", 64)
		p.assume(p.tt.Cmp(OpULE, l, BVC(64, uint64(max))))
		s = &SymStr{B: b, Len: l}
	}
	orig := s
	if ss, ok := s.(*SymStr); ok {
		cp := *ss
		orig = &cp
	}
	p.addInput(name, "string", func(m Model) string {
		t, _ := evalStr(m, map[*Term]uint64{}, orig)
		return strconv.Quote(t)
	})
	return s
}

func (p *Path) vShape(v Value) *Shape {
	st := v.(Struct)
	sh := &Shape{
		Depth: int(st[0].(*Term).S()), Width: int(st[1].(*Term).S()), StrLen: int(st[2].(*Term).S()),
		Kinds: p.mustStr(st[4], "shape kinds"),
	}
	if ks, ok := st[3].([]Value); ok {
		for _, k := range ks {
			sh.Keys = append(sh.Keys, p.mustStr(k, "shape key"))
		}
	}
	if ls, ok := st[5].([]Value); ok {
		for _, k := range ls {
			sh.Lits = append(sh.Lits, p.mustStr(k, "shape literal"))
		}
	}
	return sh
}

func (p *Path) vNode(fr *Frame, args []Value) *JNode {
	name := p.uniq(vname(fr, args[0]))
	sh := p.vShape(args[1])
	n := &JNode{Kind: JLazy, sh: sh, depth: sh.Depth, name: name}
	p.addInput(name, "json", func(m Model) string { return p.renderNode(m, n) })
	return n
}

func initVIntr() {
	vr := func(name string, f intrFn) { reg(vPkg+"."+name, f) }
	vr("Reg", func(fr *Frame, args []Value) Value { return True })
	vint := func(fr *Frame, args []Value) Value {
		p := fr.p
		name := p.uniq(vname(fr, args[0]))
		t := p.tt.Var(name, 64)
		p.addInput(name, "int", func(m Model) string { return strconv.FormatInt(int64(m.Eval(t, map[*Term]uint64{})), 10) })
		return t
	}
	vr("Int", vint)
	vr("Int64", vint)
	vr("Bool", func(fr *Frame, args []Value) Value {
		p := fr.p
		name := p.uniq(vname(fr, args[0]))
		t := p.tt.Var(name, WBool)
		p.addInput(name, "bool", func(m Model) string { return strconv.FormatBool(m.Eval(t, map[*Term]uint64{}) != 0) })
		return t
	})
	vr("Float", func(fr *Frame, args []Value) Value {
		p := fr.p
		name := p.uniq(vname(fr, args[0]))
		f := p.tt.FFromBits(p.tt.Var(name, 64))
		p.assume(p.finite(f))
		p.addInput(name, "float", func(m Model) string {
			return strconv.FormatFloat(math.Float64frombits(m.Eval(f, map[*Term]uint64{})), 'g', -1, 64)
		})
		return f
	})
	vr("String", func(fr *Frame, args []Value) Value {
		return fr.p.vString(vname(fr, args[0]), int(fr.p.concretize(args[1].(*Term))), false, "")
	})
	vr("ASCII", func(fr *Frame, args []Value) Value {
		return fr.p.vString(vname(fr, args[0]), int(fr.p.concretize(args[1].(*Term))), true, "")
	})
	vr("StringOf", func(fr *Frame, args []Value) Value {
		return fr.p.vString(vname(fr, args[0]), int(fr.p.concretize(args[2].(*Term))), false, vname(fr, args[1]))
	})
	vr("Choose", func(fr *Frame, args []Value) Value {
		p := fr.p
		name := p.uniq(vname(fr, args[0]))
		n := int(p.concretize(args[1].(*Term)))
		if n <= 1 {
			p.addInput(name, "int", func(m Model) string { return "0" })
			return intC(0)
		}
		k := p.chooseVar(n, name)
		p.addInput(name, "int", func(m Model) string { return strconv.Itoa(k) })
		return intC(k)
	})
	vr("JSON", func(fr *Frame, args []Value) Value {
		n := fr.p.vNode(fr, args)
		return []Value{&Super{Kind: SupJSON, Node: n}}
	})
	vr("Value", func(fr *Frame, args []Value) Value { return fr.p.nodeVal(fr.p.vNode(fr, args), true) })
	vr("FValue", func(fr *Frame, args []Value) Value { return fr.p.nodeVal(fr.p.vNode(fr, args), false) })
	vr("Assume", func(fr *Frame, args []Value) Value { fr.p.assume(args[0].(*Term)); return nil })
	vr("Assert", func(fr *Frame, args []Value) Value {
		fr.p.assert(fr, args[0].(*Term), fr.p.mustStr(args[1], "assert message"))
		return nil
	})
	vr("Reach", func(fr *Frame, args []Value) Value {
		fr.p.reached = append(fr.p.reached, vname(fr, args[0]))
		return nil
	})
	vr("Observe", func(fr *Frame, args []Value) Value {
		p := fr.p
		p.observe = append(p.observe, obsRec{vname(fr, args[0]), p.force(args[1])})
		return nil
	})
	vr("SameJSON", func(fr *Frame, args []Value) Value {
		p := fr.p
		a, ok := p.textNode(elemsOf(p, args[0]))
		if !ok {
			return False
		}
		b, ok := p.textNode(elemsOf(p, args[1]))
		if !ok {
			return False
		}
		p.resolve(a)
		p.resolve(b)
		if a.Kind == JBad || b.Kind == JBad {
			return False
		}
		return p.nodeEq(a, b)
	})
	vr("And", func(fr *Frame, args []Value) Value {
		r := True
		for _, a := range args[0].([]Value) {
			r = fr.p.tt.And(r, a.(*Term))
		}
		return r
	})
	vr("Or", func(fr *Frame, args []Value) Value {
		r := False
		for _, a := range args[0].([]Value) {
			r = fr.p.tt.Or(r, a.(*Term))
		}
		return r
	})
	vr("In", func(fr *Frame, args []Value) Value {
		r := False
		set := vname(fr, args[1])
		for i := 0; i < len(set); i++ {
			r = fr.p.tt.Or(r, fr.p.tt.Eq(args[0].(*Term), BVC(8, uint64(set[i]))))
		}
		return r
	})
	vr("Set", func(fr *Frame, args []Value) Value {
		p := fr.p
		x := p.force(args[0])
		pt, ok := x.T.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported{"v.Set: not a pointer"})
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			panic(unsupported{"v.Set: not a struct"})
		}
		name := vname(fr, args[1])
		val := p.force(args[2])
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Name() != name || val.T == nil || !types.AssignableTo(val.T, f.Type()) {
				continue
			}
			c := fr.deref(x.V)
			if types.IsInterface(f.Type()) {
				(*c).(Struct)[i] = val
			} else {
				(*c).(Struct)[i] = val.V
			}
			return True
		}
		return False
	})
	vr("Symbolic", func(fr *Frame, args []Value) Value { return True })
	vr("MapOrder", func(fr *Frame, args []Value) Value { fr.p.mapOrder = true; return nil })
	vr("Preempt", func(fr *Frame, args []Value) Value {
		fr.p.preemptLeft = int(fr.p.concretize(args[0].(*Term)))
		if fr.p.w.ex.noPreempt {
			fr.p.preemptLeft = 0
		}
		return nil
	})
	vr("Selects", func(fr *Frame, args []Value) Value {
		fr.p.selectsLeft = int(fr.p.concretize(args[0].(*Term)))
		return nil
	})
	vr("Quiet", func(fr *Frame, args []Value) Value { fr.p.quiet = fr.p.branch(args[0].(*Term)); return nil })
	vr("Races", func(fr *Frame, args []Value) Value { fr.p.raceOn = true; return nil })
	vr("Encoding", func(fr *Frame, args []Value) Value { fr.p.encodeYield = true; return nil })
	vr("Yield", func(fr *Frame, args []Value) Value { fr.p.yield(fr); return nil })
	idle := func(timers bool) intrFn {
		return func(fr *Frame, args []Value) Value {
			p := fr.p
			t := fr.th
			t.state = tsIdleWait
			t.wantTimers = timers
			t.why = "idle"
			p.handoff(t)
			p.park(t)
			t.wantTimers = false
			return nil
		}
	}
	vr("Running", func(fr *Frame, args []Value) Value {
		pkg := vname(fr, args[0])
		in := func(fn *ssa.Function) bool { return fn != nil && fn.Pkg != nil && fn.Pkg.Pkg.Path() == pkg }
		n := 0
		for _, t := range fr.p.threads {
			if t == fr.th || t.state == tsDone {
				continue
			}
			found := false
			switch f := t.fn.(type) {
			case *ssa.Function:
				found = in(f)
			case *Closure:
				found = in(f.Fn)
			}
			for f := t.top; f != nil && !found; f = f.caller {
				found = in(f.fn)
			}
			if found {
				n++
			}
		}
		return intC(n)
	})
	vr("Idle", idle(false))
	vr("IdleTimers", idle(true))
	vr("Tier", func(fr *Frame, args []Value) Value { return runTier })
	vr("N", func(fr *Frame, args []Value) Value {
		if runTier == "thorough" {
			return args[1]
		}
		return args[0]
	})
}

var runTier = "quick"

func (p *Path) renderObs(m Model, v Value) (string, bool) {
	i, ok := v.(Iface)
	if !ok {
		return "", false
	}
	if i.T == nil {
		return "nil", true
	}
	if types.Implements(i.T, p.w.prog.errorT) {
		return "err", true
	}
	memo := map[*Term]uint64{}
	switch u := i.T.Underlying().(type) {
	case *types.Basic:
		switch x := i.V.(type) {
		case string, *SymStr:
			s, ok := evalStr(m, memo, x)
			return strconv.Quote(s), ok
		case *Term:
			val := m.Eval(x, memo)
			switch {
			case x.W == WBool:
				return strconv.FormatBool(val != 0), true
			case x.W == WFP:
				return strconv.FormatFloat(math.Float64frombits(val), 'g', -1, 64), true
			case isSigned(u):
				return strconv.FormatInt(sext(val, x.W), 10), true
			}
			return strconv.FormatUint(val, 10), true
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			el, ok := i.V.([]Value)
			if !ok {
				return `""`, true
			}
			s, ok := evalStr(m, memo, &SymStr{B: el})
			return strconv.Quote(s), ok
		}
	}
	return "", false
}
