package main

// Model of package fmt's formatting.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func decElems(t *Term, signed bool) []Value {
	if t.IsConst() {
		var s string
		if signed {
			s = strconv.FormatInt(t.S(), 10)
		} else {
			s = strconv.FormatUint(t.C, 10)
		}
		el, _ := strElems(s)
		return el
	}
	return []Value{&Super{Kind: SupDec, T: t, Signed: signed}}
}

func lit(s string) []Value { el, _ := strElems(s); return el }

func opaque(tag string) []Value { return []Value{&Super{Kind: SupFmt, Tag: tag}} }

func (p *Path) hasMethod(t types.Type, name string) *ssa.Function {
	f := p.w.prog.methodByName(t, name)
	if f == nil {
		return nil
	}
	sig := f.Signature
	if sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return nil
	}
	if b := basicOf(sig.Results().At(0).Type()); b == nil || b.Kind() != types.String {
		return nil
	}
	return f
}

// hostArg converts a fully concrete scalar to a Go value.
func hostArg(v Iface) (interface{}, bool) {
	if v.T == nil {
		return nil, true
	}
	b := basicOf(v.T)
	if b == nil {
		return nil, false
	}
	switch x := v.V.(type) {
	case string:
		return x, true
	case *SymStr:
		s, ok := concreteStr(x)
		return s, ok
	case F32:
		return float32(x), true
	case *Term:
		if !x.IsConst() {
			return nil, false
		}
		switch b.Kind() {
		case types.Bool:
			return x.C != 0, true
		case types.Int:
			return int(x.S()), true
		case types.Int8:
			return int8(x.S()), true
		case types.Int16:
			return int16(x.S()), true
		case types.Int32:
			return int32(x.S()), true
		case types.Int64:
			return x.S(), true
		case types.Uint:
			return uint(x.C), true
		case types.Uint8:
			return uint8(x.C), true
		case types.Uint16:
			return uint16(x.C), true
		case types.Uint32:
			return uint32(x.C), true
		case types.Uint64:
			return x.C, true
		case types.Float64:
			return x.F(), true
		}
	}
	return nil, false
}

// fmtVerb formats one argument.
func (p *Path) fmtVerb(fr *Frame, spec string, verb byte, av Value) []Value {
	if l, ok := av.(*LazyIface); ok && !l.Done && l.Node.Kind == JLazy {
		return opaque("lazy")
	}
	v := p.force(av)
	if verb == 'T' {
		if v.T == nil {
			return lit("<nil>")
		}
		return lit(rtypeString(v.T))
	}
	if verb == 'p' {
		return opaque("pointer")
	}
	if v.T != nil && (verb == 'v' || verb == 's' || verb == 'q' || verb == 'x') && !strings.Contains(spec, "#") {
		name := ""
		if f := p.hasMethod(v.T, "Error"); f != nil && implements(v.T, p.w.prog.errorT) {
			name = "Error"
		} else if p.hasMethod(v.T, "String") != nil {
			name = "String"
		}
		if name != "" {
			if pt, ok := v.V.(Ptr); ok && pt == nil {
				// fmt catches the nil receiver panic
				var out []Value
				func() {
					defer func() {
						if r := recover(); r != nil {
							if _, ok := r.(targetPanic); ok {
								out = lit("<nil>")
								return
							}
							panic(r)
						}
					}()
					out = p.strOf(p.callMethod(fr, v, name))
				}()
				return out
			}
			if _, ok := v.V.(*RType); ok {
				return lit(rtypeString(v.V.(*RType).T))
			}
			s := p.callMethod(fr, v, name)
			return p.fmtVerb(fr, spec, verb, Iface{tString, s})
		}
	}
	if h, ok := hostArg(v); ok {
		if v.T == nil {
			return lit(fmt.Sprintf(spec, nil))
		}
		return lit(fmt.Sprintf(spec, h))
	}
	plain := len(spec) == 2 || spec == "%+v"
	switch x := v.V.(type) {
	case *SymStr:
		if plain && (verb == 's' || verb == 'v') {
			return p.strOf(x)
		}
	case string:
	case *Term:
		b := basicOf(v.T)
		if b != nil && plain {
			switch {
			case b.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
				return decElems(x, b.Info()&types.IsUnsigned == 0)
			case b.Info()&types.IsBoolean != 0 && (verb == 't' || verb == 'v'):
				if p.branch(x) {
					return lit("true")
				}
				return lit("false")
			}
		}
	case []Value:
		if et := elemType(v.T); et != nil {
			if b := basicOf(et); b != nil && b.Kind() == types.Uint8 && verb == 's' && plain {
				return append([]Value{}, x...)
			}
		}
		if verb == 'v' || verb == 's' {
			if plain {
				out := lit("[")
				for i, e := range x {
					if i > 0 {
						out = append(out, BVC(8, ' '))
					}
					out = append(out, p.fmtVerb(fr, spec, verb, toIfaceT(elemType(v.T), e))...)
				}
				return append(out, BVC(8, ']'))
			}
		}
	case Ptr:
		if x == nil && verb == 'v' {
			return lit("<nil>")
		}
		if st, ok := (*x).(Struct); ok && verb == 'v' && plain {
			return append(lit("&"), p.fmtVerb(fr, spec, verb, Iface{elemType(v.T), copyVal(st)})...)
		}
	case Struct:
		if verb == 'v' && spec == "%v" {
			st := v.T.Underlying().(*types.Struct)
			out := lit("{")
			for i, e := range x {
				if i > 0 {
					out = append(out, BVC(8, ' '))
				}
				if _, ok := e.(Ptr); ok {
					out = append(out, opaque("pointer")...)
					continue
				}
				if !st.Field(i).Exported() {
					// methods are not called on unexported fields
					if h, ok := hostArg(toIfaceT(st.Field(i).Type(), e).(Iface)); ok && basicOf(st.Field(i).Type()) != nil {
						out = append(out, lit(fmt.Sprintf(spec, h))...)
						continue
					}
					return opaque("struct")
				}
				out = append(out, p.fmtVerb(fr, spec, verb, toIfaceT(st.Field(i).Type(), e))...)
			}
			return append(out, BVC(8, '}'))
		}
	case *MapV:
		if x == nil || x.Len() == 0 {
			if plain {
				return lit("map[]")
			}
		}
	}
	return opaque(spec)
}

func toIfaceT(t types.Type, v Value) Value {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return Iface{t, v}
}

func (p *Path) strOf(v Value) []Value { return p.concLen(v) }

func (p *Path) sprintf(fr *Frame, format string, args []Value) Value {
	var out []Value
	ai := 0
	for i := 0; i < len(format); {
		c := format[i]
		if c != '%' {
			j := strings.IndexByte(format[i:], '%')
			if j < 0 {
				j = len(format) - i
			}
			out = append(out, lit(format[i:i+j])...)
			i += j
			continue
		}
		j := i + 1
		for j < len(format) && strings.IndexByte("+-# 0123456789.", format[j]) >= 0 {
			j++
		}
		if j >= len(format) {
			out = append(out, lit("%!(NOVERB)")...)
			break
		}
		verb := format[j]
		spec := format[i : j+1]
		i = j + 1
		if verb == '%' {
			out = append(out, BVC(8, '%'))
			continue
		}
		if verb == '*' || verb == '[' {
			return mkStr(opaque(format))
		}
		if ai >= len(args) {
			out = append(out, lit("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		if verb == 'w' {
			verb = 'v'
			spec = spec[:len(spec)-1] + "v"
		}
		out = append(out, p.fmtVerb(fr, spec, verb, args[ai])...)
		ai++
	}
	if ai < len(args) {
		out = append(out, opaque("extra args")...)
	}
	return mkStr(out)
}

func (p *Path) sprint(fr *Frame, args []Value, ln bool) Value {
	var out []Value
	prevStr := true
	for i, a := range args {
		v := p.force(a)
		isStr := false
		if v.T != nil {
			if b := basicOf(v.T); b != nil && b.Info()&types.IsString != 0 {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, BVC(8, ' '))
		}
		out = append(out, p.fmtVerb(fr, "%v", 'v', v)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, BVC(8, '\n'))
	}
	return mkStr(out)
}

func fmtErrorf(fr *Frame, args []Value) Value {
	p := fr.p
	f := p.mustStr(args[0], "fmt.Errorf format")
	va := args[1].([]Value)
	s := p.sprintf(fr, f, va)
	// %w operands
	var wrapped []Value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j < len(f) {
			if f[j] != '%' {
				if f[j] == 'w' && ai < len(va) {
					wrapped = append(wrapped, va[ai])
				}
				ai++
			}
		}
		i = j
	}
	switch len(wrapped) {
	case 0:
		return p.ptrIface("fmt", "wrapError", map[string]Value{"msg": s, "err": Iface{}})
	case 1:
		return p.ptrIface("fmt", "wrapError", map[string]Value{"msg": s, "err": wrapped[0]})
	}
	return p.ptrIface("fmt", "wrapErrors", map[string]Value{"msg": s, "errs": wrapped})
}

func (p *Path) mustStr(v Value, what string) string {
	s, ok := concreteStr(v)
	if !ok {
		panic(unsupported{"symbolic " + what})
	}
	return s
}
