package main

// Model of package reflect on interpreter values.

import (
	"fmt"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

type RType struct{ T types.Type }

// RValue is a reflect.Value; T == nil is the zero Value.
type RValue struct {
	T    types.Type
	V    Value
	addr Ptr
	ro   bool
}

func (r *RValue) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.V
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	}
	panic(unsupported{"kindOf " + typeStr(t)})
}

func rtypeName(t types.Type) string {
	switch x := types.Unalias(t).(type) {
	case *types.Named:
		return x.Obj().Name()
	case *types.Basic:
		return x.Name()
	}
	return ""
}

// rtypeString follows reflect's spelling.
func rtypeString(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	out := []byte{}
	for i := 0; i < len(s); i++ {
		if i+3 <= len(s) && s[i:i+3] == "any" && (i == 0 || !isIdent(s[i-1])) && (i+3 == len(s) || !isIdent(s[i+3])) {
			out = append(out, "interface {}"...)
			i += 2
			continue
		}
		if i+11 <= len(s) && s[i:i+11] == "interface{}" {
			out = append(out, "interface {}"...)
			i += 10
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

func isIdent(c byte) bool {
	return c == '_' || c == '.' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func refPanic(fr *Frame, msg string) {
	panic(targetPanic{v: Iface{T: tString, V: msg}, stack: fr.stack()})
}

func intC(n int) *Term { return BVC(64, uint64(int64(n))) }

func (p *Path) structField(st *types.Struct, i int) Struct {
	f := st.Field(i)
	sft := p.w.prog.typ("reflect", "StructField")
	s := zero(sft).(Struct)
	set := func(n string, v Value) { *p.fieldPtr(s, sft, n) = v }
	set("Name", f.Name())
	if !f.Exported() {
		set("PkgPath", f.Pkg().Path())
	}
	set("Type", p.rtIface(f.Type()))
	set("Tag", st.Tag(i))
	set("Index", []Value{intC(i)})
	set("Anonymous", BoolC(f.Anonymous()))
	return s
}

func asRType(p *Path, v Value) *RType {
	switch x := v.(type) {
	case *RType:
		return x
	case Iface:
		if r, ok := x.V.(*RType); ok {
			return r
		}
	}
	panic(unsupported{fmt.Sprintf("reflect.Type from %T", v)})
}

func rtypeMethod(fr *Frame, r *RType, name string, args []Value) Value {
	p := fr.p
	t := r.T
	switch name {
	case "Kind":
		return BVC(64, uint64(kindOf(t)))
	case "String":
		return rtypeString(t)
	case "Name":
		return rtypeName(t)
	case "PkgPath":
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Elem":
		e := elemType(t)
		if e == nil {
			refPanic(fr, "reflect: Elem of invalid type "+rtypeString(t))
		}
		return p.rtIface(e)
	case "Key":
		return p.rtIface(t.Underlying().(*types.Map).Key())
	case "Len":
		return intC(int(t.Underlying().(*types.Array).Len()))
	case "NumIn", "NumOut", "In", "Out", "IsVariadic":
		sig, ok := t.Underlying().(*types.Signature)
		if !ok {
			refPanic(fr, "reflect: "+name+" of non-func type "+rtypeString(t))
		}
		switch name {
		case "NumIn":
			return intC(sig.Params().Len())
		case "NumOut":
			return intC(sig.Results().Len())
		case "IsVariadic":
			return BoolC(sig.Variadic())
		}
		i := int(p.concretize(args[0].(*Term)))
		tu := sig.Params()
		if name == "Out" {
			tu = sig.Results()
		}
		if i < 0 || i >= tu.Len() {
			fr.rtPanic("index out of range")
		}
		return p.rtIface(tu.At(i).Type())
	case "NumField", "Field":
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			refPanic(fr, "reflect: "+name+" of non-struct type "+rtypeString(t))
		}
		if name == "NumField" {
			return intC(st.NumFields())
		}
		i := int(p.concretize(args[0].(*Term)))
		if i < 0 || i >= st.NumFields() {
			refPanic(fr, "reflect: Field index out of bounds")
		}
		return p.structField(st, i)
	case "FieldByName":
		st := t.Underlying().(*types.Struct)
		n, _ := concreteStr(args[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{p.structField(st, i), True}
			}
		}
		return Tuple{zero(p.w.prog.typ("reflect", "StructField")), False}
	case "Implements":
		u := asRType(p, args[0])
		return BoolC(implements(t, u.T.Underlying().(*types.Interface)))
	case "AssignableTo":
		return BoolC(types.AssignableTo(t, asRType(p, args[0]).T))
	case "ConvertibleTo":
		return BoolC(types.ConvertibleTo(t, asRType(p, args[0]).T))
	case "Comparable":
		return BoolC(types.Comparable(t))
	case "NumMethod":
		if it, ok := t.Underlying().(*types.Interface); ok {
			return intC(it.NumMethods())
		}
		ms := p.w.prog.prog.MethodSets.MethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return intC(n)
	case "Size":
		return BVC(64, uint64(types.SizesFor("gc", "amd64").Sizeof(t)))
	case "Bits":
		return intC(int(types.SizesFor("gc", "amd64").Sizeof(t)) * 8)
	}
	panic(unsupported{"reflect.Type." + name})
}

func (p *Path) valueOf(i Iface) *RValue {
	if i.T == nil {
		return &RValue{}
	}
	if rt, ok := i.V.(*RType); ok {
		return &RValue{T: i.T, V: rt}
	}
	return &RValue{T: i.T, V: i.V}
}

// toIface packs a reflect.Value into an interface.
func (p *Path) toIface(r *RValue) Value {
	v := r.get()
	if _, ok := r.T.Underlying().(*types.Interface); ok {
		return v // Iface or LazyIface
	}
	return Iface{r.T, v}
}

// assignTo converts x for assignment to type t.
func (p *Path) assignTo(fr *Frame, x *RValue, t types.Type, what string) Value {
	if x.T == nil {
		refPanic(fr, "reflect: call of "+what+" on zero Value")
	}
	_, dstI := t.Underlying().(*types.Interface)
	_, srcI := x.T.Underlying().(*types.Interface)
	if identical(x.T, t) {
		return x.get()
	}
	if dstI {
		if srcI {
			v := x.get()
			if i := p.force(v); i.T != nil && !implements(i.T, t.Underlying().(*types.Interface)) {
				refPanic(fr, what+": value of type "+rtypeString(x.T)+" is not assignable to type "+rtypeString(t))
			}
			return v
		}
		if !implements(x.T, t.Underlying().(*types.Interface)) {
			refPanic(fr, what+": value of type "+rtypeString(x.T)+" is not assignable to type "+rtypeString(t))
		}
		return Iface{x.T, x.get()}
	}
	if types.AssignableTo(x.T, t) {
		return x.get()
	}
	refPanic(fr, what+": value of type "+rtypeString(x.T)+" is not assignable to type "+rtypeString(t))
	return nil
}

func (r *RValue) mustKind(fr *Frame, name string, ks ...reflect.Kind) {
	if r.T == nil {
		panic(targetPanic{v: fr.p.ptrIface("reflect", "ValueError", map[string]Value{"Method": "reflect.Value." + name}), stack: fr.stack()})
	}
	k := kindOf(r.T)
	for _, x := range ks {
		if x == k {
			return
		}
	}
	panic(targetPanic{v: fr.p.ptrIface("reflect", "ValueError", map[string]Value{"Method": "reflect.Value." + name, "Kind": BVC(64, uint64(k))}), stack: fr.stack()})
}

var intKinds = []reflect.Kind{reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64}
var uintKinds = []reflect.Kind{reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr}
var floatKinds = []reflect.Kind{reflect.Float32, reflect.Float64}

func (r *RValue) setCell(fr *Frame, name string) Ptr {
	if r.T == nil || r.addr == nil {
		refPanic(fr, "reflect: reflect.Value."+name+" using unaddressable value")
	}
	if r.ro {
		refPanic(fr, "reflect: reflect.Value."+name+" using value obtained using unexported field")
	}
	return r.addr
}

func fieldExported(st *types.Struct, i int) bool { return st.Field(i).Exported() }

func (r *RValue) field(fr *Frame, i int) *RValue {
	r.mustKind(fr, "Field", reflect.Struct)
	st := r.T.Underlying().(*types.Struct)
	if i < 0 || i >= st.NumFields() {
		refPanic(fr, "reflect: Field index out of range")
	}
	out := &RValue{T: st.Field(i).Type(), ro: r.ro || !fieldExported(st, i)}
	if r.addr != nil {
		s := (*r.addr).(Struct)
		out.addr = &s[i]
	} else {
		out.V = r.V.(Struct)[i]
	}
	return out
}

func rvalueMethod(name string) func(fr *Frame, args []Value) Value {
	return func(fr *Frame, args []Value) Value {
		r, ok := args[0].(*RValue)
		if !ok {
			panic(unsupported{fmt.Sprintf("reflect.Value.%s on %T", name, args[0])})
		}
		return rvalueCall(fr, r, name, args[1:])
	}
}

func rvalueCall(fr *Frame, r *RValue, name string, args []Value) Value {
	p := fr.p
	tt := p.tt
	idx := func(k int) int { return int(p.concretizeS(args[k].(*Term))) }
	switch name {
	case "IsValid":
		return BoolC(r.T != nil)
	case "Kind":
		if r.T == nil {
			return BVC(64, 0)
		}
		return BVC(64, uint64(kindOf(r.T)))
	case "Type":
		if r.T == nil {
			r.mustKind(fr, "Type")
		}
		return p.rtIface(r.T)
	case "CanAddr":
		return BoolC(r.addr != nil)
	case "CanSet":
		return BoolC(r.addr != nil && !r.ro)
	case "CanInterface":
		return BoolC(!r.ro)
	case "Addr":
		if r.addr == nil {
			refPanic(fr, "reflect.Value.Addr of unaddressable value")
		}
		return &RValue{T: types.NewPointer(r.T), V: r.addr, ro: r.ro}
	case "Interface":
		if r.T == nil {
			r.mustKind(fr, "Interface")
		}
		if r.ro {
			refPanic(fr, "reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return p.toIface(r)
	case "Elem":
		r.mustKind(fr, "Elem", reflect.Interface, reflect.Ptr)
		if pt, ok := r.T.Underlying().(*types.Pointer); ok {
			c, ok := r.get().(Ptr)
			if !ok {
				panic(unsupported{fmt.Sprintf("reflect Elem of %T", r.get())})
			}
			if c == nil {
				return &RValue{}
			}
			return &RValue{T: pt.Elem(), addr: c, ro: r.ro}
		}
		e := p.valueOf(p.force(r.get()))
		e.ro = r.ro
		return e
	case "IsNil":
		r.mustKind(fr, "IsNil", reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer)
		switch x := r.get().(type) {
		case Ptr:
			return BoolC(x == nil)
		case []Value:
			return BoolC(x == nil)
		case *MapV:
			return BoolC(x == nil)
		case *ChanV:
			return BoolC(x == nil)
		case Iface:
			return BoolC(x.T == nil)
		case *LazyIface:
			return BoolC(p.lazyIsNull(x))
		case *RType:
			return BoolC(x == nil)
		default:
			return BoolC(isNilFn(x))
		}
	case "IsZero":
		if r.T == nil {
			r.mustKind(fr, "IsZero")
		}
		switch x := r.get().(type) {
		case *MapV, *ChanV, []Value, Ptr, Iface, *LazyIface:
			return rvalueCall(fr, r, "IsNil", nil)
		case *ssa.Function, *Closure, *HostFunc:
			return BoolC(isNilFn(x))
		default:
			_ = x
		}
		if types.Comparable(r.T) {
			return p.eq(fr, r.T, r.get(), zero(r.T))
		}
		st, ok := r.get().(Struct)
		if !ok {
			panic(unsupported{"IsZero " + typeStr(r.T)})
		}
		res := True
		for i := range st {
			res = tt.And(res, rvalueCall(fr, r.field(fr, i), "IsZero", nil).(*Term))
		}
		return res
	case "Bool":
		r.mustKind(fr, "Bool", reflect.Bool)
		return r.get()
	case "Int":
		r.mustKind(fr, "Int", intKinds...)
		return tt.Resize(r.get().(*Term), 64, true)
	case "Uint":
		r.mustKind(fr, "Uint", uintKinds...)
		return tt.Resize(r.get().(*Term), 64, false)
	case "Float":
		r.mustKind(fr, "Float", floatKinds...)
		if f, ok := r.get().(F32); ok {
			return FPC(float64(f))
		}
		return r.get()
	case "String":
		if r.T == nil {
			return "<invalid Value>"
		}
		if kindOf(r.T) == reflect.String {
			return r.get()
		}
		return "<" + rtypeString(r.T) + " Value>"
	case "Len", "Cap":
		r.mustKind(fr, name, reflect.Array, reflect.Chan, reflect.Map, reflect.Slice, reflect.String, reflect.Ptr)
		switch x := r.get().(type) {
		case string, *SymStr:
			return strLenTerm(x)
		case []Value:
			if name == "Cap" {
				return intC(cap(x))
			}
			return intC(len(x))
		case Array:
			return intC(len(x))
		case *MapV:
			if x == nil {
				return intC(0)
			}
			return intC(x.Len())
		case *ChanV:
			return intC(len(x.buf))
		}
	case "Index":
		r.mustKind(fr, "Index", reflect.Array, reflect.Slice, reflect.String)
		i := idx(0)
		switch x := r.get().(type) {
		case []Value:
			if i < 0 || i >= len(x) {
				refPanic(fr, "reflect: slice index out of range")
			}
			return &RValue{T: elemType(r.T), addr: &x[i], ro: r.ro}
		case Array:
			if i < 0 || i >= len(x) {
				refPanic(fr, "reflect: array index out of range")
			}
			if r.addr != nil {
				a := (*r.addr).(Array)
				return &RValue{T: elemType(r.T), addr: &a[i], ro: r.ro}
			}
			return &RValue{T: elemType(r.T), V: x[i], ro: r.ro}
		case string, *SymStr:
			return &RValue{T: types.Typ[types.Uint8], V: fr.strIndex(x, args[0], types.Typ[types.Int])}
		}
	case "Field":
		return r.field(fr, idx(0))
	case "NumField":
		r.mustKind(fr, "NumField", reflect.Struct)
		return intC(r.T.Underlying().(*types.Struct).NumFields())
	case "FieldByName":
		r.mustKind(fr, "FieldByName", reflect.Struct)
		n, _ := concreteStr(args[0])
		st := r.T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return r.field(fr, i)
			}
		}
		return &RValue{}
	case "FieldByIndex":
		cur := r
		for k, x := range args[0].([]Value) {
			if k > 0 && kindOf(cur.T) == reflect.Ptr && kindOf(elemType(cur.T)) == reflect.Struct {
				c := cur.get().(Ptr)
				if c == nil {
					refPanic(fr, "reflect: indirection through nil pointer to embedded struct field")
				}
				cur = &RValue{T: elemType(cur.T), addr: c, ro: cur.ro}
			}
			cur = cur.field(fr, int(p.concretizeS(x.(*Term))))
		}
		return cur
	case "MapKeys":
		r.mustKind(fr, "MapKeys", reflect.Map)
		m := r.get().(*MapV)
		out := []Value{}
		if m != nil {
			kt := r.T.Underlying().(*types.Map).Key()
			for _, e := range m.ents {
				if !e.dead {
					out = append(out, &RValue{T: kt, V: e.K})
				}
			}
		}
		return out
	case "MapIndex":
		r.mustKind(fr, "MapIndex", reflect.Map)
		mt := r.T.Underlying().(*types.Map)
		k := p.assignTo(fr, args[0].(*RValue), mt.Key(), "reflect.Value.MapIndex")
		e := p.mapFind(fr, r.get().(*MapV), k, mt.Key())
		if e == nil {
			return &RValue{}
		}
		return &RValue{T: mt.Elem(), V: copyVal(e.V)}
	case "SetMapIndex":
		r.mustKind(fr, "SetMapIndex", reflect.Map)
		mt := r.T.Underlying().(*types.Map)
		k := p.assignTo(fr, args[0].(*RValue), mt.Key(), "reflect.Value.SetMapIndex")
		ev := args[1].(*RValue)
		m := r.get().(*MapV)
		if ev.T == nil {
			p.mapDelete(fr, m, k, mt.Key())
			return nil
		}
		v := p.assignTo(fr, ev, mt.Elem(), "reflect.Value.SetMapIndex")
		if m == nil {
			panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "assignment to entry in nil map"}, stack: fr.stack()})
		}
		p.mapAccess(fr, m, true)
		p.mapSet(fr, m, k, v, mt.Key())
		return nil
	case "Set":
		c := r.setCell(fr, "Set")
		x := args[0].(*RValue)
		storeTo(c, p.assignTo(fr, x, r.T, "reflect.Set"))
		return nil
	case "SetBool":
		c := r.setCell(fr, name)
		r.mustKind(fr, name, reflect.Bool)
		*c = args[0]
		return nil
	case "SetInt":
		c := r.setCell(fr, name)
		r.mustKind(fr, name, intKinds...)
		*c = tt.Resize(args[0].(*Term), bwidth(basicOf(r.T)), true)
		return nil
	case "SetUint":
		c := r.setCell(fr, name)
		r.mustKind(fr, name, uintKinds...)
		*c = tt.Resize(args[0].(*Term), bwidth(basicOf(r.T)), false)
		return nil
	case "SetFloat":
		c := r.setCell(fr, name)
		r.mustKind(fr, name, floatKinds...)
		if basicOf(r.T).Kind() == types.Float32 {
			*c = F32(float32(p.concF(args[0].(*Term))))
		} else {
			*c = args[0]
		}
		return nil
	case "SetString":
		c := r.setCell(fr, name)
		r.mustKind(fr, name, reflect.String)
		*c = args[0]
		return nil
	case "SetLen":
		c := r.setCell(fr, name)
		*c = (*c).([]Value)[:idx(0)]
		return nil
	case "Slice":
		switch x := r.get().(type) {
		case []Value:
			return &RValue{T: r.T, V: x[idx(0):idx(1)]}
		}
	case "NumMethod":
		return rtypeMethod(fr, &RType{r.T}, "NumMethod", nil)
	case "Convert":
		t := asRType(p, args[0]).T
		if _, ok := t.Underlying().(*types.Interface); ok {
			return &RValue{T: t, V: p.assignTo(fr, r, t, "reflect.Value.Convert")}
		}
		return &RValue{T: t, V: fr.conv(t, r.T, r.get())}
	case "Pointer", "UnsafePointer":
		return BVC(64, p.ptrID(r.get()))
	case "Comparable":
		return BoolC(r.T == nil || types.Comparable(r.T))
	case "Equal":
		return p.eq(fr, r.T, r.get(), args[0].(*RValue).get())
	case "OverflowInt":
		w := bwidth(basicOf(r.T))
		x := args[0].(*Term)
		return tt.Not(tt.Eq(tt.Resize(tt.Resize(x, w, true), 64, true), x))
	case "OverflowUint":
		w := bwidth(basicOf(r.T))
		x := args[0].(*Term)
		return tt.Not(tt.Eq(tt.Resize(tt.Resize(x, w, false), 64, false), x))
	case "Call":
		r.mustKind(fr, "Call", reflect.Func)
		sig := r.T.Underlying().(*types.Signature)
		fn := r.get()
		if isNilFn(fn) {
			refPanic(fr, "reflect: reflect.Value.Call: call of nil function")
		}
		in := args[0].([]Value)
		np := sig.Params().Len()
		var cargs []Value
		if sig.Variadic() {
			np--
			if len(in) < np {
				refPanic(fr, "reflect: Call with too few input arguments")
			}
		} else {
			if len(in) < np {
				refPanic(fr, "reflect: Call with too few input arguments")
			}
			if len(in) > np {
				refPanic(fr, "reflect: Call with too many input arguments")
			}
		}
		for _, a := range in {
			if a.(*RValue).T == nil {
				refPanic(fr, "reflect: Call using zero Value argument")
			}
		}
		for i := 0; i < np; i++ {
			x := in[i].(*RValue)
			t := sig.Params().At(i).Type()
			if !types.AssignableTo(x.T, t) {
				refPanic(fr, "reflect: Call using "+rtypeString(x.T)+" as type "+rtypeString(t))
			}
			cargs = append(cargs, p.assignTo(fr, x, t, "reflect.Value.Call"))
		}
		if sig.Variadic() {
			et := sig.Params().At(np).Type().Underlying().(*types.Slice).Elem()
			rest := []Value{}
			for _, a := range in[np:] {
				x := a.(*RValue)
				if !types.AssignableTo(x.T, et) {
					refPanic(fr, "reflect: cannot use "+rtypeString(x.T)+" as type "+rtypeString(et)+" in Call")
				}
				rest = append(rest, p.assignTo(fr, x, et, "reflect.Value.Call"))
			}
			cargs = append(cargs, rest)
		}
		res := p.callValue(fr, fn, cargs)
		out := []Value{}
		switch n := sig.Results().Len(); n {
		case 0:
		case 1:
			out = append(out, &RValue{T: sig.Results().At(0).Type(), V: res})
		default:
			for i, v := range res.(Tuple) {
				out = append(out, &RValue{T: sig.Results().At(i).Type(), V: v})
			}
		}
		return out
	case "MapRange":
		panic(unsupported{"reflect MapRange"})
	}
	panic(unsupported{"reflect.Value." + name + " on " + fmt.Sprint(r.T)})
}

func (p *Path) ptrID(v Value) uint64 {
	switch x := v.(type) {
	case Ptr:
		if x == nil {
			return 0
		}
	case unsafePtr:
		return p.ptrID(x.V)
	}
	k := v
	switch x := v.(type) {
	case []Value:
		if len(x) == 0 {
			return 0xc000000010
		}
		k = &x[0]
	case sliceData:
		return p.ptrID(x.S)
	case stringData:
		return 0xc000000020
	}
	id, ok := p.ptrIDs[k]
	if !ok {
		id = 0xc000100000 + uint64(len(p.ptrIDs))*64
		p.ptrIDs[k] = id
	}
	return id
}

// deepEqual is reflect.DeepEqual.
func (p *Path) deepEqual(fr *Frame, a, b Iface, depth int) *Term {
	if depth > 40 {
		panic(unsupported{"DeepEqual depth"})
	}
	if a.T == nil || b.T == nil {
		return BoolC(a.T == nil && b.T == nil)
	}
	if !identical(a.T, b.T) {
		return False
	}
	return p.deepEq(fr, a.T, a.V, b.V, depth)
}

func (p *Path) deepEq(fr *Frame, t types.Type, a, b Value, depth int) *Term {
	tt := p.tt
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if la, ok := a.(*LazyIface); ok {
			if lb, ok := b.(*LazyIface); ok && la.Node == lb.Node && la.UseNumber == lb.UseNumber {
				return True
			}
		}
		return p.deepEqual(fr, p.force(a), p.force(b), depth+1)
	case *types.Slice:
		x, y := a.([]Value), b.([]Value)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return False
		}
		r := True
		for i := range x {
			r = tt.And(r, p.deepEq(fr, u.Elem(), x[i], y[i], depth+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		r := True
		for i := range x {
			r = tt.And(r, p.deepEq(fr, u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		r := True
		for i := range x {
			r = tt.And(r, p.deepEq(fr, u.Field(i).Type(), x[i], y[i], depth+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Map:
		x, y := a.(*MapV), b.(*MapV)
		if (x == nil) != (y == nil) {
			return False
		}
		if x == nil || x == y {
			return True
		}
		if x.Len() != y.Len() {
			return False
		}
		r := True
		for _, e := range x.ents {
			if e.dead {
				continue
			}
			g := p.mapFind(fr, y, e.K, u.Key())
			if g == nil {
				return False
			}
			r = tt.And(r, p.deepEq(fr, u.Elem(), e.V, g.V, depth+1))
			if r == False {
				return r
			}
		}
		return r
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			return p.eq(fr, t, a, b)
		}
		if x == y {
			return True
		}
		if x == nil || y == nil {
			return False
		}
		return p.deepEq(fr, u.Elem(), *x, *y, depth+1)
	case *types.Signature:
		return BoolC(isNilFn(a) && isNilFn(b))
	}
	return p.eq(fr, t, a, b)
}
