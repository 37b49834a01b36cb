package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                 bool, integers, float64
//	F32                   float32 (concrete only)
//	complex128            complex (concrete only)
//	string | *SymStr      strings
//	Ptr                   pointers (to a cell)
//	Struct, Array         aggregates
//	[]Value               slices
//	*MapV                 maps
//	*ChanV                channels
//	*ssa.Function, *Closure, *ssa.Builtin, *HostFunc   functions
//	Iface | *LazyIface    interfaces
//	Tuple                 multiple results
//	*RType, *RValue       reflect.Type (dynamic value) and reflect.Value
//	*Super                one opaque string/byte element
//	Poison                unusable value from an initialiser we could not run
type Value interface{}

type Ptr = *Value
type Struct []Value
type Array []Value
type Tuple []Value
type F32 float32

// SymF32 is a symbolic float32, held as the float64 of the same value.
type SymF32 struct{ T *Term }

type Poison struct{ why string }

type Closure struct {
	Fn  *ssa.Function
	Env []Value
}

type HostFunc struct {
	Name string
	F    func(fr *Frame, args []Value) Value
}

type Iface struct {
	T types.Type // nil for the nil interface
	V Value
}

// LazyIface is an interface{} decoded from a JSON node whose kind is not yet
// decided; it is resolved on first inspection.
type LazyIface struct {
	Node      *JNode
	UseNumber bool
	Done      bool
	Val       Iface
}

// SymStr is a string with symbolic bytes and/or length. Len nil means len(B).
type SymStr struct {
	B   []Value // *Term (BV8) or *Super
	Len *Term   // nil, or BV64 with Len <= len(B)
}

// Super is one opaque element of a string / byte slice standing for a whole
// piece of text.
type SuperKind int

const (
	SupJSON  SuperKind = iota // text of a JSON document
	SupDec                    // decimal text of a symbolic integer
	SupFloat                  // JSON text of a finite symbolic float (non-integer syntax)
	SupB64                    // base64 of the contained elements
	SupToken                  // signed token
	SupFmt                    // opaque formatted text
	SupBig                    // decimal digits of an unbounded integer
)

type Super struct {
	Kind   SuperKind
	Node   *JNode
	T      *Term
	Signed bool
	Elems  []Value
	Info   interface{}
	Tag    string
}

type unsafePtr struct{ V Value }
type sliceData struct{ S []Value }
type stringData struct{ S Value }

type mapEntry struct {
	K, V Value
	dead bool
}

type MapV struct {
	ents []*mapEntry
	idx  map[interface{}]*mapEntry // concrete keys
	nsym int                       // live entries with non-concrete keys
	n    int
}

func newMap() *MapV { return &MapV{idx: map[interface{}]*mapEntry{}} }

// concKey gives a host-comparable key for a fully concrete key value.
func concKey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *Term:
		if x.Op == OpConst {
			if x.W == WFP {
				f := x.F()
				return f, true
			}
			return [2]uint64{uint64(x.W), x.C}, true
		}
	case Iface:
		if x.T == nil {
			return "<nil iface>", true
		}
		k, ok := concKey(x.V)
		if !ok {
			return nil, false
		}
		return [2]interface{}{typeKey(x.T), k}, true
	case Ptr:
		return x, true
	case *ChanV:
		return x, true
	case Array:
		return aggKey([]Value(x))
	case Struct:
		return aggKey([]Value(x))
	case *RType:
		return "rt:" + typeKey(x.T), true
	case unsafePtr:
		return concKey(x.V)
	case nil:
		return nil, true
	}
	return nil, false
}

func aggKey(vs []Value) (interface{}, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := concKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return "agg:" + sb.String(), true
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (m *MapV) Len() int { return m.n }

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	id     int
	elem   types.Type
	timer  bool
	name   string
}

// -------------------------------------------------------------- strings

func isByteTerm(v Value) (*Term, bool) { t, ok := v.(*Term); return t, ok }

// strElems gives the elements of a string with a concrete length.
func strElems(s Value) ([]Value, bool) {
	switch x := s.(type) {
	case string:
		out := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			out[i] = BVC(8, uint64(x[i]))
		}
		return out, true
	case *SymStr:
		if x.Len == nil {
			return x.B, true
		}
		if x.Len.IsConst() {
			return x.B[:x.Len.C], true
		}
	}
	return nil, false
}

// mkStr builds a string value from elements, collapsing to a Go string when
// everything is concrete.
func mkStr(elems []Value) Value {
	buf := make([]byte, len(elems))
	for i, e := range elems {
		t, ok := e.(*Term)
		if !ok || !t.IsConst() {
			cp := make([]Value, len(elems))
			copy(cp, elems)
			return &SymStr{B: cp}
		}
		buf[i] = byte(t.C)
	}
	return string(buf)
}

func strLenTerm(s Value) *Term {
	switch x := s.(type) {
	case string:
		return BVC(64, uint64(len(x)))
	case *SymStr:
		if x.Len != nil {
			return x.Len
		}
		return BVC(64, uint64(len(x.B)))
	}
	panic(fmt.Sprintf("strLenTerm %T", s))
}

func concreteStr(s Value) (string, bool) {
	switch x := s.(type) {
	case string:
		return x, true
	case *SymStr:
		el, ok := strElems(x)
		if !ok {
			return "", false
		}
		if r, ok := mkStr(el).(string); ok {
			return r, true
		}
	}
	return "", false
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		c := make(Struct, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	case Array:
		c := make(Array, len(x))
		for i, e := range x {
			c[i] = copyVal(e)
		}
		return c
	}
	return v
}
