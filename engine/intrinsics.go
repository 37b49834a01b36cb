package main

import (
	"fmt"
	"go/types"
	"math"
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type notHandled struct{}

type intrFn func(fr *Frame, args []Value) Value

var intr = map[string]intrFn{}

// packages whose functions all do nothing
var stubPkgs = map[string]bool{
	"github.com/sirupsen/logrus": true,
	"log":                        true,
	"internal/race":              true,
	"internal/godebug":           true,
}

func lookupIntrinsic(fn *ssa.Function) func(fr *Frame, args []Value) Value {
	if fn.Synthetic == "package initializer" {
		return func(fr *Frame, args []Value) Value { return nil }
	}
	f := fn
	if o := fn.Origin(); o != nil {
		f = o
	}
	name := f.String()
	if i, ok := intr[name]; ok {
		return i
	}
	pkg := fnPkgPath(fn)
	if pkg == "reflect" && strings.HasPrefix(name, "(reflect.Value).") {
		return rvalueMethod(fn.Name())
	}
	if stubPkgs[pkg] && fn.Parent() == nil {
		return stubFor(fn)
	}
	return nil
}

func stubFor(fn *ssa.Function) intrFn {
	name := fn.Name()
	return func(fr *Frame, args []Value) Value {
		p := fr.p
		switch {
		case strings.HasPrefix(name, "Panic"):
			panic(targetPanic{v: Iface{T: tString, V: "log." + name}, stack: fr.stack()})
		case strings.HasPrefix(name, "Fatal"):
			panic(targetPanic{v: Iface{T: tString, V: "log." + name + " (process exit)"}, stack: fr.stack()})
		}
		res := fn.Signature.Results()
		if res.Len() == 1 {
			// keep chained loggers usable
			if pt, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
				if len(args) > 0 && fn.Signature.Recv() != nil && identical(fn.Signature.Recv().Type(), res.At(0).Type()) {
					if c, ok := args[0].(Ptr); ok && c != nil {
						return c
					}
				}
				return p.newCell(zero(pt.Elem()))
			}
		}
		return zeroResult(fn)
	}
}

func nilErr() Iface { return Iface{} }

func (p *Path) tup(vs ...Value) Tuple { return Tuple(vs) }

// concBytes gives the host string of a concrete string/byte slice.
func concBytes(v Value) (string, bool) {
	switch x := v.(type) {
	case string, *SymStr:
		return concreteStr(x)
	case []Value:
		s, ok := mkStr(x).(string)
		return s, ok
	}
	return "", false
}

func elemsOf(p *Path, v Value) []Value {
	switch x := v.(type) {
	case string, *SymStr:
		return p.concLen(x)
	case []Value:
		return x
	}
	panic(unsupported{fmt.Sprintf("elemsOf %T", v)})
}

// indexByte searches for byte c (forking on symbolic bytes).
func (p *Path) indexByte(el []Value, c *Term, rev bool) *Term {
	n := len(el)
	for k := 0; k < n; k++ {
		i := k
		if rev {
			i = n - 1 - k
		}
		t, ok := el[i].(*Term)
		if !ok {
			sp := el[i].(*Super)
			if c.IsConst() && superExcludes(sp, byte(c.C)) {
				continue
			}
			panic(unsupported{"byte search in opaque text"})
		}
		if p.branch(p.tt.Eq(t, c)) {
			return intC(i)
		}
	}
	return intC(-1)
}

// superExcludes: the text of sp can never contain c.
func superExcludes(sp *Super, c byte) bool {
	switch sp.Kind {
	case SupDec, SupBig:
		return !(c >= '0' && c <= '9' || c == '-')
	case SupFloat:
		return !(c >= '0' && c <= '9' || c == '-' || c == '.' || c == 'e' || c == '+')
	case SupB64:
		return !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '+' || c == '/' || c == '=')
	case SupToken:
		return !(c >= '0' && c <= '9' || c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c == '-' || c == '_' || c == '.')
	}
	return false
}

// elemsEq compares element lists that contain opaque elements.
func (p *Path) elemsEq(a, b []Value) *Term {
	tt := p.tt
	r := True
	for len(a) > 0 && len(b) > 0 {
		x, ok1 := a[0].(*Term)
		y, ok2 := b[0].(*Term)
		switch {
		case ok1 && ok2:
			r = tt.And(r, tt.Eq(x, y))
			if r == False {
				return r
			}
			a, b = a[1:], b[1:]
			continue
		case !ok1 && !ok2:
			sx, sy := a[0].(*Super), b[0].(*Super)
			e, ok := p.superEq(sx, sy)
			if !ok {
				panic(unsupported{"comparison of different opaque texts"})
			}
			r = tt.And(r, e)
			if r == False {
				return r
			}
			a, b = a[1:], b[1:]
			continue
		}
		// one side opaque
		if ok1 {
			a, b = b, a
			x, ok1, y, ok2 = y, ok2, x, ok1
		}
		sp := a[0].(*Super)
		if y.IsConst() && superExcludes(sp, byte(y.C)) {
			return False
		}
		switch sp.Kind {
		case SupToken:
			if len(a) == 1 && len(b) < 20 {
				return False // a signed token is longer than that
			}
		case SupDec:
			if len(a) == 1 {
				s, ok := mkStr(b).(string)
				if !ok {
					panic(unsupported{"decimal text against symbolic text"})
				}
				var c *Term
				if sp.Signed {
					i, err := strconv.ParseInt(s, 10, 64)
					if err != nil || strconv.FormatInt(i, 10) != s {
						return False
					}
					c = BVC(64, uint64(i))
				} else {
					i, err := strconv.ParseUint(s, 10, 64)
					if err != nil || strconv.FormatUint(i, 10) != s {
						return False
					}
					c = BVC(64, i)
				}
				return tt.And(r, tt.Eq(tt.Resize(sp.T, 64, sp.Signed), c))
			}
		case SupJSON:
			n := p.resolve(sp.Node)
			if y.IsConst() && (n.Kind == JArr || n.Kind == JObj || n.Kind == JStr) {
				if first := p.byteOf(sp); first != Value(y) && first.(*Term).C != y.C {
					return False
				}
			}
			if len(a) == 1 {
				switch n.Kind {
				case JNull, JBool, JNumK, JStr:
					ex := p.expandText(n)
					if len(ex) == 1 {
						if s2, ok := ex[0].(*Super); ok && s2.Kind == SupJSON {
							break
						}
					}
					return tt.And(r, p.elemsEq(ex, b))
				case JArr, JObj:
					c := byte('[')
					if n.Kind == JObj {
						c = '{'
					}
					if y.IsConst() && byte(y.C) != c {
						return False
					}
					if s, ok := mkStr(b).(string); ok {
						if (s == "[]" && n.Kind == JArr) || (s == "{}" && n.Kind == JObj) {
							return tt.And(r, BoolC(len(n.Arr)+len(n.Vals) == 0))
						}
					}
				}
			}
			if ex := p.expandFull(n); ex != nil && sp.Tag == "" {
				a = append(append([]Value{}, ex...), a[1:]...)
				continue
			}
		}
		panic(unsupported{"comparison with opaque text"})
	}
	if len(a) == 0 && len(b) == 0 {
		return r
	}
	return False // every element stands for at least one byte
}

func (p *Path) superEq(a, b *Super) (*Term, bool) {
	tt := p.tt
	if a == b {
		return True, true
	}
	if a.Kind != b.Kind {
		return nil, false
	}
	switch a.Kind {
	case SupDec:
		if a.Signed == b.Signed {
			return tt.Eq(tt.Resize(a.T, 64, a.Signed), tt.Resize(b.T, 64, b.Signed)), true
		}
	case SupFloat:
		return tt.FCmp(OpFEq, a.T, b.T), true
	case SupJSON:
		if a.Tag == b.Tag {
			return p.textEq(a.Node, b.Node), true
		}
	case SupB64:
		return p.elemsEq(a.Elems, b.Elems), true
	case SupBig:
		return BoolC(a.Tag == b.Tag), true
	case SupToken:
		return BoolC(a.Info == b.Info), true
	}
	return nil, false
}

func strArgs(p *Path, args []Value) ([]string, bool) {
	var out []string
	for _, a := range args {
		switch a.(type) {
		case string, *SymStr:
		default:
			continue
		}
		s, ok := concreteStr(a)
		if !ok {
			return nil, false
		}
		out = append(out, s)
	}
	return out, true
}

func reg(name string, f intrFn) { intr[name] = f }

func init() {
	noop := func(fr *Frame, args []Value) Value { return nil }
	// ---- unsafe / runtime
	reg("internal/abi.NoEscape", func(fr *Frame, args []Value) Value { return args[0] })
	reg("internal/abi.Escape", func(fr *Frame, args []Value) Value { return args[0] })
	reg("strings.noescape", func(fr *Frame, args []Value) Value { return args[0] })
	reg("runtime.SetFinalizer", noop)
	reg("runtime.KeepAlive", noop)
	reg("runtime.GC", noop)
	reg("runtime.Gosched", func(fr *Frame, args []Value) Value { fr.p.yield(fr); return nil })
	reg("runtime.Callers", func(fr *Frame, args []Value) Value { return intC(0) })
	reg("runtime.Caller", func(fr *Frame, args []Value) Value { return Tuple{BVC(64, 0), "", intC(0), False} })
	reg("runtime.NumGoroutine", func(fr *Frame, args []Value) Value { return intC(len(fr.p.runnable())) })
	reg("runtime.Goexit", func(fr *Frame, args []Value) Value { panic(goexit{}) })
	reg("runtime.GOMAXPROCS", func(fr *Frame, args []Value) Value { return intC(8) })
	reg("runtime.NumCPU", func(fr *Frame, args []Value) Value { return intC(8) })
	reg("runtime/debug.Stack", func(fr *Frame, args []Value) Value { return []Value{} })
	reg("runtime/debug.PrintStack", noop)
	reg("(runtime.errorString).Error", func(fr *Frame, args []Value) Value {
		return fr.p.concat("runtime error: ", args[0])
	})
	reg("(runtime.plainErrorString).Error", func(fr *Frame, args []Value) Value { return args[0] })
	reg("os.Exit", func(fr *Frame, args []Value) Value {
		panic(targetPanic{v: Iface{T: tString, V: "os.Exit"}, stack: fr.stack()})
	})
	reg("os.Getenv", func(fr *Frame, args []Value) Value { return "" })
	reg("os.Open", func(fr *Frame, args []Value) Value {
		panic(unsupported{"file access"})
	})
	reg("github.com/pkg/errors.callers", func(fr *Frame, args []Value) Value { return Ptr(nil) })

	// ---- bytealg
	reg("internal/bytealg.IndexByteString", func(fr *Frame, args []Value) Value {
		return fr.p.indexByte(fr.p.concLen(args[0]), args[1].(*Term), false)
	})
	reg("internal/bytealg.IndexByte", func(fr *Frame, args []Value) Value {
		return fr.p.indexByte(args[0].([]Value), args[1].(*Term), false)
	})
	reg("internal/bytealg.LastIndexByteString", func(fr *Frame, args []Value) Value {
		return fr.p.indexByte(fr.p.concLen(args[0]), args[1].(*Term), true)
	})
	reg("internal/bytealg.LastIndexByte", func(fr *Frame, args []Value) Value {
		return fr.p.indexByte(args[0].([]Value), args[1].(*Term), true)
	})
	count := func(fr *Frame, args []Value) Value {
		el := elemsOf(fr.p, args[0])
		n := 0
		for _, e := range el {
			if sp, ok := e.(*Super); ok {
				if c := args[1].(*Term); c.IsConst() && superExcludes(sp, byte(c.C)) {
					continue
				}
				panic(unsupported{"count in opaque text"})
			}
			if fr.p.branch(fr.p.tt.Eq(e.(*Term), args[1].(*Term))) {
				n++
			}
		}
		return intC(n)
	}
	reg("internal/bytealg.CountString", count)
	reg("internal/bytealg.Count", count)
	indexStr := func(fr *Frame, args []Value) Value {
		p := fr.p
		s, sep := elemsOf(p, args[0]), elemsOf(p, args[1])
		if len(sep) == 0 {
			return intC(0)
		}
		for i := 0; i+len(sep) <= len(s); i++ {
			r := True
			for k := range sep {
				x, ok1 := s[i+k].(*Term)
				y, ok2 := sep[k].(*Term)
				if !ok1 && ok2 && y.IsConst() && superExcludes(s[i+k].(*Super), byte(y.C)) {
					r = False
					break
				}
				if !ok1 || !ok2 {
					panic(unsupported{"substring search in opaque text"})
				}
				r = p.tt.And(r, p.tt.Eq(x, y))
			}
			if p.branch(r) {
				return intC(i)
			}
		}
		return intC(-1)
	}
	reg("internal/bytealg.IndexString", indexStr)
	reg("internal/bytealg.Index", indexStr)
	reg("strings.Index", indexStr)
	reg("bytes.Index", indexStr)
	reg("bytes.Equal", func(fr *Frame, args []Value) Value {
		return fr.p.strEq(mkStr(args[0].([]Value)), mkStr(args[1].([]Value)))
	})
	reg("internal/bytealg.Equal", intr["bytes.Equal"])
	cmp := func(fr *Frame, args []Value) Value {
		p := fr.p
		x, y := mkStr(elemsOf(p, args[0])), mkStr(elemsOf(p, args[1]))
		if p.branch(p.strEq(x, y)) {
			return intC(0)
		}
		return p.tt.Ite(p.strLess(x, y), intC(-1), intC(1))
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("strings.Compare", cmp)
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, args []Value) Value {
		n := int(fr.p.concretize(args[0].(*Term)))
		return makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("internal/stringslite.Index", indexStr)
	reg("internal/stringslite.Clone", func(fr *Frame, args []Value) Value { return args[0] })
	reg("strings.Clone", func(fr *Frame, args []Value) Value { return args[0] })
	reg("internal/stringslite.IndexByte", intr["internal/bytealg.IndexByteString"])
	hostStr := func(name string, f func(s []string) Value) {
		reg(name, func(fr *Frame, args []Value) Value {
			s, ok := strArgs(fr.p, args)
			if !ok {
				return notHandled{}
			}
			return f(s)
		})
	}
	hostStr("strings.ToLower", func(s []string) Value { return strings.ToLower(s[0]) })
	hostStr("strings.ToUpper", func(s []string) Value { return strings.ToUpper(s[0]) })
	trimSpace := func(fr *Frame, arg Value) ([]Value, bool) {
		p := fr.p
		el := elemsOf(p, arg)
		for _, e := range el {
			if s, ok := e.(*Super); ok {
				if s.Kind != SupDec && s.Kind != SupJSON {
					return nil, false
				}
			} else if _, ok := e.(*Term); !ok {
				return nil, false
			}
		}
		wide := false
		space := func(v Value) bool {
			t, ok := v.(*Term) // encoded values begin and end with a character that is no space
			if !ok {
				return false
			}
			if p.branch(p.tt.Cmp(OpULE, BVC(8, 0x80), t)) {
				wide = true
				return false
			}
			c := BoolC(false)
			for _, b := range []uint64{' ', '\t', '\n', '\v', '\f', '\r'} {
				c = p.tt.Or(c, p.tt.Eq(t, BVC(8, b)))
			}
			return p.branch(c)
		}
		for len(el) > 0 && space(el[0]) {
			el = el[1:]
		}
		for len(el) > 0 && space(el[len(el)-1]) {
			el = el[:len(el)-1]
		}
		return el, !wide
	}
	reg("strings.TrimSpace", func(fr *Frame, args []Value) Value {
		if s, ok := concreteStr(args[0]); ok {
			return strings.TrimSpace(s)
		}
		if el, ok := trimSpace(fr, args[0]); ok {
			return mkStr(el)
		}
		return notHandled{}
	})
	hostStr("strings.EqualFold", func(s []string) Value { return BoolC(strings.EqualFold(s[0], s[1])) })
	hostStr("strings.ReplaceAll", func(s []string) Value { return strings.ReplaceAll(s[0], s[1], s[2]) })
	hostStr("strings.Trim", func(s []string) Value { return strings.Trim(s[0], s[1]) })
	hostStr("net/http.CanonicalHeaderKey", func(s []string) Value {
		return notHandled{}
	})

	// ---- crypto/subtle
	reg("crypto/subtle.ConstantTimeCompare", func(fr *Frame, args []Value) Value {
		p := fr.p
		c := p.strEq(mkStr(args[0].([]Value)), mkStr(args[1].([]Value)))
		return p.tt.Ite(c, intC(1), intC(0))
	})

	// ---- strconv
	reg("strconv.Itoa", func(fr *Frame, args []Value) Value { return mkStr(decElems(args[0].(*Term), true)) })
	reg("strconv.FormatInt", func(fr *Frame, args []Value) Value {
		if b := args[1].(*Term); b.IsConst() && b.C == 10 {
			return mkStr(decElems(args[0].(*Term), true))
		}
		return notHandled{}
	})
	reg("strconv.FormatUint", func(fr *Frame, args []Value) Value {
		if b := args[1].(*Term); b.IsConst() && b.C == 10 {
			return mkStr(decElems(args[0].(*Term), false))
		}
		return notHandled{}
	})
	soleSuper := func(v Value) *Super {
		if s, ok := v.(*SymStr); ok {
			if el, ok := strElems(s); ok && len(el) == 1 {
				if sp, ok := el[0].(*Super); ok {
					return sp
				}
			}
		}
		return nil
	}
	numErr := func(p *Path, fn string, s Value, what string) Iface {
		e := *p.globalPtr(p.w.prog.byPath["strconv"].Var(what))
		return p.ptrIface("strconv", "NumError", map[string]Value{"Func": fn, "Num": s, "Err": e})
	}
	parseInt := func(fn string) intrFn {
		return func(fr *Frame, args []Value) Value {
			p := fr.p
			tt := p.tt
			base, bits := 10, 64
			if fn == "ParseInt" {
				base = int(p.concretizeS(args[1].(*Term)))
				bits = int(p.concretizeS(args[2].(*Term)))
			}
			if s, ok := concreteStr(args[0]); ok {
				i, err := strconv.ParseInt(s, base, bits)
				if err == nil {
					return Tuple{BVC(64, uint64(i)), nilErr()}
				}
				what := "ErrSyntax"
				if err.(*strconv.NumError).Err == strconv.ErrRange {
					what = "ErrRange"
				}
				return Tuple{BVC(64, uint64(i)), numErr(p, fn, s, what)}
			}
			if el, ok := strElems(args[0]); ok && len(el) > 0 {
				if sp, ok := el[0].(*Super); ok && sp.Kind == SupJSON {
					switch p.resolve(sp.Node).Kind {
					case JArr, JObj, JStr, JNull, JBool:
						return Tuple{BVC(64, 0), numErr(p, fn, args[0], "ErrSyntax")}
					}
				}
			}
			if sp := soleSuper(args[0]); sp != nil && (base == 10 || base == 0) {
				switch sp.Kind {
				case SupDec:
					if !sp.Signed {
						if p.branch(tt.Cmp(OpSLT, tt.Resize(sp.T, 64, false), BVC(64, 0))) {
							return Tuple{BVC(64, math.MaxInt64), numErr(p, fn, args[0], "ErrRange")}
						}
					}
					v := tt.Resize(sp.T, 64, sp.Signed)
					if bits != 0 && bits < 64 {
						back := tt.Resize(tt.Resize(v, uint8(bits), true), 64, true)
						if !p.branch(tt.Eq(back, v)) {
							return Tuple{BVC(64, 0), numErr(p, fn, args[0], "ErrRange")}
						}
					}
					return Tuple{v, nilErr()}
				case SupFloat:
					v, syn, rng := p.numInt(&JNum{F: sp.T})
					if !syn {
						return Tuple{BVC(64, 0), numErr(p, fn, args[0], "ErrSyntax")}
					}
					if !rng {
						return Tuple{BVC(64, math.MaxInt64), numErr(p, fn, args[0], "ErrRange")}
					}
					return Tuple{v, nilErr()}
				}
			}
			return notHandled{}
		}
	}
	reg("strconv.ParseInt", parseInt("ParseInt"))
	reg("strconv.Atoi", parseInt("Atoi"))
	reg("strconv.ParseUint", func(fr *Frame, args []Value) Value {
		p := fr.p
		if sp := soleSuper(args[0]); sp != nil && sp.Kind == SupDec {
			base := int(p.concretizeS(args[1].(*Term)))
			bits := int(p.concretizeS(args[2].(*Term)))
			if base == 0 || base == 10 {
				v := p.tt.Resize(sp.T, 64, sp.Signed)
				if sp.Signed && p.branch(p.tt.Cmp(OpSLT, v, BVC(64, 0))) {
					return Tuple{BVC(64, 0), numErr(p, "ParseUint", args[0], "ErrSyntax")}
				}
				if bits != 0 && bits < 64 && p.branch(p.tt.Cmp(OpULT, BVC(64, 1<<uint(bits)-1), v)) {
					return Tuple{BVC(64, 1<<uint(bits)-1), numErr(p, "ParseUint", args[0], "ErrRange")}
				}
				return Tuple{v, nilErr()}
			}
		}
		s, ok := concreteStr(args[0])
		if !ok {
			return notHandled{}
		}
		i, err := strconv.ParseUint(s, int(p.concretizeS(args[1].(*Term))), int(p.concretizeS(args[2].(*Term))))
		if err == nil {
			return Tuple{BVC(64, i), nilErr()}
		}
		what := "ErrSyntax"
		if err.(*strconv.NumError).Err == strconv.ErrRange {
			what = "ErrRange"
		}
		return Tuple{BVC(64, i), numErr(p, "ParseUint", s, what)}
	})
	reg("strconv.ParseFloat", func(fr *Frame, args []Value) Value {
		p := fr.p
		bits := int(p.concretizeS(args[1].(*Term)))
		if sp := soleSuper(args[0]); sp != nil && bits == 64 {
			switch sp.Kind {
			case SupDec:
				return Tuple{p.tt.IToF(p.tt.Resize(sp.T, 64, sp.Signed), sp.Signed), nilErr()}
			case SupFloat:
				return Tuple{sp.T, nilErr()}
			}
		}
		s, ok := concreteStr(args[0])
		if !ok {
			// decide the text byte by byte: which strings are numbers is
			// settled by the solver, their digits are enumerated
			return p.parseFloatSym(fr, args[0], bits)
		}
		f, err := strconv.ParseFloat(s, bits)
		if err == nil {
			return Tuple{FPC(f), nilErr()}
		}
		what := "ErrSyntax"
		if err.(*strconv.NumError).Err == strconv.ErrRange {
			what = "ErrRange"
		}
		return Tuple{FPC(f), numErr(p, "ParseFloat", s, what)}
	})
	hostStr("strconv.Quote", func(s []string) Value { return strconv.Quote(s[0]) })
	hostStr("strconv.ParseBool", func(s []string) Value { return notHandled{} })

	// ---- math
	reg("math.Float64bits", func(fr *Frame, args []Value) Value {
		t := args[0].(*Term)
		if t.IsConst() {
			return BVC(64, t.C)
		}
		if t.Op == OpFFromBits {
			return t.A[0]
		}
		panic(unsupported{"bits of symbolic float"})
	})
	reg("math.Float64frombits", func(fr *Frame, args []Value) Value { return fr.p.tt.FFromBits(args[0].(*Term)) })
	reg("math.Float32bits", func(fr *Frame, args []Value) Value {
		return BVC(32, uint64(math.Float32bits(float32(args[0].(F32)))))
	})
	reg("math.Float32frombits", func(fr *Frame, args []Value) Value {
		t := args[0].(*Term)
		if !t.IsConst() {
			panic(unsupported{"symbolic float32"})
		}
		return F32(math.Float32frombits(uint32(t.C)))
	})
	reg("math.IsNaN", func(fr *Frame, args []Value) Value { return fr.p.tt.FUn(OpFIsNaN, args[0].(*Term)) })
	trunc := func(fr *Frame, args []Value) Value { return fr.p.tt.FUn(OpFRti, args[0].(*Term)) }
	reg("math.Trunc", trunc)
	reg("math.Abs", func(fr *Frame, args []Value) Value {
		tt := fr.p.tt
		x := args[0].(*Term)
		return tt.Ite(tt.FCmp(OpFLt, x, FPC(0)), tt.FUn(OpFNeg, x), tt.FBin(OpFAdd, x, FPC(0)))
	})
	reg("math.Floor", func(fr *Frame, args []Value) Value {
		tt := fr.p.tt
		x := args[0].(*Term)
		r := tt.FUn(OpFRti, x)
		return tt.Ite(tt.FCmp(OpFLt, x, r), tt.FBin(OpFSub, r, FPC(1)), r)
	})
	reg("math.Ceil", func(fr *Frame, args []Value) Value {
		tt := fr.p.tt
		x := args[0].(*Term)
		r := tt.FUn(OpFRti, x)
		return tt.Ite(tt.FCmp(OpFLt, r, x), tt.FBin(OpFAdd, r, FPC(1)), r)
	})
	reg("math.Modf", func(fr *Frame, args []Value) Value {
		tt := fr.p.tt
		x := args[0].(*Term)
		r := tt.FUn(OpFRti, x)
		return Tuple{r, tt.FBin(OpFSub, x, r)}
	})
	reg("math.Inf", func(fr *Frame, args []Value) Value {
		s := fr.p.concretizeS(args[0].(*Term))
		return FPC(math.Inf(int(s)))
	})
	reg("math.IsInf", func(fr *Frame, args []Value) Value {
		s := fr.p.concretizeS(args[1].(*Term))
		tt := fr.p.tt
		x := args[0].(*Term)
		inf := tt.FUn(OpFIsInf, x)
		switch {
		case s > 0:
			return tt.And(inf, tt.FCmp(OpFLt, FPC(0), x))
		case s < 0:
			return tt.And(inf, tt.FCmp(OpFLt, x, FPC(0)))
		}
		return inf
	})

	// ---- errors
	reg("errors.Is", func(fr *Frame, args []Value) Value {
		return BoolC(fr.p.errorsIs(fr, fr.p.force(args[0]), fr.p.force(args[1])))
	})
	reg("errors.As", func(fr *Frame, args []Value) Value {
		return BoolC(fr.p.errorsAs(fr, fr.p.force(args[0]), fr.p.force(args[1])))
	})

	// ---- sort
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- fmt
	reg("fmt.Sprintf", func(fr *Frame, args []Value) Value {
		return fr.p.sprintf(fr, fr.p.mustStr(args[0], "format"), args[1].([]Value))
	})
	reg("fmt.Errorf", fmtErrorf)
	reg("fmt.Sprint", func(fr *Frame, args []Value) Value { return fr.p.sprint(fr, args[0].([]Value), false) })
	reg("fmt.Sprintln", func(fr *Frame, args []Value) Value { return fr.p.sprint(fr, args[0].([]Value), true) })
	outRes := func(fr *Frame, args []Value) Value { return Tuple{intC(0), nilErr()} }
	reg("fmt.Printf", outRes)
	reg("fmt.Println", outRes)
	reg("fmt.Print", outRes)
	fpr := func(mk func(fr *Frame, args []Value) Value) intrFn {
		return func(fr *Frame, args []Value) Value {
			s := mk(fr, args[1:])
			w := fr.p.force(args[0])
			if w.T != nil && typeStr(w.T) == "*os.File" {
				return Tuple{intC(0), nilErr()}
			}
			b := append([]Value{}, fr.p.concLen(s)...)
			return fr.p.callMethod(fr, w, "Write", b)
		}
	}
	reg("fmt.Fprintf", fpr(intr["fmt.Sprintf"]))
	reg("fmt.Fprint", fpr(intr["fmt.Sprint"]))
	reg("fmt.Fprintln", fpr(intr["fmt.Sprintln"]))
	reg("fmt.Appendf", func(fr *Frame, args []Value) Value {
		s := fr.p.sprintf(fr, fr.p.mustStr(args[1], "format"), args[2].([]Value))
		return append(append([]Value{}, args[0].([]Value)...), fr.p.concLen(s)...)
	})

	// ---- reflect functions
	reg("reflect.TypeOf", func(fr *Frame, args []Value) Value {
		i := fr.p.force(args[0])
		if i.T == nil {
			return Iface{}
		}
		return fr.p.rtIface(i.T)
	})
	reg("reflect.TypeFor", nil)
	delete(intr, "reflect.TypeFor")
	reg("reflect.ValueOf", func(fr *Frame, args []Value) Value { return fr.p.valueOf(fr.p.force(args[0])) })
	reg("reflect.Zero", func(fr *Frame, args []Value) Value {
		i := fr.p.force(args[0])
		if i.T == nil {
			refPanic(fr, "reflect: Zero(nil)")
		}
		t := asRType(fr.p, i).T
		return &RValue{T: t, V: zero(t)}
	})
	reg("reflect.New", func(fr *Frame, args []Value) Value {
		t := asRType(fr.p, args[0]).T
		return &RValue{T: types.NewPointer(t), V: fr.p.newCell(zero(t))}
	})
	reg("reflect.Indirect", func(fr *Frame, args []Value) Value {
		r := args[0].(*RValue)
		if r.T == nil {
			return r
		}
		if _, ok := r.T.Underlying().(*types.Pointer); !ok {
			return r
		}
		return rvalueCall(fr, r, "Elem", nil)
	})
	mkT := func(f func(t types.Type) types.Type) intrFn {
		return func(fr *Frame, args []Value) Value { return fr.p.rtIface(f(asRType(fr.p, args[0]).T)) }
	}
	reg("reflect.SliceOf", mkT(func(t types.Type) types.Type { return types.NewSlice(t) }))
	reg("reflect.PtrTo", mkT(func(t types.Type) types.Type { return types.NewPointer(t) }))
	reg("reflect.PointerTo", mkT(func(t types.Type) types.Type { return types.NewPointer(t) }))
	reg("reflect.ArrayOf", func(fr *Frame, args []Value) Value {
		return fr.p.rtIface(types.NewArray(asRType(fr.p, args[1]).T, fr.p.concretizeS(args[0].(*Term))))
	})
	reg("reflect.MapOf", func(fr *Frame, args []Value) Value {
		return fr.p.rtIface(types.NewMap(asRType(fr.p, args[0]).T, asRType(fr.p, args[1]).T))
	})
	mkMap := func(fr *Frame, args []Value) Value {
		return &RValue{T: asRType(fr.p, args[0]).T, V: newMap()}
	}
	reg("reflect.MakeMap", mkMap)
	reg("reflect.MakeMapWithSize", mkMap)
	reg("reflect.MakeSlice", func(fr *Frame, args []Value) Value {
		t := asRType(fr.p, args[0]).T
		n, c := int(fr.p.concretizeS(args[1].(*Term))), int(fr.p.concretizeS(args[2].(*Term)))
		if n < 0 || c < n || c > 1<<20 {
			refPanic(fr, "reflect.MakeSlice: bad length")
		}
		return &RValue{T: t, V: makeSlice(elemType(t), n, c)}
	})
	reg("reflect.Append", func(fr *Frame, args []Value) Value {
		s := args[0].(*RValue)
		out := append([]Value{}, s.get().([]Value)...)
		for _, x := range args[1].([]Value) {
			out = append(out, fr.p.assignTo(fr, x.(*RValue), elemType(s.T), "reflect.Append"))
		}
		return &RValue{T: s.T, V: out}
	})
	reg("reflect.DeepEqual", func(fr *Frame, args []Value) Value {
		if la, ok := args[0].(*LazyIface); ok {
			if lb, ok := args[1].(*LazyIface); ok && la.Node == lb.Node && la.UseNumber == lb.UseNumber {
				return True
			}
		}
		return fr.p.deepEqual(fr, fr.p.force(args[0]), fr.p.force(args[1]), 0)
	})
	reg("(reflect.Kind).String", func(fr *Frame, args []Value) Value {
		return reflectKindName(int(fr.p.concretize(args[0].(*Term))))
	})
	reg("internal/reflectlite.TypeOf", intr["reflect.TypeOf"])

	// ---- regexp
	reg("regexp.MatchString", func(fr *Frame, args []Value) Value {
		pat := fr.p.mustStr(args[0], "regexp pattern")
		t, err := fr.p.regexMatch(pat, args[1])
		if err != "" {
			return Tuple{False, fr.p.mkErr(err)}
		}
		return Tuple{t, nilErr()}
	})
	mustCompile := func(fr *Frame, args []Value) Value {
		pat := fr.p.mustStr(args[0], "regexp pattern")
		_, c := fr.p.newStruct("regexp", "Regexp", map[string]Value{"expr": pat})
		fr.p.side[cellSide{c}] = pat
		return c
	}
	reg("regexp.MustCompile", mustCompile)
	reg("regexp.Compile", func(fr *Frame, args []Value) Value { return Tuple{mustCompile(fr, args), nilErr()} })
	reg("(*regexp.Regexp).MatchString", func(fr *Frame, args []Value) Value {
		t := fr.p.w.prog.typ("regexp", "Regexp")
		pat := fr.p.fieldOf((*fr.deref(args[0])).(Struct), t, "expr").(string)
		r, err := fr.p.regexMatch(pat, args[1])
		if err != "" {
			panic(unsupported{err})
		}
		return r
	})
	reg("(*regexp.Regexp).Match", func(fr *Frame, args []Value) Value {
		return intr["(*regexp.Regexp).MatchString"](fr, []Value{args[0], mkStr(args[1].([]Value))})
	})

	// ---- uuid
	reg("github.com/google/uuid.New", func(fr *Frame, args []Value) Value {
		fr.p.uuidN++
		a := make(Array, 16)
		for i := range a {
			a[i] = BVC(8, uint64(i*7))
		}
		a[6] = BVC(8, 0x40)
		a[8] = BVC(8, 0x80)
		a[15] = BVC(8, uint64(fr.p.uuidN))
		return a
	})


	initJSONIntr()
	initSyncIntr()
	initVIntr()
	initNetIntr()
	initBigIntr()
}

type cellSide struct{ c Ptr }

func reflectKindName(k int) string {
	names := []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}
	if k < len(names) {
		return names[k]
	}
	return "kind" + strconv.Itoa(k)
}

func (p *Path) errorsIs(fr *Frame, err, target Iface) bool {
	if err.T == nil || target.T == nil {
		return err.T == nil && target.T == nil
	}
	comparable := types.Comparable(target.T)
	for n := 0; n < 50; n++ {
		if comparable && identical(err.T, target.T) && p.branch(p.eq(fr, err.T, err.V, target.V)) {
			return true
		}
		if f := p.w.prog.methodByName(err.T, "Is"); f != nil && f.Signature.Params().Len() == 1 {
			r := p.callMethod(fr, err, "Is", target)
			if p.branch(r.(*Term)) {
				return true
			}
		}
		next, many := p.unwrap(fr, err)
		if many != nil {
			for _, e := range many {
				if p.errorsIs(fr, p.force(e), target) {
					return true
				}
			}
			return false
		}
		if next.T == nil {
			return false
		}
		err = next
	}
	panic(unsupported{"errors.Is depth"})
}

func (p *Path) unwrap(fr *Frame, err Iface) (Iface, []Value) {
	f := p.w.prog.methodByName(err.T, "Unwrap")
	if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 {
		return Iface{}, nil
	}
	r := p.callMethod(fr, err, "Unwrap")
	if l, ok := r.([]Value); ok {
		if l == nil {
			l = []Value{}
		}
		return Iface{}, l
	}
	return p.force(r), nil
}

func (p *Path) errorsAs(fr *Frame, err, target Iface) bool {
	if err.T == nil {
		return false
	}
	if target.T == nil {
		refPanic(fr, "errors: target cannot be nil")
	}
	pt, ok := target.T.Underlying().(*types.Pointer)
	if !ok || target.V.(Ptr) == nil {
		refPanic(fr, "errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	it, isI := tt.Underlying().(*types.Interface)
	if !isI && !implements(tt, p.w.prog.errorT) {
		refPanic(fr, "errors: *target must be interface or implement error")
	}
	for n := 0; n < 50; n++ {
		if isI {
			if implements(err.T, it) {
				*target.V.(Ptr) = err
				return true
			}
		} else if identical(err.T, tt) {
			storeTo(target.V.(Ptr), err.V)
			return true
		}
		if f := p.w.prog.methodByName(err.T, "As"); f != nil && f.Signature.Params().Len() == 1 {
			if p.branch(p.callMethod(fr, err, "As", target).(*Term)) {
				return true
			}
		}
		next, many := p.unwrap(fr, err)
		if many != nil {
			for _, e := range many {
				if i := p.force(e); i.T != nil && p.errorsAs(fr, i, target) {
					return true
				}
			}
			return false
		}
		if next.T == nil {
			return false
		}
		err = next
	}
	panic(unsupported{"errors.As depth"})
}

// sortSlice: insertion sort through the less callback.
func sortSlice(fr *Frame, args []Value) Value {
	p := fr.p
	s, ok := p.force(args[0]).V.([]Value)
	if !ok {
		panic(unsupported{"sort.Slice operand"})
	}
	less := func(i, j int) bool {
		return p.branch(p.callValue(fr, args[1], []Value{intC(i), intC(j)}).(*Term))
	}
	for i := 1; i < len(s); i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			a, b := copyVal(s[j]), copyVal(s[j-1])
			storeTo(&s[j], b)
			storeTo(&s[j-1], a)
		}
	}
	return nil
}

// regexMatch simulates the compiled program over symbolic bytes.
func (p *Path) regexMatch(pat string, s Value) (*Term, string) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil, err.Error()
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, err.Error()
	}
	tt := p.tt
	el := p.concLen(s)
	n := len(el)
	high := false
	for _, in := range prog.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			for _, r := range in.Rune {
				if r >= 0x80 {
					high = true
				}
			}
		case syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			high = true
		}
	}
	bytes := make([]*Term, n)
	for i, e := range el {
		t, ok := e.(*Term)
		if !ok {
			panic(unsupported{"regexp on opaque text"})
		}
		bytes[i] = t
		if high && !p.branch(tt.Cmp(OpULT, t, BVC(8, 0x80))) {
			panic(unsupported{"regexp on non-ASCII text"})
		}
	}
	isWord := func(i int) *Term {
		if i < 0 || i >= n {
			return False
		}
		b := bytes[i]
		rg := func(lo, hi byte) *Term {
			return tt.And(tt.Cmp(OpULE, BVC(8, uint64(lo)), b), tt.Cmp(OpULE, b, BVC(8, uint64(hi))))
		}
		return tt.Or(tt.Or(rg('0', '9'), rg('a', 'z')), tt.Or(rg('A', 'Z'), tt.Eq(b, BVC(8, '_'))))
	}
	matched := False
	cur := make([]*Term, len(prog.Inst))
	reset := func(s []*Term) {
		for i := range s {
			s[i] = False
		}
	}
	reset(cur)
	var add func(set []*Term, pc uint32, c *Term, pos int, depth int)
	add = func(set []*Term, pc uint32, c *Term, pos int, depth int) {
		if c == False || depth > 200 {
			return
		}
		old := set[pc]
		nw := tt.Or(old, c)
		if nw == old {
			return
		}
		set[pc] = nw
		in := &prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			add(set, in.Out, c, pos, depth+1)
			add(set, in.Arg, c, pos, depth+1)
		case syntax.InstCapture, syntax.InstNop:
			add(set, in.Out, c, pos, depth+1)
		case syntax.InstEmptyWidth:
			cond := c
			e := syntax.EmptyOp(in.Arg)
			if e&syntax.EmptyBeginText != 0 && pos != 0 {
				return
			}
			if e&syntax.EmptyEndText != 0 && pos != n {
				return
			}
			nl := func(i int) *Term {
				if i < 0 || i >= n {
					return True
				}
				return tt.Eq(bytes[i], BVC(8, '\n'))
			}
			if e&syntax.EmptyBeginLine != 0 {
				cond = tt.And(cond, nl(pos-1))
			}
			if e&syntax.EmptyEndLine != 0 {
				cond = tt.And(cond, nl(pos))
			}
			if e&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
				a, b := isWord(pos-1), isWord(pos)
				x := tt.Or(tt.And(a, tt.Not(b)), tt.And(tt.Not(a), b))
				if e&syntax.EmptyNoWordBoundary != 0 {
					x = tt.Not(x)
				}
				cond = tt.And(cond, x)
			}
			add(set, in.Out, cond, pos, depth+1)
		case syntax.InstMatch:
			matched = tt.Or(matched, c)
		}
	}
	for pos := 0; pos <= n; pos++ {
		add(cur, uint32(prog.Start), True, pos, 0)
		if pos == n {
			break
		}
		next := make([]*Term, len(prog.Inst))
		reset(next)
		for pc := range prog.Inst {
			c := cur[pc]
			if c == False {
				continue
			}
			in := &prog.Inst[pc]
			var m *Term
			b := bytes[pos]
			switch in.Op {
			case syntax.InstRune1, syntax.InstRune:
				m = False
				rs := in.Rune
				if len(rs) == 1 {
					r := rs[0]
					m = runeIs(tt, b, r, r)
					if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
						for _, x := range []rune(strings.ToLower(string(r)) + strings.ToUpper(string(r))) {
							m = tt.Or(m, runeIs(tt, b, x, x))
						}
					}
				} else {
					for k := 0; k+1 < len(rs); k += 2 {
						m = tt.Or(m, runeIs(tt, b, rs[k], rs[k+1]))
					}
				}
			case syntax.InstRuneAny:
				m = True
			case syntax.InstRuneAnyNotNL:
				m = tt.Not(tt.Eq(b, BVC(8, '\n')))
			default:
				continue
			}
			add(next, in.Out, tt.And(c, m), pos+1, 0)
		}
		cur = next
	}
	return matched, ""
}

func runeIs(tt *TermTab, b *Term, lo, hi rune) *Term {
	if lo > 0x7f {
		return False
	}
	if hi > 0x7f {
		hi = 0x7f
	}
	return tt.And(tt.Cmp(OpULE, BVC(8, uint64(lo)), b), tt.Cmp(OpULE, b, BVC(8, uint64(hi))))
}

type floatTextKey struct{ k string }

func elemsKey(el []Value) string {
	var sb strings.Builder
	for _, e := range el {
		if t, ok := e.(*Term); ok && t.IsConst() {
			fmt.Fprintf(&sb, "%d,", t.C)
		} else {
			fmt.Fprintf(&sb, "%p,", e)
		}
	}
	return sb.String()
}

// parseFloatSym decides ParseFloat on a symbolic string: the bytes are
// enumerated once the first byte may begin a number.
func (p *Path) parseFloatSym(fr *Frame, s Value, bits int) Value {
	tt := p.tt
	el := p.concLen(s)
	bad := func() Value {
		e := *p.globalPtr(p.w.prog.byPath["strconv"].Var("ErrSyntax"))
		return Tuple{FPC(0), p.ptrIface("strconv", "NumError", map[string]Value{"Func": "ParseFloat", "Num": s, "Err": e})}
	}
	if len(el) == 0 {
		return bad()
	}
	if sp, ok := el[0].(*Super); ok && sp.Kind == SupJSON {
		switch p.resolve(sp.Node).Kind {
		case JArr, JObj, JStr, JNull, JBool:
			return bad()
		}
	}
	for _, e := range el {
		if _, ok := e.(*Term); !ok {
			panic(unsupported{"ParseFloat on opaque text"})
		}
	}
	is := func(pat string) bool {
		c, why := p.regexMatch(pat, s)
		if c == nil {
			panic(unsupported{"regexp " + why})
		}
		return p.branch(c)
	}
	if is(`^[-+]?0[xX]`) {
		if !is(`^[-+]?0[xX][0-9a-fA-F_]*(\.[0-9a-fA-F_]*)?[pP][-+]?[0-9_]+$`) {
			return bad()
		}
	} else {
		switch {
		case is(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][-+]?[0-9][0-9]?)?$`):
			// always finite at this length: an unknown finite value that is a
			// function of the text
			if len(el) < 100 && bits == 64 {
				k := floatTextKey{elemsKey(el)}
				f, ok := p.side[k].(*Term)
				if !ok {
					if cs, isC := mkStr(el).(string); isC {
						x, _ := strconv.ParseFloat(cs, 64)
						f = FPC(x)
					} else {
						f = tt.FFromBits(tt.Var(p.uniq("#parsefloat"), 64))
						p.assume(p.finite(f))
						neg := tt.Eq(el[0].(*Term), BVC(8, '-'))
						p.assume(tt.Or(tt.And(neg, tt.FCmp(OpFLe, f, FPC(0))), tt.And(tt.Not(neg), tt.FCmp(OpFLe, FPC(0), f))))
					}
					p.side[k] = f
				}
				return Tuple{f, nilErr()}
			}
		case is(`^[-+]?[iI][nN][fF]([iI][nN][iI][tT][yY])?$`):
			if p.branch(tt.Eq(el[0].(*Term), BVC(8, '-'))) {
				return Tuple{FPC(math.Inf(-1)), nilErr()}
			}
			return Tuple{FPC(math.Inf(1)), nilErr()}
		case is(`^[nN][aA][nN]$`):
			return Tuple{FPC(math.NaN()), nilErr()}
		case is(`^[-+]?([0-9]+(\.[0-9]*)?|\.[0-9]+)[eE][-+]?[0-9]+$`):
		default:
			return bad()
		}
	}
	buf := make([]byte, len(el))
	for i, e := range el {
		buf[i] = byte(p.concretize(e.(*Term)))
	}
	f, err := strconv.ParseFloat(string(buf), bits)
	if err == nil {
		return Tuple{FPC(f), nilErr()}
	}
	what := "ErrSyntax"
	if err.(*strconv.NumError).Err == strconv.ErrRange {
		what = "ErrRange"
	}
	e := *p.globalPtr(p.w.prog.byPath["strconv"].Var(what))
	return Tuple{FPC(f), p.ptrIface("strconv", "NumError", map[string]Value{"Func": "ParseFloat", "Num": string(buf), "Err": e})}
}

var _ = sort.Strings
