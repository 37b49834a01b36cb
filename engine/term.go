package main

// SMT terms: hash-consed per path, with constant folding.

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLShr
	OpAShr
	OpNeg
	OpBNot
	OpULT
	OpULE
	OpSLT
	OpSLE
	OpExtract // low W bits from arg, starting at C
	OpZExt
	OpSExt
	OpFFromBits // BV64 -> FP
	OpFLt
	OpFLe
	OpFEq
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg
	OpFIsNaN
	OpFIsInf
	OpSIToF
	OpUIToF
	OpFToSI
	OpFToUI
	OpFRti // round to integral, toward zero
	OpFRound32 // round to the nearest float32
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpNeg: "bvneg", OpBNot: "bvnot",
	OpULT: "bvult", OpULE: "bvule", OpSLT: "bvslt", OpSLE: "bvsle",
	OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq",
	OpFNeg: "fp.neg", OpFIsNaN: "fp.isNaN", OpFIsInf: "fp.isInfinite",
}

const (
	WBool = 0
	WFP   = 100
)

// Term is a value of sort Bool (W==0), BitVec W, or Float64 (W==WFP).
type Term struct {
	Op   Op
	W    uint8
	C    uint64
	A    []*Term
	Name string
	id   int32
}

func (t *Term) IsConst() bool { return t.Op == OpConst }

var (
	True  = &Term{Op: OpConst, W: WBool, C: 1}
	False = &Term{Op: OpConst, W: WBool, C: 0}
)

var smallConst [65][]*Term

func init() {
	for _, w := range []uint8{8, 16, 32, 64} {
		smallConst[w] = make([]*Term, 257)
		for i := range smallConst[w] {
			smallConst[w][i] = &Term{Op: OpConst, W: w, C: uint64(i) & mask(w)}
		}
	}
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func BVC(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 && smallConst[w] != nil {
		return smallConst[w][v]
	}
	return &Term{Op: OpConst, W: w, C: v}
}
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}
func FPC(f float64) *Term { return &Term{Op: OpConst, W: WFP, C: math.Float64bits(f)} }
func (t *Term) F() float64 {
	return math.Float64frombits(t.C)
}
func (t *Term) S() int64 { return sext(t.C, t.W) }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

// TermTab interns non-constant terms.
type TermTab struct {
	tab  map[string]*Term
	next int32
	vars []*Term
}

func NewTermTab() *TermTab { return &TermTab{tab: map[string]*Term{}} }

func (tt *TermTab) key(op Op, w uint8, c uint64, name string, a []*Term) string {
	var b []byte
	b = append(b, byte(op), w)
	b = strconv.AppendUint(b, c, 36)
	if name != "" {
		b = append(b, '$')
		b = append(b, name...)
	}
	for _, x := range a {
		if x.Op == OpConst {
			b = append(b, 'c', x.W)
			b = strconv.AppendUint(b, x.C, 36)
		} else {
			b = append(b, 'i')
			b = strconv.AppendInt(b, int64(x.id), 36)
		}
	}
	return string(b)
}

func (tt *TermTab) mk(op Op, w uint8, c uint64, a ...*Term) *Term {
	k := tt.key(op, w, c, "", a)
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.next++
	t := &Term{Op: op, W: w, C: c, A: a, id: tt.next}
	tt.tab[k] = t
	return t
}

func (tt *TermTab) Var(name string, w uint8) *Term {
	k := tt.key(OpVar, w, 0, name, nil)
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.next++
	t := &Term{Op: OpVar, W: w, Name: name, id: tt.next}
	tt.tab[k] = t
	tt.vars = append(tt.vars, t)
	return t
}

func same(a, b *Term) bool {
	if a == b {
		return true
	}
	return a.Op == OpConst && b.Op == OpConst && a.W == b.W && a.C == b.C
}

func (tt *TermTab) Not(a *Term) *Term {
	switch a.Op {
	case OpConst:
		return BoolC(a.C == 0)
	case OpNot:
		return a.A[0]
	}
	return tt.mk(OpNot, WBool, 0, a)
}
func (tt *TermTab) And(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.C == 0 {
			return False
		}
		return b
	}
	if b.Op == OpConst {
		if b.C == 0 {
			return False
		}
		return a
	}
	if a == b {
		return a
	}
	return tt.mk(OpAnd, WBool, 0, a, b)
}
func (tt *TermTab) Or(a, b *Term) *Term {
	if a.Op == OpConst {
		if a.C != 0 {
			return True
		}
		return b
	}
	if b.Op == OpConst {
		if b.C != 0 {
			return True
		}
		return a
	}
	if a == b {
		return a
	}
	return tt.mk(OpOr, WBool, 0, a, b)
}
func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if c.Op == OpConst {
		if c.C != 0 {
			return a
		}
		return b
	}
	if same(a, b) {
		return a
	}
	if a.W == WBool {
		if a.Op == OpConst && b.Op == OpConst {
			if a.C != 0 {
				return c
			}
			return tt.Not(c)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	return tt.mk(OpIte, a.W, 0, c, a, b)
}

// Eq is SMT equality (for FP use FEq for Go semantics).
func (tt *TermTab) Eq(a, b *Term) *Term {
	if a.W != b.W {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.W, b.W))
	}
	if a == b {
		return True
	}
	if a.Op == OpConst && b.Op == OpConst {
		return BoolC(a.C == b.C)
	}
	if a.W == WBool {
		if a.Op == OpConst {
			a, b = b, a
		}
		if b.Op == OpConst {
			if b.C != 0 {
				return a
			}
			return tt.Not(a)
		}
	}
	if a.Op == OpConst {
		a, b = b, a
	}
	// zext/sext(x) == const  -> narrow
	if b.Op == OpConst && (a.Op == OpZExt || a.Op == OpSExt) {
		x := a.A[0]
		n := BVC(x.W, b.C)
		var back uint64
		if a.Op == OpZExt {
			back = n.C
		} else {
			back = uint64(sext(n.C, x.W)) & mask(a.W)
		}
		if back != b.C {
			return False
		}
		return tt.Eq(x, n)
	}
	if b.Op == OpConst && a.Op == OpIte && a.A[1].Op == OpConst && a.A[2].Op == OpConst {
		e1 := a.A[1].C == b.C
		e2 := a.A[2].C == b.C
		switch {
		case e1 && e2:
			return True
		case e1:
			return a.A[0]
		case e2:
			return tt.Not(a.A[0])
		default:
			return False
		}
	}
	if b.Op == OpConst && a.Op == OpAdd && a.A[1].Op == OpConst {
		return tt.Eq(a.A[0], BVC(a.W, b.C-a.A[1].C))
	}
	if a.Op != OpConst && b.Op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, WBool, 0, a, b)
}

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.W
	if a.Op == OpConst && b.Op == OpConst {
		if v, ok := foldBin(op, w, a.C, b.C); ok {
			return BVC(w, v)
		}
	}
	if b.Op == OpConst {
		switch op {
		case OpAdd, OpSub, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
			if b.C == 0 {
				return a
			}
		case OpMul:
			if b.C == 1 {
				return a
			}
			if b.C == 0 {
				return b
			}
		case OpBAnd:
			if b.C == 0 {
				return b
			}
			if b.C == mask(w) {
				return a
			}
		case OpUDiv, OpSDiv:
			if b.C == 1 {
				return a
			}
		}
		if op == OpSub {
			return tt.Bin(OpAdd, a, BVC(w, -b.C))
		}
		if op == OpAdd && a.Op == OpAdd && a.A[1].Op == OpConst {
			return tt.Bin(OpAdd, a.A[0], BVC(w, a.A[1].C+b.C))
		}
		// (x urem/udiv) etc left alone
	} else if a.Op == OpConst {
		switch op {
		case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
			return tt.Bin(op, b, a)
		}
	}
	if a == b {
		switch op {
		case OpSub, OpBXor:
			return BVC(w, 0)
		case OpBAnd, OpBOr:
			return a
		}
	}
	return tt.mk(op, w, 0, a, b)
}

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m, true
	case OpSub:
		return (x - y) & m, true
	case OpMul:
		return (x * y) & m, true
	case OpUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OpURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OpSDiv:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx) & m, true
		}
		return uint64(sx/sy) & m, true
	case OpSRem:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(sx%sy) & m, true
	case OpBAnd:
		return x & y, true
	case OpBOr:
		return x | y, true
	case OpBXor:
		return x ^ y, true
	case OpShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OpLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OpAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m, true
	}
	return 0, false
}

func (tt *TermTab) Cmp(op Op, a, b *Term) *Term {
	if a.Op == OpConst && b.Op == OpConst {
		switch op {
		case OpULT:
			return BoolC(a.C < b.C)
		case OpULE:
			return BoolC(a.C <= b.C)
		case OpSLT:
			return BoolC(a.S() < b.S())
		case OpSLE:
			return BoolC(a.S() <= b.S())
		}
	}
	if a == b {
		return BoolC(op == OpULE || op == OpSLE)
	}
	if op == OpULT && b.Op == OpConst && b.C == 0 {
		return False
	}
	if op == OpULE && a.Op == OpConst && a.C == 0 {
		return True
	}
	return tt.mk(op, WBool, 0, a, b)
}

func (tt *TermTab) Neg(a *Term) *Term {
	if a.Op == OpConst {
		return BVC(a.W, -a.C)
	}
	return tt.mk(OpNeg, a.W, 0, a)
}
func (tt *TermTab) BNot(a *Term) *Term {
	if a.Op == OpConst {
		return BVC(a.W, ^a.C)
	}
	return tt.mk(OpBNot, a.W, 0, a)
}

// Resize converts between BV widths (signed = sign of the source type).
func (tt *TermTab) Resize(a *Term, w uint8, signed bool) *Term {
	if a.W == w {
		return a
	}
	if a.Op == OpConst {
		if signed {
			return BVC(w, uint64(a.S()))
		}
		return BVC(w, a.C)
	}
	if w < a.W {
		if (a.Op == OpZExt || a.Op == OpSExt) && a.A[0].W >= w {
			return tt.Resize(a.A[0], w, false)
		}
		return tt.mk(OpExtract, w, 0, a)
	}
	if signed {
		return tt.mk(OpSExt, w, 0, a)
	}
	return tt.mk(OpZExt, w, 0, a)
}

func (tt *TermTab) FFromBits(a *Term) *Term {
	if a.Op == OpConst {
		return &Term{Op: OpConst, W: WFP, C: a.C}
	}
	return tt.mk(OpFFromBits, WFP, 0, a)
}

func (tt *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.Op == OpConst && b.Op == OpConst {
		x, y := a.F(), b.F()
		switch op {
		case OpFLt:
			return BoolC(x < y)
		case OpFLe:
			return BoolC(x <= y)
		case OpFEq:
			return BoolC(x == y)
		}
	}
	if a == b {
		if op == OpFLt {
			return False
		}
		return tt.Not(tt.FUn(OpFIsNaN, a))
	}
	return tt.mk(op, WBool, 0, a, b)
}
func (tt *TermTab) FBin(op Op, a, b *Term) *Term {
	if a.Op == OpConst && b.Op == OpConst {
		x, y := a.F(), b.F()
		switch op {
		case OpFAdd:
			return FPC(x + y)
		case OpFSub:
			return FPC(x - y)
		case OpFMul:
			return FPC(x * y)
		case OpFDiv:
			return FPC(x / y)
		}
	}
	return tt.mk(op, WFP, 0, a, b)
}
func (tt *TermTab) FUn(op Op, a *Term) *Term {
	if a.Op == OpConst {
		x := a.F()
		switch op {
		case OpFNeg:
			return FPC(-x)
		case OpFIsNaN:
			return BoolC(math.IsNaN(x))
		case OpFIsInf:
			return BoolC(math.IsInf(x, 0))
		case OpFRound32:
			return FPC(float64(float32(x)))
		case OpFRti:
			return FPC(math.Trunc(x))
		}
	}
	if (op == OpFIsNaN || op == OpFIsInf) && (a.Op == OpSIToF || a.Op == OpUIToF) {
		return False
	}
	w := uint8(WFP)
	if op == OpFIsNaN || op == OpFIsInf {
		w = WBool
	}
	return tt.mk(op, w, 0, a)
}
func (tt *TermTab) IToF(a *Term, signed bool) *Term {
	if a.Op == OpConst {
		if signed {
			return FPC(float64(a.S()))
		}
		return FPC(float64(a.C))
	}
	if signed {
		return tt.mk(OpSIToF, WFP, 0, a)
	}
	return tt.mk(OpUIToF, WFP, 0, a)
}
func (tt *TermTab) FToI(a *Term, w uint8, signed bool) *Term {
	if a.Op == OpConst {
		f := a.F()
		if signed {
			return BVC(w, uint64(int64(f)))
		}
		return BVC(w, uint64(f))
	}
	if signed {
		return tt.mk(OpFToSI, w, 0, a)
	}
	return tt.mk(OpFToUI, w, 0, a)
}

// ---------------------------------------------------------------- printing

func sortOf(w uint8) string {
	switch w {
	case WBool:
		return "Bool"
	case WFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(t *Term) string {
	switch t.W {
	case WBool:
		if t.C != 0 {
			return "true"
		}
		return "false"
	case WFP:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.C)
	}
	if t.W%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.W)/4, t.C)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.C, t.W)
}

// nodeSMT prints t with children referenced through ref.
func nodeSMT(t *Term, ref func(*Term) string) string {
	var sb strings.Builder
	a := func(i int) string { return ref(t.A[i]) }
	switch t.Op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return varName(t.Name)
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.W-1, a(0))
	case OpZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.W-t.A[0].W, a(0))
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.W-t.A[0].W, a(0))
	case OpFFromBits:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) %s)", a(0))
	case OpFAdd:
		fmt.Fprintf(&sb, "(fp.add RNE %s %s)", a(0), a(1))
	case OpFSub:
		fmt.Fprintf(&sb, "(fp.sub RNE %s %s)", a(0), a(1))
	case OpFMul:
		fmt.Fprintf(&sb, "(fp.mul RNE %s %s)", a(0), a(1))
	case OpFDiv:
		fmt.Fprintf(&sb, "(fp.div RNE %s %s)", a(0), a(1))
	case OpSIToF:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) RNE %s)", a(0))
	case OpUIToF:
		fmt.Fprintf(&sb, "((_ to_fp_unsigned 11 53) RNE %s)", a(0))
	case OpFRound32:
		fmt.Fprintf(&sb, "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s))", a(0))
	case OpFRti:
		fmt.Fprintf(&sb, "(fp.roundToIntegral RTZ %s)", a(0))
	case OpFToSI:
		fmt.Fprintf(&sb, "((_ fp.to_sbv %d) RTZ %s)", t.W, a(0))
	case OpFToUI:
		fmt.Fprintf(&sb, "((_ fp.to_ubv %d) RTZ %s)", t.W, a(0))
	default:
		sb.WriteByte('(')
		sb.WriteString(opNames[t.Op])
		for i := range t.A {
			sb.WriteByte(' ')
			sb.WriteString(a(i))
		}
		sb.WriteByte(')')
	}
	return sb.String()
}

func varName(n string) string { return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(n) + "|" }

// ---------------------------------------------------------------- evaluation

type Model map[string]uint64 // variable -> bits (missing = 0)

func (m Model) Eval(t *Term, memo map[*Term]uint64) uint64 {
	switch t.Op {
	case OpConst:
		return t.C
	case OpVar:
		return m[t.Name]
	}
	if v, ok := memo[t]; ok {
		return v
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	e := func(i int) uint64 { return m.Eval(t.A[i], memo) }
	f := func(i int) float64 { return math.Float64frombits(m.Eval(t.A[i], memo)) }
	var r uint64
	switch t.Op {
	case OpNot:
		r = 1 - e(0)
	case OpAnd:
		r = e(0) & e(1)
	case OpOr:
		r = e(0) | e(1)
	case OpIte:
		if e(0) != 0 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OpEq:
		if t.A[0].W == WFP {
			x, y := e(0), e(1)
			r = b2u(x == y || (math.IsNaN(math.Float64frombits(x)) && math.IsNaN(math.Float64frombits(y))))
		} else {
			r = b2u(e(0) == e(1))
		}
	case OpSDiv, OpSRem:
		x, y := e(0), e(1)
		if y == 0 {
			if t.Op == OpSRem {
				r = x
			} else if sext(x, t.W) >= 0 {
				r = mask(t.W)
			} else {
				r = 1
			}
		} else {
			r, _ = foldBin(t.Op, t.W, x, y)
		}
	case OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpBAnd, OpBOr, OpBXor, OpShl, OpLShr, OpAShr:
		r, _ = foldBin(t.Op, t.W, e(0), e(1))
	case OpNeg:
		r = (-e(0)) & mask(t.W)
	case OpBNot:
		r = (^e(0)) & mask(t.W)
	case OpULT:
		r = b2u(e(0) < e(1))
	case OpULE:
		r = b2u(e(0) <= e(1))
	case OpSLT:
		r = b2u(sext(e(0), t.A[0].W) < sext(e(1), t.A[1].W))
	case OpSLE:
		r = b2u(sext(e(0), t.A[0].W) <= sext(e(1), t.A[1].W))
	case OpExtract:
		r = e(0) & mask(t.W)
	case OpZExt:
		r = e(0)
	case OpSExt:
		r = uint64(sext(e(0), t.A[0].W)) & mask(t.W)
	case OpFFromBits:
		r = e(0)
	case OpFLt:
		r = b2u(f(0) < f(1))
	case OpFLe:
		r = b2u(f(0) <= f(1))
	case OpFEq:
		r = b2u(f(0) == f(1))
	case OpFAdd:
		r = math.Float64bits(f(0) + f(1))
	case OpFSub:
		r = math.Float64bits(f(0) - f(1))
	case OpFMul:
		r = math.Float64bits(f(0) * f(1))
	case OpFDiv:
		r = math.Float64bits(f(0) / f(1))
	case OpFNeg:
		r = math.Float64bits(-f(0))
	case OpFRound32:
		r = math.Float64bits(float64(float32(f(0))))
	case OpFRti:
		r = math.Float64bits(math.Trunc(f(0)))
	case OpFIsNaN:
		r = b2u(math.IsNaN(f(0)))
	case OpFIsInf:
		r = b2u(math.IsInf(f(0), 0))
	case OpSIToF:
		r = math.Float64bits(float64(sext(e(0), t.A[0].W)))
	case OpUIToF:
		r = math.Float64bits(float64(e(0)))
	case OpFToSI:
		r = uint64(int64(f(0))) & mask(t.W)
	case OpFToUI:
		r = uint64(f(0)) & mask(t.W)
	default:
		panic("eval op")
	}
	memo[t] = r
	return r
}

var _ = bits.Len
