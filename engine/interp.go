package main

// Symbolic interpreter for go/ssa, in the style of x/tools/go/ssa/interp.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type targetPanic struct {
	v     Iface
	stack string
}
type abortPath struct{ reason string }     // this path ends here (infeasible, assume failed, ...)
type unsupported struct{ msg string }      // the engine cannot follow this path
type pathDone struct{}                     // the path completed while other threads remain
type runtimeFatal struct{ msg string }     // fatal error: concurrent map writes etc.
type violationStop struct{}                // an assertion is violated on every continuation
type goexit struct{}

type deferred struct {
	fn   Value
	args []Value
	ins  *ssa.Defer
	tail *deferred
}

type Frame struct {
	th        *Thread
	p         *Path
	caller    *Frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []Value
	info      *fnInfo
	defers    *deferred
	result    Value
	panicking bool
	panicV    interface{}
	tolerant  bool
	depth     int
	pos       token.Pos
}

// ---- per-function value numbering (shared between workers)

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
	intr func(fr *Frame, args []Value) Value
	ops  map[ssa.Instruction]bool
	inRepo bool
	vis    bool // instrumented for preemption
}

var fnInfos sync.Map // *ssa.Function -> *fnInfo

func getInfo(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.idx[v]; !ok {
			fi.idx[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, l := range fn.Locals {
		add(l)
	}
	blocks := fn.Blocks
	for _, b := range blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.intr = lookupIntrinsic(fn)
	fi.inRepo = isRepoFn(fn)
	fnInfos.Store(fn, fi)
	return fi
}

func fnPkgPath(fn *ssa.Function) string {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if ob := f.Object(); ob != nil && ob.Pkg() != nil {
		return ob.Pkg().Path()
	}
	return ""
}

const repoPrefix = "github.com/superisaac/jlib"

func isRepoPath(p string) bool {
	return p == repoPrefix || strings.HasPrefix(p, repoPrefix+"/") || strings.HasPrefix(p, genPrefix)
}
func isRepoFn(fn *ssa.Function) bool { return isRepoPath(fnPkgPath(fn)) }

// ---- values

func (fr *Frame) set(v ssa.Value, x Value) { fr.env[fr.info.idx[v]] = x }

func (fr *Frame) get(key ssa.Value) Value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return key
	case *ssa.Builtin:
		return key
	case *ssa.Const:
		return constValue(key)
	case *ssa.Global:
		return fr.p.globalPtr(key)
	}
	if i, ok := fr.info.idx[key]; ok {
		v := fr.env[i]
		if pz, ok := v.(Poison); ok {
			if fr.tolerant {
				return v
			}
			panic(unsupported{"poison: " + pz.why})
		}
		return v
	}
	panic(unsupported{fmt.Sprintf("get: no value for %T %v in %v", key, key.Name(), fr.fn)})
}

var constCache sync.Map

func constValue(c *ssa.Const) Value {
	if v, ok := constCache.Load(c); ok {
		return v
	}
	v := constValue1(c)
	switch v.(type) {
	case *Term, string:
		constCache.Store(c, v)
	}
	return v
}

func constValue1(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	ut := c.Type().Underlying()
	if tp, ok := ut.(*types.Interface); ok {
		_ = tp
		panic(unsupported{"const of interface type"})
	}
	b, ok := ut.(*types.Basic)
	if !ok {
		panic(unsupported{fmt.Sprintf("const type %v", c.Type())})
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return BoolC(constant.BoolVal(c.Value))
	case b.Info()&types.IsInteger != 0:
		w := bwidth(b)
		if b.Info()&types.IsUnsigned != 0 {
			return BVC(w, c.Uint64())
		}
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if i, ok := constant.Int64Val(v); ok {
				return BVC(w, uint64(i))
			}
			u, _ := constant.Uint64Val(v)
			return BVC(w, u)
		}
		return BVC(w, uint64(c.Int64()))
	case b.Info()&types.IsFloat != 0:
		f := c.Float64()
		if b.Kind() == types.Float32 {
			return F32(f)
		}
		return FPC(f)
	case b.Info()&types.IsComplex != 0:
		return c.Complex128()
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if b.Kind() == types.UnsafePointer {
		return unsafePtr{Ptr(nil)}
	}
	panic(unsupported{fmt.Sprintf("const %v", c)})
}

func bwidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func basicOf(t types.Type) *types.Basic {
	b, _ := t.Underlying().(*types.Basic)
	return b
}

func isSigned(t types.Type) bool {
	b := basicOf(t)
	return b != nil && b.Info()&types.IsUnsigned == 0
}

func zero(t types.Type) Value {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return &RValue{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
		if u.Kind() == types.UnsafePointer {
			return unsafePtr{Ptr(nil)}
		}
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			return False
		case i&types.IsInteger != 0:
			return BVC(bwidth(u), 0)
		case i&types.IsFloat != 0:
			if u.Kind() == types.Float32 {
				return F32(0)
			}
			return FPC(0)
		case i&types.IsComplex != 0:
			return complex128(0)
		case i&types.IsString != 0:
			return ""
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return []Value(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			a[0] = z
			switch z.(type) {
			case Struct, Array:
				for i := 1; i < len(a); i++ {
					a[i] = zero(u.Elem())
				}
			default:
				for i := 1; i < len(a); i++ {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = zero(u.At(i).Type())
		}
		return s
	}
	panic(unsupported{fmt.Sprintf("zero(%v)", t)})
}

// ---- panics

func (p *Path) rtErr(msg string) targetPanic {
	return targetPanic{v: Iface{T: p.w.prog.runtimeErrorT, V: msg}}
}

func (fr *Frame) rtPanic(msg string) {
	panic(fr.p.rtErrAt(fr, msg))
}
func (p *Path) rtErrAt(fr *Frame, msg string) targetPanic {
	tp := p.rtErr(msg)
	tp.stack = fr.stack()
	return tp
}

func (fr *Frame) stack() string {
	var sb strings.Builder
	n := 0
	for f := fr; f != nil && n < 12; f = f.caller {
		sb.WriteString(f.fn.String())
		if f.pos.IsValid() {
			ps := f.p.w.prog.fset.Position(f.pos)
			fmt.Fprintf(&sb, "(%s:%d)", shortFile(ps.Filename), ps.Line)
		}
		sb.WriteString(" < ")
		n++
	}
	return sb.String()
}

func shortFile(f string) string {
	if i := strings.LastIndex(f, "/"); i >= 0 {
		return f[i+1:]
	}
	return f
}

func (fr *Frame) deref(v Value) Ptr {
	switch x := v.(type) {
	case Ptr:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return x
	case unsafePtr:
		return fr.deref(x.V)
	}
	panic(unsupported{fmt.Sprintf("deref of %T at %s", v, fr.stack())})
}

// ---- main loop

const maxDepth = 400

func (p *Path) callFn(th *Thread, caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	info := getInfo(fn)
	if info.intr != nil {
		fr := caller
		if fr == nil {
			fr = &Frame{th: th, p: p, fn: fn, info: info}
		}
		r := info.intr(fr, args)
		if _, no := r.(notHandled); !no {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(unsupported{"no body: " + fn.String()})
	}
	fr := &Frame{th: th, p: p, caller: caller, fn: fn, info: info}
	if caller != nil {
		fr.depth = caller.depth + 1
		fr.tolerant = false
		if fr.depth > maxDepth {
			panic(unsupported{"call depth"})
		}
	}
	if info.inRepo {
		p.w.markFn(fn)
	}
	fr.env = make([]Value, info.n)
	for i, a := range fn.Params {
		fr.env[info.idx[a]] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[info.idx[f]] = env[i]
	}
	for _, l := range fn.Locals {
		c := new(Value)
		*c = zero(deref(l.Type()))
		fr.env[info.idx[l]] = c
	}
	fr.block = fn.Blocks[0]
	savedTop := th.top
	th.top = fr
	for fr.block != nil {
		fr.run()
	}
	th.top = savedTop
	return fr.result
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// run executes until return; a panic runs the defers and may be recovered.
func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		switch x := r.(type) {
		case targetPanic:
			if x.stack == "" {
				x.stack = fr.stack()
			}
			fr.panicV = x
		case goexit:
			fr.panicV = x
		case error:
			// a Go runtime error inside the engine: engine defect; report as unsupported
			if os.Getenv("GOSYM_DEBUG") != "" {
				panic(r)
			}
			panic(unsupported{fmt.Sprintf("engine error %v at %s", x, fr.stack())})
		default:
			panic(r)
		}
		fr.panicking = true
		fr.th.top = fr
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered, no named results
			fr.result = zeroResult(fr.fn)
		}
	}()
	p := fr.p
	for {
		blk := fr.block
	instrs:
		for _, in := range blk.Instrs {
			p.steps++
			if p.steps > p.maxSteps {
				panic(unsupported{"step limit"})
			}
			if p.steps&0xfff == 0 && p.w.ex.timeUp() {
				panic(unsupported{"time limit"})
			}
			if ps := in.Pos(); ps.IsValid() {
				fr.pos = ps
			}
			var k int
			if fr.tolerant {
				k = fr.visitTolerant(in)
			} else {
				k = fr.visit(in)
			}
			switch k {
			case kReturn:
				return
			case kJump:
				break instrs
			}
		}
	}
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = zero(r.At(i).Type())
	}
	return t
}

func (fr *Frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			switch x := r.(type) {
			case targetPanic:
				fr.panicking = true
				fr.panicV = x
			case goexit:
				fr.panicking = true
				fr.panicV = x
			default:
				panic(r)
			}
		}
	}()
	fr.p.callValue(fr, d.fn, d.args)
	ok = true
}

func (fr *Frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

const (
	kNext = iota
	kReturn
	kJump
)

func (fr *Frame) visitTolerant(in ssa.Instruction) (k int) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why := ""
		switch x := r.(type) {
		case unsupported:
			why = x.msg
		case targetPanic:
			why = "panic in init"
		case error:
			why = x.Error()
		default:
			panic(r)
		}
		if fr.p.w.ex.debug {
			fmt.Fprintf(os.Stderr, "init %v: %v: %s\n", fr.fn, in, why)
		}
		switch in.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return:
			panic(unsupported{"init: " + why})
		}
		if v, ok := in.(ssa.Value); ok {
			fr.set(v, Poison{why})
		}
		if st, ok := in.(*ssa.Store); ok {
			if g, ok := st.Addr.(*ssa.Global); ok {
				*fr.p.globalCell(g) = Poison{why}
			}
		}
		k = kNext
	}()
	if st, ok := in.(*ssa.Store); ok {
		v := fr.get(st.Val)
		if pz, bad := v.(Poison); bad {
			panic(unsupported{pz.why})
		}
	}
	return fr.visit(in)
}

func (fr *Frame) visit(in ssa.Instruction) int {
	p := fr.p
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(in, fr.unop(in, fr.get(in.X)))
	case *ssa.BinOp:
		fr.set(in, fr.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y), in.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		fr.set(in, p.callValue(fr, fn, args))
	case *ssa.ChangeInterface:
		fr.set(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.set(in, fr.get(in.X))
	case *ssa.Convert:
		fr.set(in, fr.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.set(in, fr.conv(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		panic(unsupported{"SliceToArrayPointer"})
	case *ssa.MakeInterface:
		fr.set(in, Iface{T: in.X.Type(), V: fr.get(in.X)})
	case *ssa.Extract:
		fr.set(in, fr.get(in.Tuple).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(in, fr.slice(in))
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = fr.get(in.Results[0])
		default:
			res := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				res[i] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X)
		panic(targetPanic{v: p.force(v), stack: fr.stack()})
	case *ssa.Send:
		p.chanSend(fr, fr.get(in.Chan), fr.get(in.X))
	case *ssa.Store:
		fr.store(in)
	case *ssa.If:
		succ := 1
		cond := fr.get(in.Cond).(*Term)
		if !cond.IsConst() && fr.tryMerge(in, cond) {
			return kJump
		}
		if p.branch(cond) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		fr.phis()
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		tgt := &fr.defers
		if in.DeferStack != nil {
			tgt = fr.get(in.DeferStack).(deferStackRef).d
		}
		*tgt = &deferred{fn: fn, args: args, ins: in, tail: *tgt}
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		p.goStmt(fr, fn, args)
	case *ssa.MakeChan:
		n := p.concretize(p.asInt(fr.get(in.Size)))
		fr.set(in, p.makeChan(int(n), in.Type()))
	case *ssa.Alloc:
		c := new(Value)
		*c = zero(deref(in.Type()))
		fr.set(in, Ptr(c))
	case *ssa.MakeSlice:
		et := in.Type().Underlying().(*types.Slice).Elem()
		n := p.concretizeS(p.asInt(fr.get(in.Len)))
		c := p.concretizeS(p.asInt(fr.get(in.Cap)))
		if n < 0 || n > 1<<24 {
			fr.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			fr.rtPanic("makeslice: cap out of range")
		}
		fr.set(in, makeSlice(et, int(n), int(c)))
	case *ssa.MakeMap:
		fr.set(in, newMap())
	case *ssa.Range:
		fr.set(in, fr.rangeIter(fr.get(in.X), in.X.Type()))
	case *ssa.Next:
		fr.set(in, fr.get(in.Iter).(iter).next(fr))
	case *ssa.FieldAddr:
		x := fr.deref(fr.get(in.X))
		st, ok := (*x).(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("FieldAddr on %T (%v) at %s", *x, in.X.Type(), fr.stack())})
		}
		fr.set(in, Ptr(&st[in.Field]))
	case *ssa.Field:
		x := fr.get(in.X)
		st, ok := x.(Struct)
		if !ok {
			panic(unsupported{fmt.Sprintf("Field on %T (%v)", x, in.X.Type())})
		}
		fr.set(in, st[in.Field])
	case *ssa.IndexAddr:
		fr.set(in, fr.indexAddr(fr.get(in.X), fr.get(in.Index), in.Index.Type()))
	case *ssa.Index:
		fr.set(in, fr.index(fr.get(in.X), fr.get(in.Index), in.X.Type(), in.Index.Type()))
	case *ssa.Lookup:
		fr.set(in, fr.lookup(in))
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*MapV)
		if m == nil {
			panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "assignment to entry in nil map"}, stack: fr.stack()})
		}
		p.mapAccess(fr, m, true)
		p.mapSet(fr, m, fr.get(in.Key), copyVal(fr.get(in.Value)), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.TypeAssert:
		fr.set(in, fr.typeAssert(in, p.force(fr.get(in.X))))
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range in.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(in, &Closure{in.Fn.(*ssa.Function), env})
	case *ssa.Phi:
		// handled at the jump
	case *ssa.Select:
		fr.set(in, p.selectStmt(fr, in))
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", in)})
	}
	return kNext
}

func (fr *Frame) phis() {
	b := fr.block
	if len(b.Instrs) == 0 {
		return
	}
	if _, ok := b.Instrs[0].(*ssa.Phi); !ok {
		return
	}
	pi := -1
	for i, pr := range b.Preds {
		if pr == fr.prev {
			pi = i
			break
		}
	}
	var vals []Value
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, fr.get(ph.Edges[pi]))
	}
	for i := range vals {
		fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
	}
}

type deferStackRef struct{ d **deferred }

func makeSlice(et types.Type, n, c int) []Value {
	s := make([]Value, c)
	switch et.Underlying().(type) {
	case *types.Struct, *types.Array:
		for i := range s {
			s[i] = zero(et)
		}
	default:
		z := zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

func (p *Path) asInt(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("asInt %T", v)})
	}
	return t
}

// ---- store/load

func (fr *Frame) store(in *ssa.Store) {
	addr := fr.deref(fr.get(in.Addr))
	fr.p.memAccess(fr, in.Addr, addr, true)
	storeTo(addr, fr.get(in.Val))
}

// storeTo keeps the identity of sub-cells of aggregates (pointers into them).
func storeTo(addr Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if old, ok := (*addr).(Struct); ok && len(old) == len(x) {
			for i := range x {
				storeTo(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	case Array:
		if old, ok := (*addr).(Array); ok && len(old) == len(x) {
			for i := range x {
				storeTo(&old[i], x[i])
			}
			return
		}
		*addr = copyVal(x)
	default:
		*addr = v
	}
}

// ---- unop

func (fr *Frame) unop(in *ssa.UnOp, x Value) Value {
	tt := fr.p.tt
	switch in.Op {
	case token.MUL:
		addr := fr.deref(x)
		fr.p.memAccess(fr, in.X, addr, false)
		v := *addr
		if pz, ok := v.(Poison); ok && !fr.tolerant {
			panic(unsupported{"poison: " + pz.why})
		}
		if sp, ok := v.(*Super); ok && comparesFirst(in) {
			return fr.p.byteOf(sp)
		}
		return copyVal(v)
	case token.ARROW:
		v, ok := fr.p.chanRecv(fr, x)
		if in.CommaOk {
			return Tuple{v, BoolC(ok)}
		}
		return v
	case token.SUB:
		switch a := x.(type) {
		case *Term:
			if a.W == WFP {
				return tt.FUn(OpFNeg, a)
			}
			return tt.Neg(a)
		case F32:
			return -a
		case SymF32:
			return SymF32{tt.FUn(OpFNeg, a.T)}
		case complex128:
			return -a
		}
	case token.NOT:
		return tt.Not(x.(*Term))
	case token.XOR:
		return tt.BNot(x.(*Term))
	}
	panic(unsupported{fmt.Sprintf("unop %v %T", in.Op, x)})
}

// ---- binop

func (fr *Frame) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	p := fr.p
	tt := p.tt
	_, xs := x.(SymF32)
	_, ys := y.(SymF32)
	if xs || ys {
		// rounding twice is innocuous for the four operations
		r := fr.binop(op, types.Typ[types.Float64], wide(x), wide(y), yt)
		if f := r.(*Term); f.W == WFP {
			return p.round32(f)
		}
		return r
	}
	switch op {
	case token.EQL:
		return p.eq(fr, t, x, y)
	case token.NEQ:
		return tt.Not(p.eq(fr, t, x, y))
	}
	if b := basicOf(t); b != nil && b.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return p.concat(x, y)
		case token.LSS:
			return p.strLess(x, y)
		case token.GTR:
			return p.strLess(y, x)
		case token.LEQ:
			return tt.Not(p.strLess(y, x))
		case token.GEQ:
			return tt.Not(p.strLess(x, y))
		}
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			panic(unsupported{fmt.Sprintf("binop %v with %T", op, y)})
		}
		if a.W == WFP {
			switch op {
			case token.ADD:
				return tt.FBin(OpFAdd, a, b)
			case token.SUB:
				return tt.FBin(OpFSub, a, b)
			case token.MUL:
				return tt.FBin(OpFMul, a, b)
			case token.QUO:
				return tt.FBin(OpFDiv, a, b)
			case token.LSS:
				return tt.FCmp(OpFLt, a, b)
			case token.LEQ:
				return tt.FCmp(OpFLe, a, b)
			case token.GTR:
				return tt.FCmp(OpFLt, b, a)
			case token.GEQ:
				return tt.FCmp(OpFLe, b, a)
			}
			panic(unsupported{"fp op"})
		}
		signed := isSigned(t)
		switch op {
		case token.ADD:
			return tt.Bin(OpAdd, a, b)
		case token.SUB:
			return tt.Bin(OpSub, a, b)
		case token.MUL:
			return tt.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if p.branch(tt.Eq(b, BVC(b.W, 0))) {
				fr.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return tt.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return tt.Bin(OpUDiv, a, b)
			case signed:
				return tt.Bin(OpSRem, a, b)
			default:
				return tt.Bin(OpURem, a, b)
			}
		case token.AND:
			return tt.Bin(OpBAnd, a, b)
		case token.OR:
			return tt.Bin(OpBOr, a, b)
		case token.XOR:
			return tt.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return tt.Bin(OpBAnd, a, tt.BNot(b))
		case token.SHL, token.SHR:
			if isSigned(yt) && !(b.IsConst() && b.S() >= 0) {
				if p.branch(tt.Cmp(OpSLT, b, BVC(b.W, 0))) {
					fr.rtPanic("negative shift amount")
				}
			}
			// shift amount to a's width, saturating
			var sh *Term
			if b.W > a.W {
				big := tt.Cmp(OpULE, BVC(b.W, uint64(a.W)), b)
				sh = tt.Ite(big, BVC(a.W, uint64(a.W)), tt.Resize(b, a.W, false))
			} else {
				sh = tt.Resize(b, a.W, false)
			}
			if op == token.SHL {
				return tt.Bin(OpShl, a, sh)
			}
			if signed {
				return tt.Bin(OpAShr, a, sh)
			}
			return tt.Bin(OpLShr, a, sh)
		case token.LSS:
			return tt.Cmp(pick(signed, OpSLT, OpULT), a, b)
		case token.LEQ:
			return tt.Cmp(pick(signed, OpSLE, OpULE), a, b)
		case token.GTR:
			return tt.Cmp(pick(signed, OpSLT, OpULT), b, a)
		case token.GEQ:
			return tt.Cmp(pick(signed, OpSLE, OpULE), b, a)
		}
	case F32:
		b := y.(F32)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return BoolC(a < b)
		case token.LEQ:
			return BoolC(a <= b)
		case token.GTR:
			return BoolC(a > b)
		case token.GEQ:
			return BoolC(a >= b)
		}
	}
	panic(unsupported{fmt.Sprintf("binop %v on %T at %s", op, x, fr.stack())})
}

func pick(c bool, a, b Op) Op {
	if c {
		return a
	}
	return b
}

// ---- equality

func (p *Path) eq(fr *Frame, t types.Type, x, y Value) *Term {
	tt := p.tt
	if lx, ok := x.(*LazyIface); ok {
		if ly, ok := y.(*LazyIface); ok && ly.Node == lx.Node && ly.UseNumber == lx.UseNumber && lx.Node.Kind != JLazy && lx.Node.Kind != JArr && lx.Node.Kind != JObj && !(lx.Node.Kind == JNumK && !lx.UseNumber) {
			return True
		} 
		if iy, ok := y.(Iface); ok && iy.T == nil && !lx.Done {
			// comparison with nil: split on null only
			return BoolC(p.lazyIsNull(lx))
		}
		x = p.force(x)
	}
	if _, ok := y.(*LazyIface); ok {
		if ix, ok := x.(Iface); ok && ix.T == nil {
			return BoolC(p.lazyIsNull(y.(*LazyIface)))
		}
		y = p.force(y)
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		if a.W == WFP {
			return tt.FCmp(OpFEq, a, b)
		}
		return tt.Eq(a, b)
	case string, *SymStr:
		return p.strEq(x, y)
	case F32:
		if b, ok := y.(SymF32); ok {
			return tt.FCmp(OpFEq, wide(a).(*Term), b.T)
		}
		return BoolC(a == y.(F32))
	case SymF32:
		return tt.FCmp(OpFEq, a.T, wide(y).(*Term))
	case complex128:
		return BoolC(a == y.(complex128))
	case Ptr:
		switch b := y.(type) {
		case Ptr:
			return BoolC(a == b)
		case unsafePtr:
			return p.eq(fr, t, a, b.V)
		}
	case unsafePtr:
		if b, ok := y.(unsafePtr); ok {
			return p.eq(fr, t, a.V, b.V)
		}
		return p.eq(fr, t, a.V, y)
	case *MapV:
		b := y.(*MapV)
		return BoolC(a == b) // only nil comparisons are legal
	case *ChanV:
		return BoolC(a == y.(*ChanV))
	case []Value:
		b := y.([]Value)
		return BoolC((a == nil) == (b == nil) && (a == nil)) // nil comparison only
	case *ssa.Function, *Closure, *HostFunc, *ssa.Builtin:
		return BoolC(isNilFn(x) && isNilFn(y))
	case *RType:
		b, ok := y.(*RType)
		return BoolC(ok && types.Identical(a.T, b.T))
	case *RValue:
		panic(unsupported{"compare reflect.Value"})
	case Struct:
		b := y.(Struct)
		st := t.Underlying().(*types.Struct)
		r := True
		for i := range a {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tt.And(r, p.eq(fr, st.Field(i).Type(), a[i], b[i]))
			if r == False {
				return r
			}
		}
		return r
	case Array:
		b := y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		r := True
		for i := range a {
			r = tt.And(r, p.eq(fr, et, a[i], b[i]))
			if r == False {
				return r
			}
		}
		return r
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		return p.ifaceEq(fr, a, b)
	case nil:
		return BoolC(y == nil)
	case sliceData, stringData:
		return False
	}
	st := ""
	if fr != nil {
		st = fr.stack()
	}
	panic(unsupported{fmt.Sprintf("eq %T %T at %s", x, y, st)})
}

func isNilFn(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case *Closure:
		return f == nil
	case *HostFunc:
		return f == nil
	}
	return false
}

func (p *Path) ifaceEq(fr *Frame, a, b Iface) *Term {
	if a.T == nil || b.T == nil {
		return BoolC(a.T == nil && b.T == nil)
	}
	if !identical(a.T, b.T) {
		return False
	}
	if !types.Comparable(a.T) {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimeErrorT, V: "comparing uncomparable type " + typeStr(a.T)}, stack: fr.stack()})
	}
	return p.eq(fr, a.T, a.V, b.V)
}

func identical(a, b types.Type) bool { return a == b || types.Identical(a, b) }

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// ---- indexing

func (fr *Frame) boundsIdx(idx Value, it types.Type, n int) int {
	p := fr.p
	tt := p.tt
	t := p.asInt(idx)
	t = tt.Resize(t, 64, isSigned(it))
	if t.IsConst() {
		i := t.S()
		if i < 0 || i >= int64(n) || (!isSigned(it) && t.C >= uint64(n)) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	if !p.branch(tt.Cmp(OpULT, t, BVC(64, uint64(n)))) {
		fr.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	return int(p.concretize(t))
}

func (fr *Frame) indexAddr(x, idx Value, it types.Type) Value {
	switch a := x.(type) {
	case []Value:
		return Ptr(&a[fr.boundsIdx(idx, it, len(a))])
	case Ptr:
		arr := (*fr.deref(a)).(Array)
		return Ptr(&arr[fr.boundsIdx(idx, it, len(arr))])
	}
	panic(unsupported{fmt.Sprintf("indexAddr %T", x)})
}

func (fr *Frame) index(x, idx Value, xt, it types.Type) Value {
	switch a := x.(type) {
	case Array:
		return a[fr.boundsIdx(idx, it, len(a))]
	case string, *SymStr:
		return fr.strIndex(x, idx, it)
	}
	panic(unsupported{fmt.Sprintf("index %T", x)})
}

func (fr *Frame) strIndex(s, idx Value, it types.Type) Value {
	p := fr.p
	tt := p.tt
	if str, ok := s.(string); ok {
		if t := p.asInt(idx); !t.IsConst() && len(str) > 0 {
			t = tt.Resize(t, 64, isSigned(it))
			if !p.branch(tt.Cmp(OpULT, t, BVC(64, uint64(len(str))))) {
				fr.rtPanic("index out of range")
			}
			if len(str) <= 300 {
				r := BVC(8, uint64(str[len(str)-1]))
				for i := len(str) - 2; i >= 0; i-- {
					r = tt.Ite(tt.Eq(t, BVC(64, uint64(i))), BVC(8, uint64(str[i])), r)
				}
				return r
			}
			return BVC(8, uint64(str[p.concretize(t)]))
		}
		return BVC(8, uint64(str[fr.boundsIdx(idx, it, len(str))]))
	}
	ss := s.(*SymStr)
	t := tt.Resize(p.asInt(idx), 64, isSigned(it))
	if !p.branch(tt.Cmp(OpULT, t, strLenTerm(ss))) {
		fr.rtPanic("index out of range")
	}
	i := p.concretize(t)
	for _, e := range ss.B[:i] {
		if _, ok := e.(*Super); ok {
			panic(unsupported{"index behind opaque text"})
		}
	}
	return p.byteOf(ss.B[i])
}

// comparesFirst: the load looks at the first byte of a slice, to compare it.
func comparesFirst(in *ssa.UnOp) bool {
	ia, ok := in.X.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	if c, ok := ia.Index.(*ssa.Const); !ok || c.Int64() != 0 {
		return false
	}
	for _, r := range *in.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.BinOp:
			switch r.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				return false
			}
		default:
			return false
		}
	}
	return true
}

// byteOf gives the first byte of a string element.
func (p *Path) byteOf(e Value) Value {
	sp, ok := e.(*Super)
	if !ok {
		return e
	}
	if sp.Kind == SupJSON {
		n := p.resolve(sp.Node)
		switch n.Kind {
		case JArr:
			return BVC(8, '[')
		case JObj:
			return BVC(8, '{')
		case JStr:
			return BVC(8, '"')
		case JBad:
		default:
			if ex := p.expandText(n); len(ex) > 0 {
				switch t := ex[0].(type) {
				case *Term:
					return t
				case *Super:
					if t.Kind != SupJSON {
						return p.byteOf(t)
					}
				}
			}
		}
	}
	// a minus sign or some digit
	var neg, zero *Term
	tt := p.tt
	switch sp.Kind {
	case SupDec:
		z := BVC(sp.T.W, 0)
		neg, zero = tt.And(BoolC(sp.Signed), tt.Cmp(OpSLT, sp.T, z)), tt.Eq(sp.T, z)
	case SupFloat:
		neg, zero = tt.Var(p.uniq("#minus"), WBool), tt.Var(p.uniq("#zero"), WBool)
	default:
		panic(unsupported{"byte of opaque text"})
	}
	if p.branch(neg) {
		return BVC(8, '-')
	}
	if p.branch(zero) {
		return BVC(8, '0')
	}
	d := tt.Var(p.uniq("#digit"), 8)
	p.assume(tt.And(tt.Cmp(OpULE, BVC(8, '1'), d), tt.Cmp(OpULE, d, BVC(8, '9'))))
	return d
}

func (fr *Frame) slice(in *ssa.Slice) Value {
	p := fr.p
	tt := p.tt
	x := fr.get(in.X)
	var lo, hi, max *Term
	if in.Low != nil {
		lo = tt.Resize(p.asInt(fr.get(in.Low)), 64, isSigned(in.Low.Type()))
	}
	if in.High != nil {
		hi = tt.Resize(p.asInt(fr.get(in.High)), 64, isSigned(in.High.Type()))
	}
	if in.Max != nil {
		max = tt.Resize(p.asInt(fr.get(in.Max)), 64, isSigned(in.Max.Type()))
	}
	switch s := x.(type) {
	case string, *SymStr:
		return fr.sliceStr(s, lo, hi)
	}
	var base []Value
	isNil := false
	switch s := x.(type) {
	case []Value:
		base = s
		isNil = s == nil
	case Ptr:
		a := (*fr.deref(s)).(Array)
		base = []Value(a)
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", x)})
	}
	c := cap(base)
	l, h, m := int64(0), int64(len(base)), int64(c)
	get := func(t *Term, def int64, hiB int64) int64 {
		if t == nil {
			return def
		}
		if t.IsConst() {
			return t.S()
		}
		if !p.branch(tt.Cmp(OpULE, t, BVC(64, uint64(hiB)))) {
			fr.rtPanic("slice bounds out of range")
		}
		return int64(p.concretize(t))
	}
	m = get(max, m, int64(c))
	h = get(hi, h, m)
	l = get(lo, l, h)
	if m < 0 || m > int64(c) || h < 0 || h > m || l < 0 || l > h {
		fr.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, c))
	}
	if isNil {
		return []Value(nil)
	}
	return base[l:h:m]
}

func (fr *Frame) sliceStr(s Value, lo, hi *Term) Value {
	p := fr.p
	tt := p.tt
	n := strLenTerm(s)
	if hi == nil {
		hi = n
	} else if !p.branch(tt.Cmp(OpULE, hi, n)) {
		fr.rtPanic("slice bounds out of range (string high)")
	}
	if lo == nil {
		lo = BVC(64, 0)
	} else if !p.branch(tt.Cmp(OpULE, lo, hi)) {
		fr.rtPanic("slice bounds out of range (string low)")
	}
	l := int(p.concretize(lo))
	if str, ok := s.(string); ok {
		h := int(p.concretize(hi))
		return str[l:h]
	}
	ss := s.(*SymStr)
	if l > len(ss.B) {
		panic(abortPath{"slice beyond cap"})
	}
	if hi.IsConst() {
		return mkStr(ss.B[l:hi.C])
	}
	return p.normStr(&SymStr{B: ss.B[l:], Len: tt.Bin(OpSub, hi, BVC(64, uint64(l)))})
}

func (p *Path) normStr(s *SymStr) Value {
	if s.Len != nil && s.Len.IsConst() {
		return mkStr(s.B[:s.Len.C])
	}
	return s
}

// concLen forces a concrete string length (forking) and returns the elements.
func (p *Path) concLen(s Value) []Value {
	if el, ok := strElems(s); ok {
		return el
	}
	ss := s.(*SymStr)
	n := p.concretize(ss.Len)
	ss.Len = BVC(64, n) // strings are immutable: memoise on the path
	return ss.B[:n]
}

func (p *Path) concat(x, y Value) Value {
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return a + b
		}
		if a == "" {
			return y
		}
	}
	if b, ok := y.(string); ok && b == "" {
		return x
	}
	ax := p.concLen(x)
	if sy, ok := y.(*SymStr); ok && sy.Len != nil && !sy.Len.IsConst() {
		b := append(append([]Value{}, ax...), sy.B...)
		return &SymStr{B: b, Len: p.tt.Bin(OpAdd, sy.Len, BVC(64, uint64(len(ax))))}
	}
	by := p.concLen(y)
	return mkStr(append(append([]Value{}, ax...), by...))
}

func (p *Path) strEq(x, y Value) *Term {
	tt := p.tt
	if a, ok := x.(string); ok {
		if b, ok := y.(string); ok {
			return BoolC(a == b)
		}
	}
	if x == y {
		return True
	}
	hasSup := func(v Value) bool {
		if s, ok := v.(*SymStr); ok {
			for _, e := range s.B {
				if _, ok := e.(*Super); ok {
					return true
				}
			}
		}
		return false
	}
	if hasSup(x) || hasSup(y) {
		return p.elemsEq(p.concLen(x), p.concLen(y))
	}
	lx, ly := strLenTerm(x), strLenTerm(y)
	r := tt.Eq(lx, ly)
	if r == False {
		return r
	}
	bx, by := rawElems(x), rawElems(y)
	n := len(bx)
	if len(by) < n {
		n = len(by)
	}
	if len(bx) != len(by) {
		r = tt.And(r, tt.Cmp(OpULE, lx, BVC(64, uint64(n))))
		if r == False {
			return r
		}
	}
	for i := 0; i < n; i++ {
		e := tt.Eq(bx[i].(*Term), by[i].(*Term))
		if !(lx.IsConst() || ly.IsConst()) {
			e = tt.Or(tt.Cmp(OpULE, lx, BVC(64, uint64(i))), e)
		} else {
			var l uint64
			if lx.IsConst() {
				l = lx.C
			} else {
				l = ly.C
			}
			if uint64(i) >= l {
				break
			}
		}
		r = tt.And(r, e)
		if r == False {
			return r
		}
	}
	return r
}

func rawElems(s Value) []Value {
	if ss, ok := s.(*SymStr); ok {
		return ss.B
	}
	el, _ := strElems(s)
	return el
}

func (p *Path) strLess(x, y Value) *Term {
	if a, ok := concreteStr(x); ok {
		if b, ok := concreteStr(y); ok {
			return BoolC(a < b)
		}
	}
	tt := p.tt
	bx, by := p.concLen(x), p.concLen(y)
	n := len(bx)
	if len(by) < n {
		n = len(by)
	}
	r := BoolC(len(bx) < len(by))
	for i := n - 1; i >= 0; i-- {
		a, ok1 := bx[i].(*Term)
		b, ok2 := by[i].(*Term)
		if !ok1 || !ok2 {
			panic(unsupported{"string order on opaque text"})
		}
		r = tt.Or(tt.Cmp(OpULT, a, b), tt.And(tt.Eq(a, b), r))
	}
	return r
}

// ---- conversions

func (fr *Frame) conv(dst, src types.Type, x Value) Value {
	p := fr.p
	tt := p.tt
	ud, us := dst.Underlying(), src.Underlying()
	if identical(ud, us) {
		return x
	}
	switch d := ud.(type) {
	case *types.Pointer:
		if u, ok := x.(unsafePtr); ok {
			return p.convUnsafe(u, d)
		}
		return x
	case *types.Slice:
		switch s := us.(type) {
		case *types.Basic: // string
			if s.Info()&types.IsString != 0 {
				eb := basicOf(d.Elem())
				if eb.Kind() == types.Byte {
					el := p.concLen(x)
					out := make([]Value, len(el))
					copy(out, el)
					return out
				}
				// []rune
				var out = []Value{}
				it := &strIter{s: x, elems: p.concLen(x)}
				for {
					tu := it.next(fr).(Tuple)
					if tu[0] == False {
						break
					}
					out = append(out, tu[2])
				}
				return out
			}
		}
		return x
	case *types.Basic:
		di := d.Info()
		if d.Kind() == types.UnsafePointer {
			if u, ok := x.(unsafePtr); ok {
				return u
			}
			return unsafePtr{x}
		}
		if di&types.IsString != 0 {
			switch s := x.(type) {
			case []Value:
				if eb := basicOf(us.(*types.Slice).Elem()); eb.Kind() == types.Byte {
					return mkStr(s)
				}
				// []rune
				var sv Value = ""
				for _, r := range s {
					sv = p.concat(sv, p.runeToStr(fr, r.(*Term)))
				}
				return sv
			case *Term:
				return p.runeToStr(fr, tt.Resize(s, 32, isSigned(src)))
			case string, *SymStr:
				return s
			}
		}
		switch a := x.(type) {
		case *Term:
			if a.W == WFP {
				if di&types.IsFloat != 0 {
					if d.Kind() == types.Float32 {
						return p.round32(a)
					}
					return a
				}
				if di&types.IsInteger != 0 {
					return tt.FToI(a, bwidth(d), di&types.IsUnsigned == 0)
				}
			} else if a.W != WBool {
				if di&types.IsInteger != 0 {
					return tt.Resize(a, bwidth(d), isSigned(src))
				}
				if di&types.IsFloat != 0 {
					f := tt.IToF(tt.Resize(a, 64, isSigned(src)), isSigned(src))
					if d.Kind() == types.Float32 && f.IsConst() {
						return p.round32(f)
					} else if d.Kind() == types.Float32 {
						panic(unsupported{"symbolic integer to float32"}) // two roundings are not one
					}
					return f
				}
			} else {
				return a
			}
		case SymF32:
			if di&types.IsFloat != 0 {
				if d.Kind() == types.Float32 {
					return a
				}
				return a.T
			}
			if di&types.IsInteger != 0 {
				return tt.FToI(a.T, bwidth(d), di&types.IsUnsigned == 0)
			}
		case F32:
			if di&types.IsFloat != 0 {
				if d.Kind() == types.Float32 {
					return a
				}
				return FPC(float64(a))
			}
			if di&types.IsInteger != 0 {
				return tt.FToI(FPC(float64(a)), bwidth(d), di&types.IsUnsigned == 0)
			}
		case complex128:
			return a
		case unsafePtr:
			if di&types.IsInteger != 0 {
				return BVC(64, p.ptrID(a.V))
			}
		}
	case *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array, *types.Interface:
		return x
	}
	panic(unsupported{fmt.Sprintf("conv %v -> %v (%T) at %s", src, dst, x, fr.stack())})
}

// wide converts a float32 to float64.
func wide(x Value) Value {
	switch f := x.(type) {
	case SymF32:
		return f.T
	case F32:
		return FPC(float64(f))
	}
	return x
}

// round32 converts a float64 to float32.
func (p *Path) round32(f *Term) Value {
	if f.IsConst() {
		return F32(float32(f.F()))
	}
	return SymF32{p.tt.FUn(OpFRound32, f)}
}

func (p *Path) concF(f *Term) float64 {
	if f.IsConst() {
		return f.F()
	}
	panic(unsupported{"symbolic float32"})
}

func (p *Path) convUnsafe(u unsafePtr, d *types.Pointer) Value {
	switch x := u.V.(type) {
	case Ptr:
		return x
	case unsafePtr:
		return p.convUnsafe(x, d)
	}
	panic(unsupported{fmt.Sprintf("unsafe conversion of %T", u.V)})
}

func (p *Path) runeToStr(fr *Frame, r *Term) Value {
	if r.IsConst() {
		return string(rune(r.S()))
	}
	if p.branch(p.tt.Cmp(OpULT, r, BVC(32, 0x80))) {
		return mkStr([]Value{p.tt.Resize(r, 8, false)})
	}
	return string(rune(sext(p.concretize(r), 32)))
}

// ---- iteration

type iter interface{ next(fr *Frame) Value }

type strIter struct {
	s     Value
	elems []Value
	i     int
}

func (it *strIter) next(fr *Frame) Value {
	p := fr.p
	if it.i >= len(it.elems) {
		return Tuple{False, BVC(64, 0), BVC(32, 0)}
	}
	at := it.i
	e := it.elems[at]
	b, ok := e.(*Term)
	if !ok {
		if sp, ok := e.(*Super); ok {
			_ = sp
			panic(unsupported{"range over opaque text"})
		}
	}
	if p.branch(p.tt.Cmp(OpULT, b, BVC(8, 0x80))) {
		it.i++
		return Tuple{True, BVC(64, uint64(at)), p.tt.Resize(b, 32, false)}
	}
	fn := p.w.prog.lookupFn("unicode/utf8", "DecodeRuneInString")
	res := p.callFn(fr.th, fr, fn, []Value{mkStr(it.elems[at:])}, nil).(Tuple)
	it.i += int(p.concretize(res[1].(*Term)))
	return Tuple{True, BVC(64, uint64(at)), res[0]}
}

type mapIter struct {
	m    *MapV
	ents []*mapEntry
	i    int
	kt   types.Type
	vt   types.Type
	perm bool
	done map[*mapEntry]bool
}

func (it *mapIter) next(fr *Frame) Value {
	p := fr.p
	if it.m != nil {
		p.mapAccess(fr, it.m, false)
	}
	for {
		if it.perm {
			var live []*mapEntry
			for _, e := range it.ents {
				if !e.dead && !it.done[e] {
					live = append(live, e)
				}
			}
			if len(live) == 0 {
				break
			}
			k := 0
			if len(live) > 1 {
				k = p.choose(len(live), "maporder")
			}
			e := live[k]
			it.done[e] = true
			return Tuple{True, e.K, copyVal(e.V)}
		}
		if it.i >= len(it.ents) {
			break
		}
		e := it.ents[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Tuple{True, e.K, copyVal(e.V)}
	}
	return Tuple{False, zero(it.kt), zero(it.vt)}
}

func (fr *Frame) rangeIter(x Value, t types.Type) iter {
	switch m := x.(type) {
	case *MapV:
		mt := t.Underlying().(*types.Map)
		it := &mapIter{m: m, kt: mt.Key(), vt: mt.Elem()}
		if m != nil {
			for _, e := range m.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
			if fr.info.inRepo && fr.p.mapOrder && len(it.ents) > 1 && len(it.ents) <= 3 {
				it.perm = true
				it.done = map[*mapEntry]bool{}
			}
		}
		return it
	case string, *SymStr:
		return &strIter{s: x, elems: fr.p.concLen(x)}
	}
	panic(unsupported{fmt.Sprintf("range over %T", x)})
}

// ---- maps

func (p *Path) mapFind(fr *Frame, m *MapV, k Value, kt types.Type) *mapEntry {
	if m == nil {
		p.hashable(fr, k)
		return nil
	}
	if li, ok := k.(*LazyIface); ok {
		k = p.force(li)
	}
	p.hashable(fr, k)
	ck, conc := concKey(k)
	if conc && m.nsym == 0 {
		if f, ok := ck.(float64); ok && f != f {
			return nil
		}
		return m.idx[ck]
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		c := p.eq(fr, kt, e.K, k)
		if p.branch(c) {
			return e
		}
	}
	return nil
}

func (p *Path) hashable(fr *Frame, k Value) {
	if i, ok := k.(Iface); ok && i.T != nil && !types.Comparable(i.T) {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimeErrorT, V: "hash of unhashable type " + typeStr(i.T)}, stack: fr.stack()})
	}
}

func (p *Path) mapSet(fr *Frame, m *MapV, k, v Value, kt types.Type) {
	if li, ok := k.(*LazyIface); ok {
		k = p.force(li)
	}
	if e := p.mapFind(fr, m, k, kt); e != nil {
		e.V = v
		return
	}
	e := &mapEntry{K: k, V: v}
	m.ents = append(m.ents, e)
	m.n++
	if ck, ok := concKey(k); ok {
		m.idx[ck] = e
	} else {
		m.nsym++
	}
}

func (p *Path) mapDelete(fr *Frame, m *MapV, k Value, kt types.Type) {
	if m == nil {
		return
	}
	e := p.mapFind(fr, m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, ok := concKey(e.K); ok {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	// compact
	out := m.ents[:0:0]
	for _, x := range m.ents {
		if !x.dead {
			out = append(out, x)
		}
	}
	m.ents = out
}

func (fr *Frame) lookup(in *ssa.Lookup) Value {
	x := fr.get(in.X)
	idx := fr.get(in.Index)
	m, ok := x.(*MapV)
	if !ok {
		return fr.strIndex(x, idx, in.Index.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	if m != nil {
		fr.p.mapAccess(fr, m, false)
	}
	e := fr.p.mapFind(fr, m, idx, mt.Key())
	var v Value
	if e != nil {
		v = copyVal(e.V)
	} else {
		v = zero(mt.Elem())
	}
	if in.CommaOk {
		return Tuple{v, BoolC(e != nil)}
	}
	return v
}

// ---- interfaces

var implCache sync.Map

type implKey struct {
	t types.Type
	i *types.Interface
}

func implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	implCache.Store(k, r)
	return r
}

func (p *Path) implementsV(v Iface, it *types.Interface) bool {
	if v.T == nil {
		return false
	}
	return implements(v.T, it)
}

func (fr *Frame) typeAssert(in *ssa.TypeAssert, v Iface) Value {
	var res Value
	ok := false
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		res = v
		ok = fr.p.implementsV(v, it)
	} else if v.T != nil && identical(v.T, in.AssertedType) {
		res = copyVal(v.V)
		ok = true
	}
	if !ok {
		if !in.CommaOk {
			msg := ""
			if v.T == nil {
				msg = fmt.Sprintf("interface conversion: interface is nil, not %s", typeStr(in.AssertedType))
			} else {
				msg = fmt.Sprintf("interface conversion: interface {} is %s, not %s", typeStr(v.T), typeStr(in.AssertedType))
			}
			panic(targetPanic{v: Iface{T: fr.p.w.prog.runtimeErrorT, V: msg}, stack: fr.stack()})
		}
		res = zero(in.AssertedType)
	}
	if in.CommaOk {
		return Tuple{res, BoolC(ok)}
	}
	return res
}

// ---- calls

func (fr *Frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(c.Value)
	var args []Value
	var fn Value
	if c.Method == nil {
		fn = v
	} else {
		recv := fr.p.force(v)
		if recv.T == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn = fr.p.methodOf(recv, c.Method)
		args = append(args, copyVal(recv.V))
	}
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (p *Path) methodOf(recv Iface, m *types.Func) Value {
	if rt, ok := recv.V.(*RType); ok {
		name := m.Name()
		_ = rt
		return &HostFunc{Name: "reflect.Type." + name, F: func(fr *Frame, args []Value) Value {
			return rtypeMethod(fr, args[0].(*RType), name, args[1:])
		}}
	}
	f := p.w.prog.lookupMethod(recv.T, m)
	if f == nil {
		panic(unsupported{fmt.Sprintf("no method %v on %v", m, recv.T)})
	}
	return f
}

// callMethod calls a method by name on a dynamic value.
func (p *Path) callMethod(fr *Frame, recv Iface, name string, args ...Value) Value {
	f := p.w.prog.methodByName(recv.T, name)
	if f == nil {
		panic(unsupported{fmt.Sprintf("no method %s on %v", name, recv.T)})
	}
	return p.callFn(fr.th, fr, f, append([]Value{copyVal(recv.V)}, args...), nil)
}

func (p *Path) callValue(fr *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p.callFn(fr.th, fr, f, args, nil)
	case *Closure:
		return p.callFn(fr.th, fr, f.Fn, args, f.Env)
	case *HostFunc:
		return f.F(fr, args)
	case *ssa.Builtin:
		return fr.builtin(f, args)
	}
	panic(unsupported{fmt.Sprintf("call of %T", fn)})
}

func (fr *Frame) builtin(b *ssa.Builtin, args []Value) Value {
	p := fr.p
	tt := p.tt
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		var add []Value
		switch s := args[1].(type) {
		case string, *SymStr:
			add = p.concLen(s)
		case []Value:
			add = make([]Value, len(s))
			for i := range s {
				add[i] = copyVal(s[i])
			}
		}
		base := args[0].([]Value)
		if len(add) == 0 {
			return base
		}
		return append(base, add...)
	case "copy":
		dst := args[0].([]Value)
		var src []Value
		switch s := args[1].(type) {
		case string, *SymStr:
			src = p.concLen(s)
		case []Value:
			src = s
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			storeTo(&dst[i], tmp[i])
		}
		return BVC(64, uint64(n))
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return strLenTerm(x)
		case []Value:
			return BVC(64, uint64(len(x)))
		case *MapV:
			if x == nil {
				return BVC(64, 0)
			}
			p.mapAccess(fr, x, false)
			return BVC(64, uint64(x.Len()))
		case *ChanV:
			if x == nil {
				return BVC(64, 0)
			}
			return BVC(64, uint64(len(x.buf)))
		case Array:
			return BVC(64, uint64(len(x)))
		case Ptr:
			return BVC(64, uint64(len((*x).(Array))))
		}
	case "cap":
		switch x := args[0].(type) {
		case []Value:
			return BVC(64, uint64(cap(x)))
		case *ChanV:
			if x == nil {
				return BVC(64, 0)
			}
			return BVC(64, uint64(x.cap))
		case Array:
			return BVC(64, uint64(len(x)))
		case Ptr:
			return BVC(64, uint64(len((*x).(Array))))
		}
	case "delete":
		m := args[0].(*MapV)
		var kt types.Type = types.NewInterfaceType(nil, nil)
		if sig, ok := b.Type().(*types.Signature); ok && sig.Params().Len() == 2 {
			kt = sig.Params().At(1).Type()
		}
		if m != nil {
			p.mapAccess(fr, m, true)
		}
		p.mapDelete(fr, m, args[1], kt)
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				*x = *newMap()
			}
			return nil
		case []Value:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				storeTo(&x[i], zero(et))
			}
			return nil
		}
	case "panic":
		panic(targetPanic{v: p.force(args[0]), stack: fr.stack()})
	case "recover":
		return doRecover(fr)
	case "print", "println":
		return nil
	case "close":
		p.chanClose(fr, args[0].(*ChanV))
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := a.(type) {
			case *Term:
				y := r.(*Term)
				sgn := isSigned(b.Type().(*types.Signature).Params().At(0).Type())
				var lt *Term
				if x.W == WFP {
					lt = tt.FCmp(OpFLt, x, y)
				} else {
					lt = tt.Cmp(pick(sgn, OpSLT, OpULT), x, y)
				}
				if b.Name() == "max" {
					if x.W == WFP {
						lt = tt.FCmp(OpFLt, y, x)
					} else {
						lt = tt.Cmp(pick(sgn, OpSLT, OpULT), y, x)
					}
				}
				r = tt.Ite(lt, x, y)
			default:
				c := p.strLess(a, r)
				if b.Name() == "max" {
					c = p.strLess(r, a)
				}
				if p.branch(c) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if pt, ok := args[0].(Ptr); ok && pt == nil {
			fr.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2]))
		}
		return args[0]
	case "ssa:deferstack":
		return deferStackRef{&fr.defers}
	case "String": // unsafe.String
		n := int(p.concretize(tt.Resize(p.asInt(args[1]), 64, true)))
		if n == 0 {
			return ""
		}
		switch x := args[0].(type) {
		case sliceData:
			return mkStr(x.S[:n])
		case stringData:
			return mkStr(p.concLen(x.S)[:n])
		}
	case "SliceData":
		return sliceData{args[0].([]Value)}
	case "StringData":
		return stringData{args[0]}
	case "Slice":
		n := int(p.concretize(tt.Resize(p.asInt(args[1]), 64, true)))
		switch x := args[0].(type) {
		case sliceData:
			return x.S[:n:n]
		case stringData:
			out := make([]Value, n)
			copy(out, p.concLen(x.S)[:n])
			return out
		case Ptr:
			if x == nil {
				return []Value(nil)
			}
		}
	case "real":
		return FPC(real(args[0].(complex128)))
	case "imag":
		return FPC(imag(args[0].(complex128)))
	}
	panic(unsupported{fmt.Sprintf("builtin %s %T at %s", b.Name(), args[0], fr.stack())})
}

func doRecover(caller *Frame) Value {
	// caller is the deferred function's frame; its caller is the panicking one
	if caller.caller != nil && caller.caller.panicking {
		if tp, ok := caller.caller.panicV.(targetPanic); ok {
			caller.caller.panicking = false
			caller.caller.panicV = nil
			return tp.v
		}
	}
	return Iface{}
}

var _ = math.Inf
