package main

// Threads, channels, select, virtual time and the delay-bounded scheduler.
// Every scheduling decision is a fresh symbolic variable decided like any
// other branch.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type tstate int

const (
	tsRun tstate = iota
	tsBlocked
	tsIdleWait // waiting for everybody else to be idle
	tsDone
)

type Thread struct {
	id    int
	p     *Path
	wake  chan struct{}
	state tstate
	top   *Frame
	why   string
	vc    []int32
	fn    Value
	order int // creation order key
	wantTimers bool
	started    bool
	wasBlocked bool // held back after a blocking operation
}

type threadKill struct{}

type waiter struct {
	th   *Thread
	val  Value
	ok   bool
	done *bool // shared by all cases of a select
	idx  int
	sel  *int
	send bool
	wake bool
}

type vtimer struct {
	when int64
	seq  int
	fire func()
	dead bool
}

func (p *Path) runMain(fn *ssa.Function) {
	main := &Thread{id: 0, p: p, wake: make(chan struct{}, 1), started: true}
	p.threads = []*Thread{main}
	p.cur = main
	var wg sync.WaitGroup
	p.w.ex.mu.Lock()
	p.w.ex.mu.Unlock()
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer p.threadEnd(main)
		p.callFn(main, nil, fn, nil, nil)
	}()
	<-p.endc
	// unwind everybody else
	for _, t := range p.threads {
		if t.state != tsDone {
			select {
			case t.wake <- struct{}{}:
			default:
			}
		}
	}
	wg.Wait()
	for _, t := range p.threads[1:] {
		<-t.exited()
	}
}

func (t *Thread) exited() chan struct{} {
	return t.p.exitChan(t)
}

var exitMu sync.Mutex

func (p *Path) exitChan(t *Thread) chan struct{} {
	exitMu.Lock()
	defer exitMu.Unlock()
	k := "exit"
	_ = k
	c, ok := p.side[t].(chan struct{})
	if !ok {
		c = make(chan struct{})
		p.side[t] = c
	}
	return c
}

// threadEnd is deferred at the bottom of every thread.
func (p *Path) threadEnd(t *Thread) {
	r := recover()
	if t.id != 0 {
		defer close(p.exitChan(t))
	}
	if _, ok := r.(threadKill); ok || p.ended {
		t.state = tsDone
		return
	}
	switch x := r.(type) {
	case nil, goexit:
		t.state = tsDone
		if t.id == 0 {
			p.end(nil)
			return
		}
		p.handoff(t)
	case targetPanic:
		func() {
			defer func() {
				if r2 := recover(); r2 != nil {
					p.end(r2)
				}
			}()
			if p.silentPanicOK {
				p.end(nil)
				return
			}
			msg := "uncaught panic: " + p.panicText(x.v)
			if t.id != 0 {
				msg = "uncaught panic in goroutine: " + p.panicText(x.v)
			}
			m := p.getModel()
			p.violationStack("panic", msg, x.stack, m)
			p.end(violationStop{})
		}()
	case runtimeFatal:
		p.violationStack("fatal", x.msg, "", p.getModel())
		p.end(violationStop{})
	default:
		if e, ok := r.(error); ok {
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine error: %v\n%s\n", e, debug.Stack())
			}
			p.end(unsupported{"engine error: " + e.Error()})
			return
		}
		p.end(r)
	}
}

func (p *Path) violationStack(kind, msg, stack string, m Model) {
	p.violation(nil, kind, msg, m)
	ex := p.w.ex
	ex.mu.Lock()
	if n := len(ex.violations); n > 0 && ex.violations[n-1].Stack == "" {
		ex.violations[n-1].Stack = stack
	}
	ex.mu.Unlock()
}

func (p *Path) panicText(v Iface) string {
	if v.T == nil {
		return "nil"
	}
	if s, ok := concreteStr0(v.V); ok {
		return typeStr(v.T) + " " + s
	}
	return typeStr(v.T)
}

func concreteStr0(v Value) (string, bool) {
	switch v.(type) {
	case string, *SymStr:
		return concreteStr(v)
	}
	return "", false
}

func (p *Path) end(outcome interface{}) {
	if p.ended {
		return
	}
	p.ended = true
	p.outcome = outcome
	close(p.endc)
}

// park gives the baton away and waits to be scheduled again.
func (p *Path) park(t *Thread) {
	<-t.wake
	if p.ended {
		panic(threadKill{})
	}
	p.cur = t
	t.wasBlocked = false
}

func (p *Path) runnable() []*Thread {
	var r []*Thread
	for _, t := range p.threads {
		if t.state == tsRun {
			r = append(r, t)
		}
	}
	return r
}

// order returns the runnable threads in round-robin order after t.
func (p *Path) rr(t *Thread) []*Thread {
	var out []*Thread
	n := len(p.threads)
	for i := 1; i <= n; i++ {
		c := p.threads[(t.id+i)%n]
		if c.state == tsRun {
			out = append(out, c)
		}
	}
	return out
}

// handoff picks the next thread after t stopped running (blocked or done).
func (p *Path) handoff(t *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(threadKill); ok {
				panic(r)
			}
			if t.state == tsDone {
				p.end(r)
				return
			}
			panic(r)
		}
	}()
	for {
		cand := p.rr(t)
		if len(cand) > 0 {
			k := 0
			if len(cand) > 1 && p.preemptLeft > 0 && !p.quiet {
				n := len(cand)
				if n > p.preemptLeft+1 {
					n = p.preemptLeft + 1
				}
				k = p.choose(n, "sched")
				p.preemptLeft -= k
				for _, c := range cand[:k] {
					p.noteDelay(c)
				}
			}
			p.schedule(cand[k], t)
			return
		}
		// nobody runnable: an idle waiter?
		var idle, idleT *Thread
		for _, th := range p.threads {
			if th.state == tsIdleWait {
				if th.wantTimers {
					idleT = th
				} else {
					idle = th
				}
			}
		}
		if idle != nil {
			idle.state = tsRun
			p.schedule(idle, t)
			return
		}
		if p.fireTimer() {
			// those due at the same moment go off together
			for p.timerDue() && p.fireTimer() {
			}
			continue
		}
		if idleT != nil {
			idleT.state = tsRun
			p.schedule(idleT, t)
			return
		}
		// deadlock
		p.deadlock(t)
		return
	}
}

func (p *Path) schedule(next, from *Thread) {
	p.schedTrace = append(p.schedTrace, fmt.Sprintf("T%d", next.id))
	if next == from {
		next.wake <- struct{}{}
		return
	}
	next.wake <- struct{}{}
}

func (p *Path) deadlock(t *Thread) {
	var sb string
	for _, th := range p.threads {
		if th.state == tsBlocked {
			st := ""
			if th.top != nil {
				st = th.top.stack()
			}
			sb += fmt.Sprintf("T%d blocked on %s at %s\n", th.id, th.why, st)
		}
	}
	p.violationStack("deadlock", "hang: the harness can never finish ("+p.threads[0].why+")", sb, p.getModel())
	p.end(violationStop{})
	if t.state != tsDone {
		panic(threadKill{})
	}
}

func (p *Path) fireTimer() bool {
	best := -1
	for i, tm := range p.timers {
		if tm.dead {
			continue
		}
		if best < 0 || tm.when < p.timers[best].when {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	tm := p.timers[best]
	tm.dead = true
	p.timers = append(p.timers[:best:best], p.timers[best+1:]...)
	if tm.when > p.vnow() {
		p.setVnow(tm.when)
	}
	tm.fire()
	return true
}

func (p *Path) timerDue() bool {
	for _, tm := range p.timers {
		if !tm.dead && tm.when <= p.vnow() {
			return true
		}
	}
	return false
}

type vnowKey struct{}

func (p *Path) vnow() int64 {
	if v, ok := p.side[vnowKey{}].(int64); ok {
		return v
	}
	return 0
}
func (p *Path) setVnow(n int64) { p.side[vnowKey{}] = n }

func (p *Path) addTimer(d int64, fire func()) *vtimer {
	tm := &vtimer{when: p.vnow() + d, seq: len(p.timers), fire: fire}
	p.timers = append(p.timers, tm)
	sort.SliceStable(p.timers, func(i, j int) bool { return p.timers[i].when < p.timers[j].when })
	return tm
}

// block suspends the current thread until made runnable by someone else.
func (p *Path) block(fr *Frame, why string) {
	t := fr.th
	t.state = tsBlocked
	t.why = why
	t.wasBlocked = true
	p.handoff(t)
	p.park(t)
}

func (p *Path) ready(t *Thread) {
	if t.state == tsBlocked {
		t.state = tsRun
	}
}

// yield is a preemption point.
func (p *Path) yield(fr *Frame) {
	if p.quiet || p.preemptLeft <= 0 || len(p.threads) < 2 {
		return
	}
	t := fr.th
	cand := p.rr(t) // t itself is last
	if len(cand) < 2 {
		return
	}
	// default: continue with t; k>0: switch to the k-th other thread
	n := len(cand)
	if n > p.preemptLeft+1 {
		n = p.preemptLeft + 1
	}
	k := p.choose(n, "preempt")
	if k == 0 {
		return
	}
	p.preemptLeft -= k
	nx := cand[k-1]
	if nx == t {
		return
	}
	p.noteDelay(t)
	for _, c := range cand[:k-1] {
		p.noteDelay(c)
	}
	p.schedule(nx, t)
	p.park(t)
}

// yieldIf is a preemption point only for operations performed by code under
// verification (repository or harness), not inside library code.
func (p *Path) yieldIf(fr *Frame) {
	if fr.fn == nil {
		return
	}
	if fr.info.inRepo {
		p.yield(fr)
		return
	}
	switch path := fnPkgPath(fr.fn); path {
	case harnessModule + "/tx", harnessModule + "/nx", modelPkg:
		// these say themselves where (v.Yield)
	default:
		if isHarnessPath(path) {
			p.yield(fr)
		}
	}
}

func (p *Path) goStmt(fr *Frame, fn Value, args []Value) {
	t := &Thread{id: len(p.threads), p: p, wake: make(chan struct{}, 1), state: tsRun, fn: fn}
	if len(p.threads) > 60 {
		panic(unsupported{"too many goroutines"})
	}
	p.threads = append(p.threads, t)
	p.hbFork(fr.th, t)
	p.exitChan(t)
	name := ""
	if f, ok := fn.(*ssa.Function); ok {
		name = f.String()
	} else if c, ok := fn.(*Closure); ok {
		name = c.Fn.String()
	}
	p.schedTrace = append(p.schedTrace, fmt.Sprintf("go T%d %s", t.id, name))
	go func() {
		defer p.threadEnd(t)
		<-t.wake
		if p.ended {
			panic(threadKill{})
		}
		p.cur = t
		t.started = true
		base := &Frame{th: t, p: p, fn: fr.fn, info: fr.info}
		p.callValue(base, fn, args)
	}()
}

// ---- channels

func (p *Path) makeChan(n int, t types.Type) *ChanV {
	p.chans++
	return &ChanV{cap: n, id: p.chans, elem: t.Underlying().(*types.Chan).Elem()}
}

func (p *Path) chanOf(v Value) *ChanV {
	c, ok := v.(*ChanV)
	if !ok {
		panic(unsupported{fmt.Sprintf("channel op on %T", v)})
	}
	return c
}

func popWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.done != nil && *w.done {
			continue
		}
		return w
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, w := range q {
		if w.done == nil || !*w.done {
			return true
		}
	}
	return false
}

func (w *waiter) complete(p *Path) {
	if w.done != nil {
		*w.done = true
	}
	if w.sel != nil {
		*w.sel = w.idx
	}
	w.wake = true
	p.ready(w.th)
}

// trySend returns false when it would block.
func (p *Path) trySend(fr *Frame, c *ChanV, v Value) bool {
	if c.closed {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "send on closed channel"}, stack: fr.stack()})
	}
	if w := popWaiter(&c.recvq); w != nil {
		w.val, w.ok = copyVal(v), true
		p.hbRelease(fr.th, c)
		p.hbAcquire(w.th, c)
		w.complete(p)
		return true
	}
	if len(c.buf) < c.cap {
		p.hbRelease(fr.th, c)
		c.buf = append(c.buf, copyVal(v))
		return true
	}
	return false
}

func (p *Path) tryRecv(fr *Frame, c *ChanV) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		p.hbAcquire(fr.th, c)
		if w := popWaiter(&c.sendq); w != nil {
			c.buf = append(c.buf, w.val)
			p.hbRelease(w.th, c)
			w.complete(p)
		}
		return v, true, true
	}
	if w := popWaiter(&c.sendq); w != nil {
		p.hbRelease(w.th, c)
		p.hbAcquire(fr.th, c)
		w.complete(p)
		return w.val, true, true
	}
	if c.closed {
		p.hbAcquire(fr.th, c)
		return zero(c.elem), false, true
	}
	return nil, false, false
}

func (p *Path) chanSend(fr *Frame, cv, v Value) {
	c := p.chanOf(cv)
	p.yieldIf(fr)
	if c == nil {
		for {
			p.block(fr, "send on nil channel")
		}
	}
	if p.trySend(fr, c, v) {
		return
	}
	w := &waiter{th: fr.th, val: copyVal(v), send: true}
	c.sendq = append(c.sendq, w)
	for !w.wake {
		p.block(fr, fmt.Sprintf("send on channel #%d", c.id))
	}
	if !w.ok && c.closed && w.idx == -1 {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "send on closed channel"}, stack: fr.stack()})
	}
}

func (p *Path) chanRecv(fr *Frame, cv Value) (Value, bool) {
	c := p.chanOf(cv)
	p.yieldIf(fr)
	if c == nil {
		for {
			p.block(fr, "receive from nil channel")
		}
	}
	if v, ok, done := p.tryRecv(fr, c); done {
		return v, ok
	}
	w := &waiter{th: fr.th}
	c.recvq = append(c.recvq, w)
	for !w.wake {
		p.block(fr, fmt.Sprintf("receive from channel #%d", c.id))
	}
	return w.val, w.ok
}

func (p *Path) chanClose(fr *Frame, c *ChanV) {
	p.yieldIf(fr)
	if c == nil {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "close of nil channel"}, stack: fr.stack()})
	}
	if c.closed {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "close of closed channel"}, stack: fr.stack()})
	}
	c.closed = true
	p.hbRelease(fr.th, c)
	for {
		w := popWaiter(&c.recvq)
		if w == nil {
			break
		}
		w.val, w.ok = zero(c.elem), false
		p.hbAcquire(w.th, c)
		w.complete(p)
	}
	for {
		w := popWaiter(&c.sendq)
		if w == nil {
			break
		}
		w.ok = false
		si := w.sel
		w.complete(p)
		if si != nil {
			*si = -2 - w.idx
		} else {
			w.idx = -1
		}
	}
}

func (p *Path) selectStmt(fr *Frame, in *ssa.Select) Value {
	p.yieldIf(fr)
	type cs struct {
		c    *ChanV
		send bool
		v    Value
	}
	cases := make([]cs, len(in.States))
	var readyIdx []int
	for i, st := range in.States {
		c := p.chanOf(fr.get(st.Chan))
		cases[i] = cs{c: c, send: st.Dir == types.SendOnly}
		if cases[i].send {
			cases[i].v = fr.get(st.Send)
		}
		if c == nil {
			continue
		}
		if cases[i].send {
			if c.closed || hasWaiter(c.recvq) || len(c.buf) < c.cap {
				readyIdx = append(readyIdx, i)
			}
		} else if c.closed || len(c.buf) > 0 || hasWaiter(c.sendq) {
			readyIdx = append(readyIdx, i)
		}
	}
	result := func(idx int, v Value, ok bool) Value {
		t := Tuple{BVC(64, uint64(int64(idx))), BoolC(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	if len(readyIdx) > 0 {
		k := 0
		if len(readyIdx) > 1 && p.selectsLeft != 0 {
			// the runtime picks uniformly: every choice is possible
			k = p.choose(len(readyIdx), "select")
			if k > 0 && p.selectsLeft > 0 {
				p.selectsLeft--
			}
		}
		i := readyIdx[k]
		if cases[i].send {
			p.trySend(fr, cases[i].c, cases[i].v)
			return result(i, nil, false)
		}
		v, ok, _ := p.tryRecv(fr, cases[i].c)
		return result(i, v, ok)
	}
	if !in.Blocking {
		return result(-1, nil, false)
	}
	done := false
	sel := -1
	ws := make([]*waiter, len(cases))
	why := "select"
	for i, c := range cases {
		if c.c == nil {
			continue
		}
		w := &waiter{th: fr.th, done: &done, idx: i, sel: &sel, send: c.send}
		ws[i] = w
		if c.send {
			w.val = copyVal(c.v)
			c.c.sendq = append(c.c.sendq, w)
		} else {
			c.c.recvq = append(c.c.recvq, w)
		}
		why += fmt.Sprintf(" #%d", c.c.id)
	}
	for !done {
		p.block(fr, why)
	}
	if sel <= -2 {
		panic(targetPanic{v: Iface{T: p.w.prog.runtimePlainErrorT, V: "send on closed channel"}, stack: fr.stack()})
	}
	w := ws[sel]
	if w.send {
		return result(sel, nil, false)
	}
	return result(sel, w.val, w.ok)
}

// ---- happens-before (vector clocks), for map races

func (t *Thread) clk(i int) int32 {
	if i < len(t.vc) {
		return t.vc[i]
	}
	return 0
}
func (t *Thread) bump() {
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id]++
}
func joinVC(a, b []int32) []int32 {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
	return a
}
func (p *Path) hbFork(parent, child *Thread) {
	parent.bump()
	child.vc = append([]int32{}, parent.vc...)
	child.bump()
}
func (p *Path) hbRelease(t *Thread, obj interface{}) {
	if p.vclockLocks == nil {
		p.vclockLocks = map[interface{}][]int32{}
	}
	t.bump()
	p.vclockLocks[obj] = joinVC(p.vclockLocks[obj], t.vc)
}
func (p *Path) hbAcquire(t *Thread, obj interface{}) {
	if p.vclockLocks == nil {
		return
	}
	t.vc = joinVC(t.vc, p.vclockLocks[obj])
}

type shadowCell struct {
	wt    int
	wc    int32
	reads map[int]int32
	wfn   string
}

func (p *Path) raceCheck(fr *Frame, obj interface{}, write bool, what string) {
	if !p.raceOn || len(p.threads) < 2 || p.quiet {
		return
	}
	t := fr.th
	if p.shadow == nil {
		p.shadow = map[interface{}]*shadowCell{}
	}
	s := p.shadow[obj]
	if s == nil {
		s = &shadowCell{wt: -1, reads: map[int]int32{}}
		p.shadow[obj] = s
	}
	race := false
	if s.wt >= 0 && s.wt != t.id && s.wc > t.clk(s.wt) {
		race = true
	}
	if write {
		for r, c := range s.reads {
			if r != t.id && c > t.clk(r) {
				race = true
			}
		}
	}
	if race {
		p.violation(fr, "race", "unsynchronised concurrent access to "+what, p.getModel())
		panic(violationStop{})
	}
	if len(t.vc) <= t.id {
		t.bump()
	}
	if write {
		s.wt, s.wc = t.id, t.clk(t.id)
		s.reads = map[int]int32{}
	} else {
		s.reads[t.id] = t.clk(t.id)
	}
}

func (p *Path) mapAccess(fr *Frame, m *MapV, write bool) {
	if p.raceOn && (fr.info != nil && fr.info.inRepo) {
		p.raceCheck(fr, m, write, "map")
	}
}

// memAccess makes accesses to variables of the repository that several
// goroutines share and that are written after sharing (found by the earlier
// rounds of the exploration) preemption points.
func (p *Path) memAccess(fr *Frame, addr ssa.Value, cell Ptr, write bool) {
	ex := p.w.ex
	if !ex.fields || p.quiet || len(p.threads) < 2 || !fr.info.inRepo {
		return
	}
	key := addrKey(addr)
	if key == "" {
		return
	}
	k := cellKey{cell}
	ci, ok := p.side[k].(*cellInfo)
	if !ok {
		ci = &cellInfo{th: fr.th.id}
		p.side[k] = ci
	}
	if ci.th != fr.th.id {
		ci.multi = true
	}
	if write && ci.multi {
		ci.written = true
	}
	if ex.hot[key] {
		p.yield(fr)
	} else if ci.multi && ci.written {
		ex.mu.Lock()
		ex.hotNew[key] = true
		ex.mu.Unlock()
	}
}

type cellInfo struct {
	th             int
	multi, written bool
}

type cellKey struct{ c Ptr }

var addrKeys sync.Map

func addrKey(addr ssa.Value) string {
	if k, ok := addrKeys.Load(addr); ok {
		return k.(string)
	}
	k := ""
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		if n, ok := types.Unalias(st).(*types.Named); ok && n.Obj().Pkg() != nil && isRepoPath(n.Obj().Pkg().Path()) {
			if s, ok := n.Underlying().(*types.Struct); ok {
				k = n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + s.Field(a.Field).Name()
			}
		}
	case *ssa.Global:
		k = a.String()
	case *ssa.FreeVar:
		k = outermost(a.Parent()) + ":" + a.Name()
	case *ssa.Alloc:
		if a.Heap && a.Comment != "" {
			k = outermost(a.Parent()) + ":" + a.Comment
		}
	}
	addrKeys.Store(addr, k)
	return k
}

func outermost(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.String()
}

// ---- what to delay in the native replay

// Delay is a place where a goroutine has to wait while others go on.
type Delay struct {
	Site string `json:"site"` // file.go:line, with + for after the statement
	Fn   string `json:"fn"`
}

// noteDelay records that t is held back where it is now.
func (p *Path) noteDelay(t *Thread) {
	d := Delay{}
	fr := t.top
	if !t.started {
		fn := t.fn
		switch f := fn.(type) {
		case *ssa.Function:
			d.Fn, d.Site = f.String(), p.siteOf(f.Pos())+"{"
		case *Closure:
			d.Fn, d.Site = f.Fn.String(), p.siteOf(f.Fn.Pos())+"{"
		}
		p.delays = append(p.delays, d)
		return
	}
	for ; fr != nil; fr = fr.caller {
		if fr.fn != nil && fr.pos.IsValid() && (fr.info.inRepo || isHarnessPath(fnPkgPath(fr.fn))) {
			break
		}
	}
	if fr == nil {
		return
	}
	d.Fn, d.Site = fr.fn.String(), p.siteOf(fr.pos)
	if t.wasBlocked {
		d.Site += "+"
	}
	p.delays = append(p.delays, d)
}

func (p *Path) siteOf(pos token.Pos) string {
	ps := p.w.prog.fset.Position(pos)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}
