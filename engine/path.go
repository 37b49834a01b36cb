package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Entry is one recorded decision of a path.
type Entry struct {
	Pick   int32
	Forced bool
	Kind   byte // 'b' branch, 'c' choose, 'v' concretize
	Val    uint64
}

type workItem struct {
	prefix []Entry
	model  Model
}

// Explorer explores all paths of one harness function.
type Explorer struct {
	prog     *Program
	fn       *ssa.Function
	name     string
	workers  int
	maxSteps int64
	maxPaths int64
	deadline time.Time
	solverCmd []string
	solverTO int
	debug    bool
	preempt  int
	nsamples int

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []workItem
	active  int
	stopped bool

	paths      int64
	completed  int64
	infeasible int64
	steps      int64
	decisions  int64
	queries    int64
	unknowns   int64
	solverTime int64
	asserts    int64
	incomplete map[string]int64
	violations []*Violation
	vioSeen    map[string]bool
	reached    map[string]int64
	fns        map[string]bool
	samples    []*Sample
	stubs      map[string]int64
	stopOnVio  int
	hooks      map[string]Value
	maxDecisions int
	raceTries int
	forkSites map[string]int64
	partial []*Sample
	npartial, unfinished int
	fields  bool            // accesses to shared variables are preemption points
	hot     map[string]bool // the shared variables
	hotNew  map[string]bool
	noPreempt bool
}

type Violation struct {
	Harness string
	Msg     string
	Kind    string // assert, panic, deadlock, race
	Stack   string
	Inputs  []Input
	Sched   []string
	Delays  []Delay
	Try     int
	Build   string   // kind of native build that reproduced it
	Dirs    []string // packages instrumented in that build
	Prefix  []Entry
	// filled by replay
	Reproduced bool
	ReplayOut  string
	ReplayPath string
}

// Sample is a completed path with concrete inputs and predicted observations.
type Sample struct {
	Harness string
	Inputs  []Input
	Observe []string
	Sched   []string
	Partial bool
}

type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"`
}

func (ex *Explorer) timeUp() bool {
	return time.Now().After(ex.deadline)
}

type Worker struct {
	ex   *Explorer
	prog *Program
	id   int
	sol  *Solver
	// std package globals, shared by all paths of this worker
	stdGlobals map[*ssa.Global]Ptr
	stdInit    map[*ssa.Package]int
	fns        map[*ssa.Function]bool
	path       *Path
	uniq       map[string]Ptr
}

func (w *Worker) markFn(fn *ssa.Function) { w.fns[fn] = true }

func (ex *Explorer) Run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.incomplete = map[string]int64{}
	ex.vioSeen = map[string]bool{}
	ex.reached = map[string]int64{}
	ex.fns = map[string]bool{}
	ex.stubs = map[string]int64{}
	ex.hotNew = map[string]bool{}
	ex.stack = []workItem{{}}
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{ex: ex, prog: ex.prog, id: i, stdGlobals: map[*ssa.Global]Ptr{}, stdInit: map[*ssa.Package]int{}, fns: map[*ssa.Function]bool{}}
			w.sol = NewSolver(ex.solverCmd, ex.solverTO)
			defer w.sol.Close()
			w.sol.Where = func() string {
				out := ""
				if p := w.path; p != nil && p.cur != nil {
					n := 0
					for fr := p.cur.top; fr != nil && n < 8; fr = fr.caller {
						out += " < " + fr.fn.String() + ":" + fmt.Sprint(w.prog.fset.Position(fr.pos).Line)
						n++
					}
				}
				return out
			}
			for {
				ex.mu.Lock()
				for len(ex.stack) == 0 && ex.active > 0 && !ex.stopped {
					ex.cond.Wait()
				}
				if ex.stopped || len(ex.stack) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					break
				}
				it := ex.stack[len(ex.stack)-1]
				ex.stack = ex.stack[:len(ex.stack)-1]
				ex.active++
				ex.mu.Unlock()
				w.runPath(it)
				ex.mu.Lock()
				ex.active--
				if ex.timeUp() && len(ex.stack) > 0 {
					ex.incomplete["time limit: unexplored alternatives"] += int64(len(ex.stack))
					ex.stack = nil
				}
				if ex.maxPaths > 0 && atomic.LoadInt64(&ex.paths) >= ex.maxPaths && len(ex.stack) > 0 {
					ex.incomplete["path limit: unexplored alternatives"] += int64(len(ex.stack))
					ex.stack = nil
				}
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
			ex.mu.Lock()
			ex.queries += int64(w.sol.Queries)
			ex.unknowns += int64(w.sol.Unknowns)
			ex.solverTime += int64(w.sol.Time)
			for f := range w.fns {
				ex.fns[f.String()] = true
			}
			ex.mu.Unlock()
		}(i)
	}
	wg.Wait()
}

// Path is one symbolic execution.
type Path struct {
	w        *Worker
	tt       *TermTab
	sol      *Solver
	prefix   []Entry
	pos      int
	trace    []Entry
	model    Model
	pc       []*Term
	pcRaw    int
	steps    int64
	maxSteps int64

	globals map[*ssa.Global]Ptr
	pkgInit map[*ssa.Package]int

	inputs   []*nondet
	names    map[string]int
	observe  []obsRec
	reached  []string
	mapOrder bool
	ptrIDs   map[interface{}]uint64
	side     map[interface{}]interface{} // engine objects attached to cells

	// scheduler
	threads  []*Thread
	cur      *Thread
	runq     []*Thread
	preemptLeft int
	encodeYield bool // encoding a value as JSON is a preemption point
	selectsLeft int // remaining choices of another than the first ready case; negative: any number
	ended    bool
	endc     chan struct{}
	outcome  interface{}
	schedTrace []string
	chans    int
	timers   []*vtimer
	now      *Term
	nowN     int
	uuidN    int
	delays   []Delay
	quiet    bool
	raceOn   bool
	fatalDone bool
	reqN int
	shadow map[interface{}]*shadowCell
	vclockLocks map[interface{}][]int32
	hb     bool
	unlockYield bool
	idleWaits int
	noHang bool
	silentPanicOK bool
}

type obsRec struct {
	name string
	val  Value
}

type nondet struct {
	name   string
	kind   string
	render func(m Model) string
}

func (w *Worker) runPath(it workItem) {
	ex := w.ex
	p := &Path{
		w: w, tt: NewTermTab(), sol: w.sol, prefix: it.prefix, model: it.model,
		maxSteps: ex.maxSteps, globals: map[*ssa.Global]Ptr{}, pkgInit: map[*ssa.Package]int{},
		names: map[string]int{}, ptrIDs: map[interface{}]uint64{}, side: map[interface{}]interface{}{},
		preemptLeft: ex.preempt, selectsLeft: -1, endc: make(chan struct{}),
	}
	w.path = p
	w.sol.Reset()
	p.runMain(ex.fn)
	atomic.AddInt64(&ex.paths, 1)
	atomic.AddInt64(&ex.steps, p.steps)
	atomic.AddInt64(&ex.decisions, int64(len(p.trace)))
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for _, r := range p.reached {
		ex.reached[r]++
	}
	switch o := p.outcome.(type) {
	case nil:
		ex.completed++
		if len(ex.samples) < ex.nsamples {
			p.addSample()
		} else if ex.completed%97 == 0 && ex.nsamples > 0 {
			// keep a spread: replace a pseudo-random slot
			k := int(ex.completed/97) % ex.nsamples
			saved := ex.samples
			ex.samples = nil
			p.addSample()
			if len(ex.samples) == 1 {
				saved[k] = ex.samples[0]
			}
			ex.samples = saved
		}
	case abortPath:
		if o.reason == "assume" || o.reason == "infeasible" {
			ex.infeasible++
		} else {
			ex.incomplete[o.reason]++
		}
	case violationStop:
		ex.completed++
	case unsupported:
		ex.incomplete["unsupported: "+o.msg]++
		// an unfinished path is at least tried natively: the first ones
		// and then a spread over the others
		ex.unfinished++
		k := len(ex.partial)
		if k >= ex.npartial {
			k = -1
			if ex.unfinished%13 == 0 && ex.npartial > 0 {
				k = int(ex.unfinished/13) % ex.npartial
			}
		}
		if k >= 0 {
			if m := p.getModel(); m != nil {
				s := &Sample{Harness: ex.name, Inputs: p.renderInputs(m), Partial: true}
				if k == len(ex.partial) {
					ex.partial = append(ex.partial, s)
				} else {
					ex.partial[k] = s
				}
			}
		}
	default:
		ex.incomplete[fmt.Sprintf("engine: %v", o)]++
	}
}

func (p *Path) addSample() {
	ex := p.w.ex
	m := p.getModel()
	if m == nil {
		return
	}
	s := &Sample{Harness: ex.name, Inputs: p.renderInputs(m)}
	for _, o := range p.observe {
		txt, ok := p.renderObs(m, o.val)
		if !ok {
			txt = "?"
		}
		s.Observe = append(s.Observe, o.name+"="+txt)
	}
	s.Sched = p.schedTrace
	ex.samples = append(ex.samples, s)
}

func (p *Path) renderInputs(m Model) []Input {
	var out []Input
	for _, n := range p.inputs {
		out = append(out, Input{n.name, n.kind, n.render(m)})
	}
	return out
}

// getModel returns a model of the current path condition.
func (p *Path) getModel() Model {
	if p.model != nil {
		return p.model
	}
	r := p.sol.Check(nil)
	if r == SatYes {
		m, err := p.sol.Model(p.tt.vars)
		p.sol.EndCheck()
		if err == nil {
			p.model = m
			return m
		}
		return nil
	}
	p.sol.EndCheck()
	return nil
}

func (p *Path) assertPC(t *Term) {
	if t == True {
		return
	}
	p.pc = append(p.pc, t)
	p.sol.Assert(t)
	if p.model != nil {
		if p.model.Eval(t, map[*Term]uint64{}) == 0 {
			p.model = nil
		}
	}
}

// query checks pc && t, returning a model when satisfiable.
func (p *Path) query(t *Term) (Sat, Model) {
	r := p.sol.Check(t)
	var m Model
	if r == SatYes {
		var err error
		m, err = p.sol.Model(p.tt.vars)
		if err != nil {
			r = SatUnknown
		}
	}
	p.sol.EndCheck()
	return r, m
}

func (p *Path) nextEntry(kind byte) (Entry, bool) {
	if p.pos < len(p.prefix) {
		e := p.prefix[p.pos]
		if e.Kind != kind {
			panic(unsupported{fmt.Sprintf("replay divergence: %c vs %c at %d", kind, e.Kind, p.pos)})
		}
		p.pos++
		p.trace = append(p.trace, e)
		return e, true
	}
	p.pos++
	return Entry{}, false
}

func (p *Path) fork(e Entry, m Model) {
	ex := p.w.ex
	if ex.debug && p.cur != nil && p.cur.top != nil {
		fr := p.cur.top
		site := fr.fn.String() + ":" + fmt.Sprint(p.w.prog.fset.Position(fr.pos).Line)
		if fr.caller != nil {
			site += " < " + fr.caller.fn.String() + ":" + fmt.Sprint(p.w.prog.fset.Position(fr.caller.pos).Line)
		}
		ex.mu.Lock()
		if ex.forkSites == nil {
			ex.forkSites = map[string]int64{}
		}
		ex.forkSites[fmt.Sprintf("%c %s", e.Kind, site)]++
		ex.mu.Unlock()
	}
	np := make([]Entry, len(p.trace)+1)
	copy(np, p.trace)
	np[len(p.trace)] = e
	ex.mu.Lock()
	ex.stack = append(ex.stack, workItem{np, m})
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (p *Path) branch(c *Term) bool {
	if c.Op == OpConst {
		return c.C != 0
	}
	tt := p.tt
	if e, ok := p.nextEntry('b'); ok {
		b := e.Pick == 1
		if !e.Forced {
			p.assertPCnoModel(pickT(tt, c, b))
		}
		return b
	}
	m := p.getModel()
	if m == nil {
		// no model obtainable: pc unsat or unknown
		r := p.sol.Check(nil)
		p.sol.EndCheck()
		if r == SatNo {
			panic(abortPath{"infeasible"})
		}
		panic(abortPath{"solver unknown on path condition"})
	}
	side := m.Eval(c, map[*Term]uint64{}) != 0
	other := pickT(tt, c, !side)
	r, om := p.query(other)
	switch r {
	case SatNo:
		p.trace = append(p.trace, Entry{Pick: b2i(side), Forced: true, Kind: 'b'})
		return side
	case SatUnknown:
		p.w.ex.note("solver unknown: branch side dropped")
	case SatYes:
		p.fork(Entry{Pick: b2i(!side), Kind: 'b'}, om)
	}
	p.trace = append(p.trace, Entry{Pick: b2i(side), Kind: 'b'})
	p.assertPCnoModel(pickT(tt, c, side))
	return side
}

// assertPCnoModel asserts a literal known to hold in the current model.
func (p *Path) assertPCnoModel(t *Term) {
	if t == True {
		return
	}
	p.pc = append(p.pc, t)
	p.sol.Assert(t)
}

func (ex *Explorer) note(s string) {
	ex.mu.Lock()
	ex.incomplete[s]++
	ex.mu.Unlock()
}

func pickT(tt *TermTab, c *Term, b bool) *Term {
	if b {
		return c
	}
	return tt.Not(c)
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

// choose picks one of n alternatives nondeterministically; the choice is a
// fresh symbolic variable.
func (p *Path) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	return p.chooseVar(n, p.uniq("#"+label))
}

func (p *Path) chooseVar(n int, name string) int {
	v := p.tt.Var(name, 16)
	if e, ok := p.nextEntry('c'); ok {
		p.assertPCnoModel(p.tt.Eq(v, BVC(16, uint64(e.Pick))))
		return int(e.Pick)
	}
	for k := n - 1; k >= 1; k-- {
		var om Model
		if p.model != nil {
			om = Model{}
			for a, b := range p.model {
				om[a] = b
			}
			om[name] = uint64(k)
		}
		p.fork(Entry{Pick: int32(k), Kind: 'c'}, om)
	}
	if p.model != nil {
		cp := Model{}
		for a, b := range p.model {
			cp[a] = b
		}
		cp[name] = 0
		p.model = cp
	}
	p.trace = append(p.trace, Entry{Pick: 0, Kind: 'c'})
	p.assertPCnoModel(p.tt.Eq(v, BVC(16, 0)))
	return 0
}

// concretize enumerates the feasible values of t (one per path).
func (p *Path) concretize(t *Term) uint64 {
	if t.IsConst() {
		return t.C
	}
	for {
		if e, ok := p.nextEntry('v'); ok {
			c := p.tt.Eq(t, BVC(t.W, e.Val))
			if e.Pick == 1 {
				if !e.Forced {
					p.assertPCnoModel(c)
				}
				return e.Val
			}
			p.assertPCnoModel(p.tt.Not(c))
			continue
		}
		m := p.getModel()
		if m == nil {
			panic(abortPath{"infeasible"})
		}
		v := m.Eval(t, map[*Term]uint64{})
		c := p.tt.Eq(t, BVC(t.W, v))
		r, om := p.query(p.tt.Not(c))
		forced := false
		switch r {
		case SatYes:
			p.fork(Entry{Pick: 0, Kind: 'v', Val: v}, om)
		case SatNo:
			forced = true
		default:
			p.w.ex.note("solver unknown: concretisation incomplete")
		}
		p.trace = append(p.trace, Entry{Pick: 1, Kind: 'v', Val: v, Forced: forced})
		if !forced {
			p.assertPCnoModel(c)
		}
		return v
	}
}

func (p *Path) concretizeS(t *Term) int64 { return sext(p.concretize(t), t.W) }

func (p *Path) uniq(name string) string {
	n := p.names[name]
	p.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s~%d", name, n)
}

// assume restricts the path.
func (p *Path) assume(c *Term) {
	if c == True {
		return
	}
	if c == False {
		panic(abortPath{"assume"})
	}
	if !p.branchAssume(c) {
		panic(abortPath{"assume"})
	}
}

func (p *Path) branchAssume(c *Term) bool {
	// Like branch but the false side is simply not explored.
	if e, ok := p.nextEntry('b'); ok {
		if !e.Forced {
			p.assertPCnoModel(c)
		}
		return true
	}
	m := p.getModel()
	if m == nil {
		panic(abortPath{"infeasible"})
	}
	if m.Eval(c, map[*Term]uint64{}) == 0 {
		r, om := p.query(c)
		if r == SatNo {
			return false
		}
		if r == SatUnknown {
			panic(abortPath{"solver unknown in assume"})
		}
		p.model = om
	}
	p.trace = append(p.trace, Entry{Pick: 1, Kind: 'b'})
	p.assertPCnoModel(c)
	return true
}

// assert checks the property on every value of the current path.
func (p *Path) assert(fr *Frame, c *Term, msg string) {
	atomic.AddInt64(&p.w.ex.asserts, 1)
	if c == True {
		return
	}
	if e, ok := p.nextEntry('b'); ok {
		// already checked by the path that forked here
		if !e.Forced {
			p.assertPCnoModel(c)
		}
		return
	}
	if c == False {
		p.violation(fr, "assert", msg, p.getModel())
		panic(violationStop{})
	}
	r, m := p.query(p.tt.Not(c))
	switch r {
	case SatNo:
		p.trace = append(p.trace, Entry{Pick: 1, Forced: true, Kind: 'b'})
		return
	case SatUnknown:
		p.w.ex.note("solver unknown: assertion undecided")
		p.trace = append(p.trace, Entry{Pick: 1, Kind: 'b'})
		p.assertPC(c)
		return
	}
	p.violation(fr, "assert", msg, m)
	// continue on the values where it holds
	if r2, m2 := p.query(c); r2 == SatYes {
		p.trace = append(p.trace, Entry{Pick: 1, Kind: 'b'})
		p.model = m2
		p.assertPCnoModel(c)
		return
	}
	panic(violationStop{})
}

func (p *Path) violation(fr *Frame, kind, msg string, m Model) {
	ex := p.w.ex
	if m == nil {
		ex.note("violation without model: " + msg)
		return
	}
	st := ""
	if fr != nil {
		st = fr.stack()
	}
	v := &Violation{Harness: ex.name, Msg: msg, Kind: kind, Stack: st, Inputs: p.renderInputs(m), Sched: append([]string{}, p.schedTrace...)}
	v.Delays = append([]Delay{}, p.delays...)
	v.Prefix = append([]Entry{}, p.trace...)
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := kind + ":" + msg
	n := 0
	for _, o := range ex.violations {
		if o.Kind+":"+o.Msg == key {
			n++
		}
	}
	if n >= 12 {
		return
	}
	ex.violations = append(ex.violations, v)
	if ex.stopOnVio > 0 && len(ex.violations) >= ex.stopOnVio {
		ex.stopped = true
		ex.cond.Broadcast()
	}
}

// ---- globals and package initialisation

func (p *Path) globalCell(g *ssa.Global) Ptr {
	if isResetPkg(g.Pkg.Pkg.Path()) {
		if c, ok := p.globals[g]; ok {
			return c
		}
		c := new(Value)
		*c = zero(deref(g.Type()))
		p.globals[g] = c
		return c
	}
	w := p.w
	if c, ok := w.stdGlobals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(deref(g.Type()))
	w.stdGlobals[g] = c
	return c
}

func (p *Path) globalPtr(g *ssa.Global) Ptr {
	pkg := g.Pkg
	p.ensureInit(pkg)
	c := p.globalCell(g)
	if iv, ok := globalOverrides[g.String()]; ok {
		*c = iv(p)
	}
	return c
}

var globalOverrides = map[string]func(p *Path) Value{}

func isResetPkg(path string) bool {
	// everything that is not the standard library is re-initialised per path
	for i := 0; i < len(path); i++ {
		if path[i] == '/' {
			break
		}
		if path[i] == '.' {
			return true
		}
	}
	return isHarnessPath(path)
}

func (p *Path) ensureInit(pkg *ssa.Package) {
	path := pkg.Pkg.Path()
	var st map[*ssa.Package]int
	if isResetPkg(path) {
		st = p.pkgInit
	} else {
		st = p.w.stdInit
	}
	if st[pkg] != 0 {
		return
	}
	st[pkg] = 1
	if noInit[path] {
		return
	}
	fn := pkg.Func("init")
	if fn == nil || fn.Blocks == nil {
		return
	}
	info := getInfo(fn)
	th := p.cur
	fr := &Frame{th: th, p: p, fn: fn, info: info, tolerant: true}
	fr.env = make([]Value, info.n)
	for _, l := range fn.Locals {
		c := new(Value)
		*c = zero(deref(l.Type()))
		fr.env[info.idx[l]] = c
	}
	// clear the init guard of this package
	fr.block = fn.Blocks[0]
	saved := p.quiet
	p.quiet = true
	savedTop := th.top
	defer func() {
		p.quiet = saved
		th.top = savedTop
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if p.w.ex.debug {
					fmt.Fprintf(os.Stderr, "init of %s stopped: %s\n", path, u.msg)
				}
				return
			}
			if tp, ok := r.(targetPanic); ok {
				if p.w.ex.debug {
					fmt.Fprintf(os.Stderr, "init of %s panicked: %v\n%s", path, tp.v, tp.stack)
				}
				return
			}
			panic(r)
		}
	}()
	th.top = fr
	for fr.block != nil {
		fr.run()
	}
}

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "net": true, "crypto/tls": true, "crypto/x509": true,
	"encoding/json": true, "github.com/sirupsen/logrus": true, "internal/godebug": true, "golang.org/x/net/http2": false, "log": true, "reflect": true, "fmt": true, "math/rand": true, "vendor/golang.org/x/net/http2/hpack": true}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = debug.Stack
