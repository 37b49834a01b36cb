package main

// sync, sync/atomic and time.

import (
	"go/types"
	"strings"
)

type mutexSt struct {
	w       bool
	r       int
	waiters []*Thread
}

type mutexKey struct{ c Ptr }

func (p *Path) mutexOf(fr *Frame, v Value) *mutexSt {
	c := fr.deref(v)
	k := mutexKey{c}
	m, ok := p.side[k].(*mutexSt)
	if !ok {
		m = &mutexSt{}
		p.side[k] = m
	}
	return m
}

func (p *Path) lockW(fr *Frame, m *mutexSt, why string) {
	p.yieldIf(fr)
	for m.w || m.r > 0 {
		m.waiters = append(m.waiters, fr.th)
		p.block(fr, why)
	}
	m.w = true
	p.hbAcquire(fr.th, m)
}

func (p *Path) wakeAll(m *mutexSt) {
	for _, t := range m.waiters {
		p.ready(t)
	}
	m.waiters = nil
}

func (p *Path) fatal(fr *Frame, msg string) {
	p.violation(fr, "fatal", msg, p.getModel())
	panic(violationStop{})
}

type smapKey struct{ c Ptr }

func (p *Path) smapOf(fr *Frame, v Value) *MapV {
	c := fr.deref(v)
	k := smapKey{c}
	m, ok := p.side[k].(*MapV)
	if !ok {
		m = newMap()
		p.side[k] = m
	}
	p.yieldIf(fr)
	p.hbRelease(fr.th, m)
	p.hbAcquire(fr.th, m)
	return m
}

type wgSt struct {
	n       int64
	waiters []*Thread
}
type wgKey struct{ c Ptr }

func (p *Path) wgOf(fr *Frame, v Value) *wgSt {
	c := fr.deref(v)
	k := wgKey{c}
	m, ok := p.side[k].(*wgSt)
	if !ok {
		m = &wgSt{}
		p.side[k] = m
	}
	return m
}

func initSyncIntr() {
	reg("(*sync.Mutex).Lock", func(fr *Frame, args []Value) Value {
		fr.p.lockW(fr, fr.p.mutexOf(fr, args[0]), "mutex")
		return nil
	})
	reg("(*sync.Mutex).TryLock", func(fr *Frame, args []Value) Value {
		p := fr.p
		m := p.mutexOf(fr, args[0])
		p.yieldIf(fr)
		if m.w {
			return False
		}
		m.w = true
		p.hbAcquire(fr.th, m)
		return True
	})
	reg("(*sync.Mutex).Unlock", func(fr *Frame, args []Value) Value {
		p := fr.p
		m := p.mutexOf(fr, args[0])
		if !m.w {
			p.fatal(fr, "fatal error: sync: unlock of unlocked mutex")
		}
		p.hbRelease(fr.th, m)
		m.w = false
		p.wakeAll(m)
		return nil
	})
	reg("(*sync.RWMutex).Lock", intr["(*sync.Mutex).Lock"])
	reg("(*sync.RWMutex).Unlock", func(fr *Frame, args []Value) Value {
		p := fr.p
		m := p.mutexOf(fr, args[0])
		if !m.w {
			p.fatal(fr, "fatal error: sync: Unlock of unlocked RWMutex")
		}
		p.hbRelease(fr.th, m)
		m.w = false
		p.wakeAll(m)
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(fr *Frame, args []Value) Value {
		p := fr.p
		m := p.mutexOf(fr, args[0])
		p.yieldIf(fr)
		for m.w {
			m.waiters = append(m.waiters, fr.th)
			p.block(fr, "rwmutex")
		}
		m.r++
		p.hbAcquire(fr.th, m)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, args []Value) Value {
		p := fr.p
		m := p.mutexOf(fr, args[0])
		if m.r <= 0 {
			p.fatal(fr, "fatal error: sync: RUnlock of unlocked RWMutex")
		}
		p.hbRelease(fr.th, m)
		m.r--
		if m.r == 0 {
			p.wakeAll(m)
		}
		return nil
	})
	// WaitGroup
	reg("(*sync.WaitGroup).Add", func(fr *Frame, args []Value) Value {
		p := fr.p
		w := p.wgOf(fr, args[0])
		p.hbRelease(fr.th, w)
		w.n += p.concretizeS(args[1].(*Term))
		if w.n < 0 {
			refPanic(fr, "sync: negative WaitGroup counter")
		}
		if w.n == 0 {
			for _, t := range w.waiters {
				p.ready(t)
			}
			w.waiters = nil
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, args []Value) Value {
		return intr["(*sync.WaitGroup).Add"](fr, []Value{args[0], BVC(64, ^uint64(0))})
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, args []Value) Value {
		p := fr.p
		w := p.wgOf(fr, args[0])
		for w.n > 0 {
			w.waiters = append(w.waiters, fr.th)
			p.block(fr, "WaitGroup.Wait")
		}
		p.hbAcquire(fr.th, w)
		return nil
	})
	// Pool
	reg("(*sync.Pool).Get", func(fr *Frame, args []Value) Value {
		p := fr.p
		st := (*fr.deref(args[0])).(Struct)
		nf := p.fieldOf(st, p.w.prog.typ("sync", "Pool"), "New")
		if isNilFn(nf) {
			return Iface{}
		}
		return p.callValue(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", func(fr *Frame, args []Value) Value { return nil })
	// sync.Map
	sm := func(name string, f func(fr *Frame, m *MapV, args []Value) Value) {
		reg("(*sync.Map)."+name, func(fr *Frame, args []Value) Value {
			return f(fr, fr.p.smapOf(fr, args[0]), args[1:])
		})
	}
	sm("Load", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e == nil {
			return Tuple{Iface{}, False}
		}
		return Tuple{e.V, True}
	})
	sm("Store", func(fr *Frame, m *MapV, args []Value) Value {
		fr.p.mapSet(fr, m, args[0], args[1], emptyIface)
		return nil
	})
	sm("LoadOrStore", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e != nil {
			return Tuple{e.V, True}
		}
		fr.p.mapSet(fr, m, args[0], args[1], emptyIface)
		return Tuple{args[1], False}
	})
	sm("LoadAndDelete", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e == nil {
			return Tuple{Iface{}, False}
		}
		v := e.V
		fr.p.mapDelete(fr, m, args[0], emptyIface)
		return Tuple{v, True}
	})
	sm("Delete", func(fr *Frame, m *MapV, args []Value) Value {
		fr.p.mapDelete(fr, m, args[0], emptyIface)
		return nil
	})
	sm("Swap", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e != nil {
			old := e.V
			e.V = args[1]
			return Tuple{old, True}
		}
		fr.p.mapSet(fr, m, args[0], args[1], emptyIface)
		return Tuple{Iface{}, False}
	})
	sm("CompareAndDelete", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e == nil || !fr.p.branch(fr.p.eq(fr, emptyIface, e.V, args[1])) {
			return False
		}
		fr.p.mapDelete(fr, m, args[0], emptyIface)
		return True
	})
	sm("CompareAndSwap", func(fr *Frame, m *MapV, args []Value) Value {
		e := fr.p.mapFind(fr, m, args[0], emptyIface)
		if e == nil || !fr.p.branch(fr.p.eq(fr, emptyIface, e.V, args[1])) {
			return False
		}
		e.V = args[2]
		return True
	})
	sm("Range", func(fr *Frame, m *MapV, args []Value) Value {
		ents := append([]*mapEntry{}, m.ents...)
		for _, e := range ents {
			if e.dead {
				continue
			}
			if !fr.p.branch(fr.p.callValue(fr, args[0], []Value{e.K, e.V}).(*Term)) {
				break
			}
		}
		return nil
	})
	sm("Clear", func(fr *Frame, m *MapV, args []Value) Value {
		*m = *newMap()
		return nil
	})

	// ---- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ty := ty
		a := func(op string, f func(fr *Frame, c Ptr, args []Value) Value) {
			reg("sync/atomic."+op+ty, func(fr *Frame, args []Value) Value {
				c := fr.deref(args[0])
				fr.p.yieldIf(fr)
				fr.p.hbAcquire(fr.th, c)
				fr.p.hbRelease(fr.th, c)
				return f(fr, c, args[1:])
			})
		}
		a("Load", func(fr *Frame, c Ptr, args []Value) Value { return *c })
		a("Store", func(fr *Frame, c Ptr, args []Value) Value { *c = args[0]; return nil })
		a("Swap", func(fr *Frame, c Ptr, args []Value) Value { o := *c; *c = args[0]; return o })
		a("CompareAndSwap", func(fr *Frame, c Ptr, args []Value) Value {
			p := fr.p
			if p.branch(p.eq(fr, nil, *c, args[0])) {
				*c = args[1]
				return True
			}
			return False
		})
		if ty != "Pointer" {
			a("Add", func(fr *Frame, c Ptr, args []Value) Value {
				n := fr.p.tt.Bin(OpAdd, (*c).(*Term), args[0].(*Term))
				*c = n
				return n
			})
			a("And", func(fr *Frame, c Ptr, args []Value) Value {
				o := (*c).(*Term)
				*c = fr.p.tt.Bin(OpBAnd, o, args[0].(*Term))
				return o
			})
			a("Or", func(fr *Frame, c Ptr, args []Value) Value {
				o := (*c).(*Term)
				*c = fr.p.tt.Bin(OpBOr, o, args[0].(*Term))
				return o
			})
		}
	}
	av := func(name string, f func(fr *Frame, c Ptr, args []Value) Value) {
		reg("(*sync/atomic.Value)."+name, func(fr *Frame, args []Value) Value {
			c := fr.deref(args[0])
			st := (*c).(Struct)
			fr.p.yieldIf(fr)
			fr.p.hbAcquire(fr.th, c)
			fr.p.hbRelease(fr.th, c)
			return f(fr, &st[0], args[1:])
		})
	}
	av("Load", func(fr *Frame, c Ptr, args []Value) Value { return *c })
	av("Store", func(fr *Frame, c Ptr, args []Value) Value { *c = args[0]; return nil })
	av("Swap", func(fr *Frame, c Ptr, args []Value) Value { o := *c; *c = args[0]; return o })
	av("CompareAndSwap", func(fr *Frame, c Ptr, args []Value) Value {
		if fr.p.branch(fr.p.eq(fr, emptyIface, *c, args[0])) {
			*c = args[1]
			return True
		}
		return False
	})

	// ---- time
	const unixToInternal = 62135596800
	const baseUnix = 1700000000
	mkTime := func(p *Path) Value {
		t := p.w.prog.typ("time", "Time")
		s := zero(t).(Struct)
		ns := p.vnow()
		*p.fieldPtr(s, t, "wall") = BVC(64, uint64(ns%1e9))
		*p.fieldPtr(s, t, "ext") = BVC(64, uint64(unixToInternal+baseUnix+ns/1e9))
		return s
	}
	reg("time.Now", func(fr *Frame, args []Value) Value { return mkTime(fr.p) })
	reg("time.now", func(fr *Frame, args []Value) Value { panic(unsupported{"time.now"}) })
	reg("time.runtimeNano", func(fr *Frame, args []Value) Value { return BVC(64, uint64(fr.p.vnow()+1)) })
	reg("time.Sleep", func(fr *Frame, args []Value) Value {
		p := fr.p
		d := p.concretizeS(args[0].(*Term))
		if d <= 0 {
			p.yield(fr)
			return nil
		}
		th := fr.th
		done := false
		p.addTimer(d, func() { done = true; p.ready(th) })
		for !done {
			p.block(fr, "time.Sleep")
		}
		return nil
	})
	timeElem := func(p *Path) *types.Chan { return types.NewChan(types.RecvOnly, p.w.prog.typ("time", "Time")) }
	fireChan := func(p *Path, c *ChanV) {
		if w := popWaiter(&c.recvq); w != nil {
			w.val, w.ok = mkTime(p), true
			w.complete(p)
			return
		}
		if len(c.buf) < c.cap {
			c.buf = append(c.buf, mkTime(p))
		}
	}
	newTimer := func(fr *Frame, d int64) (Value, *ChanV) {
		p := fr.p
		ch := p.makeChan(1, timeElem(p))
		ch.timer = true
		t, c := p.newStruct("time", "Timer", map[string]Value{"C": ch})
		_ = t
		p.side[cellSide{c}] = p.addTimer(d, func() { fireChan(p, ch) })
		return c, ch
	}
	reg("time.After", func(fr *Frame, args []Value) Value {
		_, ch := newTimer(fr, fr.p.concretizeS(args[0].(*Term)))
		return ch
	})
	reg("time.NewTimer", func(fr *Frame, args []Value) Value {
		c, _ := newTimer(fr, fr.p.concretizeS(args[0].(*Term)))
		return c
	})
	reg("time.AfterFunc", func(fr *Frame, args []Value) Value {
		p := fr.p
		_, c := p.newStruct("time", "Timer", nil)
		f := args[1]
		p.side[cellSide{c}] = p.addTimer(p.concretizeS(args[0].(*Term)), func() {
			base := &Frame{th: p.threads[0], p: p, fn: fr.fn, info: fr.info}
			sv := p.quiet
			p.quiet = true
			p.goStmt(base, f, nil)
			p.quiet = sv
		})
		return c
	})
	reg("(*time.Timer).Stop", func(fr *Frame, args []Value) Value {
		p := fr.p
		t, ok := p.side[cellSide{fr.deref(args[0])}].(*vtimer)
		if !ok || t.dead {
			return False
		}
		t.dead = true
		return True
	})
	reg("(*time.Timer).Reset", func(fr *Frame, args []Value) Value {
		p := fr.p
		k := cellSide{fr.deref(args[0])}
		t, ok := p.side[k].(*vtimer)
		if !ok {
			panic(unsupported{"Timer.Reset"})
		}
		was := !t.dead
		t.dead = true
		p.side[k] = p.addTimer(p.concretizeS(args[1].(*Term)), t.fire)
		return BoolC(was)
	})
	reg("(time.Time).String", func(fr *Frame, args []Value) Value { return "time" })
	_ = strings.Contains
}
