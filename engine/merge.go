package main

// If-conversion: a symbolic branch whose two sides only compute scalars and
// meet again is turned into if-then-else terms instead of two paths.

import (
	"go/token"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type mergeRegion struct {
	blocks []*ssa.BasicBlock // topological order, blocks[0] holds the If
	join   *ssa.BasicBlock
}

var mergeCache sync.Map // *ssa.If -> *mergeRegion (nil join: none)

func scalarT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	if b.Info()&types.IsBoolean != 0 || b.Info()&types.IsInteger != 0 {
		return true
	}
	return b.Kind() == types.Float64
}

func pureInstr(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Jump, *ssa.If:
		return true
	case *ssa.Phi:
		return scalarT(x.Type())
	case *ssa.BinOp:
		t := x.X.Type()
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			_, c1 := x.X.(*ssa.Const)
			_, c2 := x.Y.(*ssa.Const)
			return (x.Op == token.EQL || x.Op == token.NEQ) && (c1 || c2)
		}
		if !scalarT(t) || !scalarT(x.Y.Type()) {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return true
	case *ssa.UnOp:
		return (x.Op == token.NOT || x.Op == token.SUB || x.Op == token.XOR) && scalarT(x.X.Type())
	case *ssa.Convert:
		return scalarT(x.Type()) && scalarT(x.X.Type())
	case *ssa.ChangeType:
		return scalarT(x.Type()) && scalarT(x.X.Type())
	}
	return false
}

func regionOf(in *ssa.If) *mergeRegion {
	if r, ok := mergeCache.Load(in); ok {
		return r.(*mergeRegion)
	}
	r := findRegion(in.Block())
	mergeCache.Store(in, r)
	return r
}

func findRegion(b *ssa.BasicBlock) *mergeRegion {
	r := &mergeRegion{blocks: []*ssa.BasicBlock{b}}
	inR := map[*ssa.BasicBlock]bool{b: true}
	fr := map[*ssa.BasicBlock]bool{}
	order := []*ssa.BasicBlock{}
	add := func(x *ssa.BasicBlock) {
		if !fr[x] {
			fr[x] = true
			order = append(order, x)
		}
	}
	if b.Succs[0] == b.Succs[1] {
		return r
	}
	add(b.Succs[0])
	add(b.Succs[1])
	for len(r.blocks) < 24 {
		if len(fr) == 1 {
			var j *ssa.BasicBlock
			for x := range fr {
				j = x
			}
			if inR[j] {
				return r
			}
			for _, i := range j.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				if !scalarT(ph.Type()) {
					return r
				}
			}
			r.join = j
			return r
		}
		var pickB *ssa.BasicBlock
		for _, x := range order {
			if !fr[x] || inR[x] {
				continue
			}
			ok := true
			for _, pr := range x.Preds {
				if !inR[pr] {
					ok = false
				}
			}
			if !ok || len(x.Succs) == 0 || (len(x.Succs) == 2 && x.Succs[0] == x.Succs[1]) {
				continue
			}
			for _, i := range x.Instrs {
				if !pureInstr(i) {
					ok = false
					break
				}
			}
			if ok {
				pickB = x
				break
			}
		}
		if pickB == nil {
			return r
		}
		delete(fr, pickB)
		inR[pickB] = true
		r.blocks = append(r.blocks, pickB)
		for _, s := range pickB.Succs {
			if inR[s] {
				return r // loop
			}
			add(s)
		}
	}
	return r
}

// tryMerge executes the region of a symbolic If without forking.
func (fr *Frame) tryMerge(in *ssa.If, cond *Term) bool {
	if fr.tolerant {
		return false
	}
	r := regionOf(in)
	if r.join == nil {
		return false
	}
	tt := fr.p.tt
	guard := map[*ssa.BasicBlock]*Term{r.blocks[0]: True}
	type edge struct{ from, to *ssa.BasicBlock }
	eg := map[edge]*Term{}
	setEdges := func(b *ssa.BasicBlock) bool {
		g := guard[b]
		if len(b.Succs) == 1 {
			eg[edge{b, b.Succs[0]}] = g
			return true
		}
		c := cond
		if b != r.blocks[0] {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				return false
			}
			c, ok = fr.get(iff.Cond).(*Term)
			if !ok {
				return false
			}
		}
		eg[edge{b, b.Succs[0]}] = tt.And(g, c)
		eg[edge{b, b.Succs[1]}] = tt.And(g, tt.Not(c))
		return true
	}
	phiVal := func(b *ssa.BasicBlock, ph *ssa.Phi) (*Term, bool) {
		var acc *Term
		for i, pr := range b.Preds {
			g, ok := eg[edge{pr, b}]
			if !ok || g == False {
				continue
			}
			v, ok := fr.get(ph.Edges[i]).(*Term)
			if !ok {
				return nil, false
			}
			if acc == nil {
				acc = v
			} else {
				acc = tt.Ite(g, v, acc)
			}
		}
		return acc, acc != nil
	}
	if !setEdges(r.blocks[0]) {
		return false
	}
	for _, b := range r.blocks[1:] {
		g := False
		for _, pr := range b.Preds {
			if e, ok := eg[edge{pr, b}]; ok {
				g = tt.Or(g, e)
			}
		}
		guard[b] = g
		if g == False {
			// unreachable here: its values are never selected
			for _, s := range b.Succs {
				eg[edge{b, s}] = False
			}
			continue
		}
		for _, i := range b.Instrs {
			fr.p.steps++
			switch x := i.(type) {
			case *ssa.Phi:
				t, ok := phiVal(b, x)
				if !ok {
					return false
				}
				fr.set(x, t)
			case *ssa.If, *ssa.Jump, *ssa.DebugRef:
			default:
				fr.visit(i)
			}
		}
		if !setEdges(b) {
			return false
		}
	}
	j := r.join
	var vals []*Term
	var phs []*ssa.Phi
	for _, i := range j.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		t, ok := phiVal(j, ph)
		if !ok {
			return false
		}
		phs = append(phs, ph)
		vals = append(vals, t)
	}
	for i := range phs {
		fr.set(phs[i], vals[i])
	}
	fr.prev = r.blocks[len(r.blocks)-1]
	fr.block = j
	return true
}
