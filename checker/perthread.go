package main

// perthread.go: which accesses of variables that a function shares with the
// goroutines it starts are of different memory, although the variables have one
// name: a variable that is made anew for every goroutine, and elements of a
// slice at an index that is another one in every goroutine.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// accessAddr is the address that the instruction reads or writes.
func accessAddr(in ssa.Instruction) ssa.Value {
	switch in := in.(type) {
	case *ssa.Store:
		return in.Addr
	case *ssa.UnOp:
		if in.Op == token.MUL {
			return in.X
		}
	}
	return nil
}

func addrRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.(*ssa.Alloc); !ok {
				return v
			}
			v = x.X
		default:
			return v
		}
	}
}

// cellOf resolves a captured variable to the allocation in the function that
// starts the goroutine; the closures on the way are only called or started.
func cellOf(v ssa.Value, spawn ssa.Instruction) *ssa.Alloc {
	for depth := 0; depth < 4; depth++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			if x.Parent() != spawn.Parent() {
				return nil
			}
			return x
		case *ssa.FreeVar:
			mc := onlyClosure(x.Parent())
			if mc == nil {
				return nil
			}
			next := ssa.Value(nil)
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					next = mc.Bindings[i]
				}
			}
			v = next
		default:
			return nil
		}
	}
	return nil
}

// onlyClosure is the one place that makes the closure, if it is only used by
// being started, deferred or called there.
func onlyClosure(fn *ssa.Function) *ssa.MakeClosure {
	var mc *ssa.MakeClosure
	if fn.Parent() == nil {
		return nil
	}
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
				if mc != nil {
					return nil
				}
				mc = m
			}
		}
	}
	if mc == nil {
		return nil
	}
	for _, r := range *mc.Referrers() {
		switch r := r.(type) {
		case ssa.CallInstruction:
			if r.Common().Value != mc {
				// handed to (*WaitGroup).Go
				if c := r.Common().StaticCallee(); c == nil || c.Name() != "Go" {
					return nil
				}
			}
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	return mc
}

// ownCell: the variable is only used directly, and through closures that are
// only called or started.
func ownCell(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr != a {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if onlyClosure(r.Fn.(*ssa.Function)) != r {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// reaches: there is a path from after the instruction to the other one that
// does not run the third.
func reaches(from, to, without ssa.Instruction) bool {
	seen := map[*ssa.BasicBlock]bool{}
	// scan tells whether the path ends in the block from index i on
	var scan func(b *ssa.BasicBlock, i int) bool
	scan = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if b.Instrs[i] == without {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if scan(s, 0) {
					return true
				}
			}
		}
		return false
	}
	b := from.Block()
	for i, in := range b.Instrs {
		if in == from {
			return scan(b, i+1)
		}
	}
	return true
}

// disjoint: the accesses, at least one of them in a goroutine, are of different
// memory whenever they overlap in time.
func disjoint(a, b *access) bool {
	if a.thread == nil {
		a, b = b, a
	}
	s := a.thread
	if b.thread != nil && b.thread != s {
		return false
	}
	x, y := accessAddr(a.in), accessAddr(b.in)
	if x == nil || y == nil {
		return false
	}
	cx, cy := cellOf(addrRoot(x), s), cellOf(addrRoot(y), s)
	if cx != nil && cx == cy && ownCell(cx) {
		if b.thread != nil {
			return !reaches(s, s, cx)
		}
		if b.in.Parent() == s.Parent() {
			return !reaches(s, b.in, cx)
		}
		return false
	}
	if b.thread != nil {
		vx, jx := element(x, s)
		vy, jy := element(y, s)
		return vx != nil && vx == vy && !inCycleWith(vx, s) && jx != nil && jx == jy && counts(jx, s)
	}
	return false
}

// element is the slice and the index, as values of the starting function, of
// the element that the address refers to.
func element(x ssa.Value, s ssa.Instruction) (ssa.Value, ssa.Value) {
	for {
		if f, ok := x.(*ssa.FieldAddr); ok {
			x = f.X
			continue
		}
		break
	}
	if ix, ok := x.(*ssa.IndexAddr); ok {
		return spawnValue(ix.X, s), spawnValue(ix.Index, s)
	}
	// the address was handed to the goroutine
	if ix, ok := spawnValue(x, s).(*ssa.IndexAddr); ok {
		v := ix.X
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			v = spawnValue(u, s)
		}
		return v, ix.Index
	}
	return nil, nil
}

// spawnValue resolves a value of the goroutine's function to the value of the
// starting function that it was given.
func spawnValue(v ssa.Value, s ssa.Instruction) ssa.Value {
	switch x := v.(type) {
	case *ssa.Parameter:
		g, ok := s.(*ssa.Go)
		if !ok {
			return nil
		}
		switch f := g.Call.Value.(type) {
		case *ssa.MakeClosure:
			if f.Fn != x.Parent() {
				return nil
			}
		case *ssa.Function:
			if f != x.Parent() {
				return nil
			}
		default:
			return nil
		}
		for i, p := range x.Parent().Params {
			if p == x && i < len(g.Call.Args) {
				return g.Call.Args[i]
			}
		}
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return nil
		}
		cell := cellOf(x.X, s)
		if cell == nil || !ownCell(cell) {
			return nil
		}
		// the variable is set once for every time it is made
		var val ssa.Value
		for _, fn := range append([]*ssa.Function{s.Parent()}, closuresIn(s.Parent())...) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && cellOf(addrRoot(st.Addr), s) == cell {
						if val != nil || fn != s.Parent() || st.Addr != cell {
							return nil
						}
						val = st.Val
					}
				}
			}
		}
		return val
	}
	return nil
}

func closuresIn(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, a := range fn.AnonFuncs {
		out = append(out, a)
		out = append(out, closuresIn(a)...)
	}
	return out
}

// inCycleWith: the value may be computed again between two runs of the
// instruction.
func inCycleWith(v ssa.Value, s ssa.Instruction) bool {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false // a parameter or a constant
	}
	return reaches(s, in, nil)
}

// counts: the value is another one in every run of the instruction, namely a
// loop counter of the one loop around it.
func counts(v ssa.Value, s ssa.Instruction) bool {
	if b, ok := v.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) {
		if _, ok := b.Y.(*ssa.Const); ok {
			v = b.X
		}
	}
	phi, ok := v.(*ssa.Phi)
	if !ok || phi.Parent() != s.Parent() {
		return false
	}
	// every further run passes the loop head
	if reaches(s, s, phi) {
		return false
	}
	sign := 0
	for i, e := range phi.Edges {
		pred := phi.Block().Preds[i]
		if !phi.Block().Dominates(pred) {
			// the loop is entered once
			if reaches(phi, pred.Instrs[len(pred.Instrs)-1], nil) {
				return false
			}
			continue
		}
		inc, ok := e.(*ssa.BinOp)
		if !ok || inc.X != phi {
			return false
		}
		c, ok := inc.Y.(*ssa.Const)
		if !ok {
			return false
		}
		step := 0
		switch {
		case inc.Op == token.ADD && c.Int64() > 0, inc.Op == token.SUB && c.Int64() < 0:
			step = 1
		case inc.Op == token.ADD && c.Int64() < 0, inc.Op == token.SUB && c.Int64() > 0:
			step = -1
		}
		if step == 0 || sign != 0 && sign != step {
			return false
		}
		sign = step
	}
	return sign != 0
}
