package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rule reads-old-sums, for an update step of the joint core whose comparison is
// undecided: the sums that queries report are read by the recurrence, for other
// tuples than the one being updated, only before the step writes any of them. It
// is a def-use query: no path leads from a write of an element to a read of an
// element under another key.

const oldSumsRule = "reads-old-sums"

// elemAccess is one read or write of an element of the map.
type elemAccess struct {
	top   ssa.Instruction // where the update step does it, or calls what does it
	in    ssa.Instruction
	key   ssa.Value
	write bool
}

// origin follows a value through captured variables and cells that are set once.
func origin(v ssa.Value, binds map[*ssa.FreeVar]ssa.Value) ssa.Value {
	for n := 0; n < 20; n++ {
		switch x := v.(type) {
		case *ssa.FreeVar:
			b, ok := binds[x]
			if !ok {
				return v
			}
			v = b
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return v
			}
			cell, ok := origin(x.X, binds).(*ssa.Alloc)
			if !ok {
				return v
			}
			var set ssa.Value
			for _, r := range *cell.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == cell {
					if set != nil {
						return v
					}
					set = s.Val
				}
			}
			if set == nil {
				return v
			}
			v = set
		default:
			return v
		}
	}
	return v
}

// mapField is the field of the named struct that the map value is loaded from.
func mapField(v ssa.Value, owner string, binds map[*ssa.FreeVar]ssa.Value) string {
	u, ok := origin(v, binds).(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return ""
	}
	fa, ok := origin(u.X, binds).(*ssa.FieldAddr)
	if !ok {
		return ""
	}
	pt, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok || typeName(pt.Elem()) != owner {
		return ""
	}
	return pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
}

// elemAccesses lists the accesses to elements of the map field of owner in f, the
// closures it makes and the functions that it calls.
func elemAccesses(f *ssa.Function, owner, field string) []elemAccess {
	var out []elemAccess
	binds := map[*ssa.FreeVar]ssa.Value{}
	seen := map[*ssa.Function]bool{}
	var scan func(g *ssa.Function, top ssa.Instruction)
	scan = func(g *ssa.Function, top ssa.Instruction) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				at := top
				if at == nil {
					at = in
				}
				switch x := in.(type) {
				case *ssa.MapUpdate:
					if fld := mapField(x.Map, owner, binds); fld != "" && (field == "" || fld == field) {
						out = append(out, elemAccess{at, in, origin(x.Key, binds), true})
					}
				case *ssa.Lookup:
					if fld := mapField(x.X, owner, binds); fld != "" && (field == "" || fld == field) {
						out = append(out, elemAccess{at, in, origin(x.Index, binds), false})
					}
				case *ssa.MakeClosure:
					h := x.Fn.(*ssa.Function)
					for i, fv := range h.FreeVars {
						binds[fv] = x.Bindings[i]
					}
					if top != nil {
						scan(h, top)
						continue
					}
					for _, r := range *x.Referrers() {
						if c, ok := r.(ssa.CallInstruction); ok {
							scan(h, c)
						}
					}
				case ssa.CallInstruction:
					if h := x.Common().StaticCallee(); h != nil && inRepo(h) && h.Parent() == nil && !seen[h] {
						seen[h] = true
						scan(h, at)
					}
				}
			}
		}
	}
	scan(f, nil)
	return out
}

// follows reports whether b may be executed after a has been.
func follows(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() && a != b {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, a.Block().Succs...)
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b.Block() {
			return true
		}
		work = append(work, x.Succs...)
	}
	return false
}

// oldSums applies the rule to one update step; query is the function that reports
// a sum. ok is false when the rule finds nothing to apply to.
func oldSums(p *Program, f, query *ssa.Function) (bad, where string, ok bool) {
	if f == nil || query == nil || f.Signature.Recv() == nil {
		return
	}
	pt, isPtr := f.Signature.Recv().Type().Underlying().(*types.Pointer)
	if !isPtr {
		return
	}
	owner := typeName(pt.Elem())
	fields := map[string]bool{}
	for _, a := range elemAccesses(query, owner, "") {
		if !a.write {
			for _, fld := range []string{mapField(a.in.(*ssa.Lookup).X, owner, nil)} {
				if fld != "" && isFloat(a.in.(*ssa.Lookup).Type()) {
					fields[fld] = true
				}
			}
		}
	}
	if len(fields) != 1 {
		return
	}
	for fld := range fields {
		as := elemAccesses(f, owner, fld)
		for _, w := range as {
			if !w.write {
				continue
			}
			ok = true
			for _, r := range as {
				if r.write || r.key == w.key {
					continue
				}
				if w.top == r.top && !isCall(w.top) && !follows(w.top, r.top) {
					continue
				}
				if w.top != r.top && !follows(w.top, r.top) {
					continue
				}
				return fmt.Sprintf("%s[...] is read for the recurrence at %s after an element was updated at %s in the same step: another tuple's new sum can enter where its old sum belongs", fld, p.posOf(r.in), p.posOf(w.in)), p.posOf(w.in), true
			}
		}
	}
	return
}

func isCall(in ssa.Instruction) bool { _, ok := in.(ssa.CallInstruction); return ok }

func isFloat(t types.Type) bool {
	if tt, ok := t.(*types.Tuple); ok && tt.Len() > 0 {
		t = tt.At(0).Type()
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
