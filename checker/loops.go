package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *natLoop
}

type loopNest struct {
	rpo   []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*natLoop
}

func (m *Machine) nest(fn *ssa.Function) *loopNest {
	if n, ok := m.loopInfo[fn]; ok {
		return n
	}
	n := &loopNest{inner: map[*ssa.BasicBlock]*natLoop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		n.rpo = append(n.rpo, post[i])
	}
	byHeader := map[*ssa.BasicBlock]*natLoop{}
	var loops []*natLoop
	for _, b := range n.rpo {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := byHeader[s]
			if l == nil {
				l = &natLoop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
				byHeader[s] = l
				loops = append(loops, l)
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				for _, p := range x.Preds {
					if seen[p] {
						work = append(work, p)
					}
				}
			}
		}
	}
	sort.SliceStable(loops, func(i, j int) bool { return len(loops[i].blocks) > len(loops[j].blocks) })
	for _, l := range loops { // larger first, so that the innermost wins
		for _, o := range loops {
			if o != l && o.blocks[l.header] && len(o.blocks) > len(l.blocks) {
				if l.parent == nil || len(o.blocks) < len(l.parent.blocks) {
					l.parent = o
				}
			}
		}
		for b := range l.blocks {
			n.inner[b] = l
		}
	}
	m.loopInfo[fn] = n
	return n
}

// innermostBelow is the loop containing b whose parent is loop.
func (n *loopNest) innermostBelow(b *ssa.BasicBlock, loop *natLoop) *natLoop {
	l := n.inner[b]
	for l != nil && l != loop && l.parent != loop {
		l = l.parent
	}
	if l == loop {
		return nil
	}
	return l
}

/*** Summarising one loop ***/

// lvar is something that an iteration hands to the next: a phi or a memory cell.
type lvar struct {
	sym       *Term
	init      *Val
	next      *Val
	phi       *ssa.Phi
	key       string
	base, idx *Term
	array     bool              // the value is an array (content or whole key)
	closed    func(n *Val) *Val // value after n iterations
	final     *Val              // value at the exiting iteration, for folds
	mid       *Val              // value at the start of iteration b
	done      bool
}

type lexit struct {
	cond *Val
	mem  Mem
	tag  any
}

type iteration struct {
	cont  *Val
	mem   Mem
	phis  []*Val
	exits []lexit
	panic *Val
}

type loopSpec struct {
	dom   *Dom  // nil: find the trip count
	b     *Term // iteration number, or element of dom
	okSym *Term // keys: the range's "there is another key" flag
	phis  []*lvar
	body  func(mem Mem) iteration
}

type exitResult struct {
	pc  *Val
	sub func(*Val) *Val
	mem Mem
	tag any
}

func (m *Machine) loop(fr *frame, nest *loopNest, l *natLoop, pc *Val, mem Mem, inits map[*ssa.Phi]*Val) []edge {
	m.loops++
	spec := &loopSpec{}
	var phis []*ssa.Phi
	for _, in := range l.header.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			phis = append(phis, phi)
			spec.phis = append(spec.phis, &lvar{sym: freshSym("p", phi.Type(), false), init: inits[phi], phi: phi})
		}
		if nx, ok := in.(*ssa.Next); ok {
			r := fr.rngs[nx.Iter]
			if r == nil {
				giveUp("range over a string")
			}
			spec.dom = &Dom{kind: "keys", arg: r.content}
			spec.b = r.key
			spec.okSym = r.ok
		}
	}
	if spec.b == nil {
		spec.b = freshSym("b", types.Typ[types.Int], true)
	}
	if m.unroll > 0 && spec.dom == nil {
		return m.unrollLoop(fr, nest, l, pc, mem, inits, phis)
	}
	type outTag struct{ e edge }
	savedRets := len(fr.rets)
	nDefers := len(fr.defers)
	spec.body = func(mem Mem) iteration {
		pv := map[*ssa.Phi]*Val{}
		for _, v := range spec.phis {
			pv[v.phi] = leafOf(v.sym)
		}
		savePanics := fr.panics
		fr.panics = vFalse
		outs := m.region(fr, nest, l, l.header, vTrue, mem, pv)
		it := iteration{panic: fr.panics}
		fr.panics = savePanics
		var back []edge
		for _, e := range outs {
			if e.to == l.header {
				back = append(back, e)
			} else {
				it.exits = append(it.exits, lexit{cond: e.pc, mem: e.mem, tag: outTag{e}})
			}
		}
		if len(back) == 0 {
			it.cont = vFalse
			it.mem = mem
			for _, p := range spec.phis {
				it.phis = append(it.phis, leafOf(p.sym))
			}
			return it
		}
		it.cont, it.mem = m.mergeEdges(back)
		for _, p := range phis {
			it.phis = append(it.phis, m.phi(fr, p, back, it.cont))
		}
		return it
	}
	// remember the loop's own values: their final form depends on the exit
	results, panicV := m.summarise(spec, mem)
	if len(fr.rets) != savedRets || len(fr.defers) != nDefers {
		giveUp("return or defer inside the loop at %s", m.p.posOf(l.header.Instrs[0]))
	}
	if panicV != vFalse {
		fr.panics = orV(fr.panics, andV(pc, panicV))
	}
	var outs []edge
	envNew := map[ssa.Value]*Val{}
	tupNew := map[ssa.Value][]*Val{}
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || !usedOutside(v, l) {
				continue
			}
			if x, ok := fr.env[v]; ok {
				var r *Val
				for _, e := range results {
					s := e.sub(x)
					if r == nil {
						r = s
					} else {
						r = ite(e.pc, s, r)
					}
				}
				envNew[v] = r
			}
			if x, ok := fr.tup[v]; ok {
				rs := make([]*Val, len(x))
				for i := range x {
					for _, e := range results {
						s := e.sub(x[i])
						if rs[i] == nil {
							rs[i] = s
						} else {
							rs[i] = ite(e.pc, s, rs[i])
						}
					}
				}
				tupNew[v] = rs
			}
		}
	}
	for v, x := range envNew {
		fr.env[v] = x
	}
	for v, x := range tupNew {
		fr.tup[v] = x
	}
	for _, r := range results {
		e := r.tag.(outTag).e
		outs = append(outs, edge{e.from, e.to, e.idx, andV(pc, r.pc), r.mem})
	}
	return outs
}

func leafOf(t *Term) *Val {
	if isBoolType(t.typ) {
		return asBool(t)
	}
	return leaf(t)
}

func usedOutside(v ssa.Value, l *natLoop) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if !l.blocks[r.Block()] {
			return true
		}
	}
	return false
}

func hasAny(v *Val, syms map[*Term]bool) bool {
	for s := range v.syms() {
		if syms[s] {
			return true
		}
	}
	return false
}

type cellID struct {
	key       string
	base, idx *Term
}

func (m *Machine) summarise(spec *loopSpec, mem0 Mem) ([]exitResult, *Val) {
	born := m.allocN
	youngest := len(termList)
	var cells []*lvar
	byID := map[cellID]*lvar{}
	var it iteration
	var fresh map[cellID]bool
	m.loopIts = append(m.loopIts, spec.b)
	defer func() { m.loopIts = m.loopIts[:len(m.loopIts)-1] }()
	bornIn := func(t *Term) bool {
		for isStructPart(t) {
			t = t.args[0]
		}
		return isAlloc(t) && allocNum(t) > born
	}
	for round := 0; ; round++ {
		if os.Getenv("DBGROUND") != "" {
			var ds []string
			for _, c := range cells {
				d := c.key
				if c.base != nil {
					d += "@" + clip(c.base.String())
				}
				if c.idx != nil {
					d += "[" + clip(c.idx.String()) + "]"
				}
				ds = append(ds, d)
			}
			fmt.Println("round", round, spec.b, strings.Join(ds, "\n     "))
		}
		if round > 8 {
			giveUp("the set of locations a loop changes does not settle")
		}
		mem := mem0.clone()
		for _, c := range cells {
			switch {
			case c.base == nil:
				mem[c.key] = leaf(c.sym)
			case c.idx == nil:
				m.writeNoLog(mem, c.key, leaf(c.base), leafOf(c.sym))
			default:
				content := m.read(mem, c.key, leaf(c.base))
				nc := lift2(content, leafOf(c.sym), func(a, v *Term) *Val { return storeT(a, c.idx, v) })
				m.writeNoLog(mem, c.key, leaf(c.base), nc)
			}
		}
		m.modlog = append(m.modlog, nil)
		it = spec.body(mem)
		log := m.modlog[len(m.modlog)-1]
		m.modlog = m.modlog[:len(m.modlog)-1]
		loopSyms := map[*Term]bool{spec.b: true}
		if spec.okSym != nil {
			loopSyms[spec.okSym] = true
		}
		for _, v := range spec.phis {
			loopSyms[v.sym] = true
		}
		for _, c := range cells {
			loopSyms[c.sym] = true
		}
		varies := func(t *Term) bool {
			for s := range t.syms {
				// variables of loops inside the body are younger than the loop
				if loopSyms[s] || s.id >= youngest && strings.Contains(s.aux, "'") {
					return true
				}
			}
			return false
		}
		// what was modified
		whole := map[string]bool{}
		bases := map[string]map[*Term]bool{} // -> whole object
		idxs := map[string]map[*Term]map[*Term]bool{}
		fresh = map[cellID]bool{}
		for _, e := range log {
			if e.base == nil {
				whole[e.key] = true
				continue
			}
			if bornIn(e.base) {
				fresh[cellID{e.key, e.base, nil}] = true
				continue
			}
			if e.base.op == "app" && e.base.aux == "vbase" {
				giveUp("element of an appended slice is written in a loop")
			}
			if varies(e.base) {
				whole[e.key] = true
				continue
			}
			if e.idx == nil || varies(e.idx) {
				if bases[e.key] == nil {
					bases[e.key] = map[*Term]bool{}
				}
				bases[e.key][e.base] = true
				continue
			}
			if idxs[e.key] == nil {
				idxs[e.key] = map[*Term]map[*Term]bool{}
			}
			if idxs[e.key][e.base] == nil {
				idxs[e.key][e.base] = map[*Term]bool{}
			}
			idxs[e.key][e.base][e.idx] = true
		}
		// the least refined form that covers everything
		for key, bm := range idxs {
			for base, im := range bm {
				ts := termKeys(im)
				for i := range ts {
					for j := range ts[:i] {
						if e := keyEq(ts[i], ts[j]); e != vFalse {
							if bases[key] == nil {
								bases[key] = map[*Term]bool{}
							}
							bases[key][base] = true
						}
					}
				}
			}
		}
		for key := range union(bases, idxs) {
			all := map[*Term]bool{}
			for b := range bases[key] {
				all[b] = true
			}
			for b := range idxs[key] {
				all[b] = true
			}
			ts := termKeys(all)
			for i := range ts {
				for j := range ts[:i] {
					if keyEq(ts[i], ts[j]) != vFalse {
						whole[key] = true
					}
				}
			}
		}
		for _, c := range cells { // never go back to a finer form
			if c.base == nil {
				whole[c.key] = true
			} else if c.idx == nil {
				if bases[c.key] == nil {
					bases[c.key] = map[*Term]bool{}
				}
				bases[c.key][c.base] = true
			}
		}
		want := map[cellID]bool{}
		for key := range whole {
			want[cellID{key, nil, nil}] = true
		}
		for key, bm := range bases {
			if whole[key] {
				continue
			}
			for b := range bm {
				want[cellID{key, b, nil}] = true
			}
		}
		for key, bm := range idxs {
			if whole[key] {
				continue
			}
			for base, im := range bm {
				if bases[key][base] {
					continue
				}
				for i := range im {
					want[cellID{key, base, i}] = true
				}
			}
		}
		same := true
		for id := range want {
			if byID[id] == nil {
				same = false
			}
		}
		if same {
			break
		}
		// rebuild the cells
		var ids []cellID
		for id := range want {
			ids = append(ids, id)
		}
		for id := range byID {
			if !want[id] && !whole[id.key] && !(id.base != nil && bases[id.key][id.base]) {
				ids = append(ids, id)
			}
		}
		sort.Slice(ids, func(i, j int) bool { return lessCell(ids[i], ids[j]) })
		cells = nil
		byID = map[cellID]*lvar{}
		for _, id := range ids {
			c := &lvar{key: id.key, base: id.base, idx: id.idx}
			typ := m.keyTyp[id.key]
			switch {
			case id.base == nil:
				c.array = true
				c.sym = freshSym("W:"+id.key, nil, false)
				arrBorn[c.sym] = m.allocN
				if z := m.zeroOfKey(id.key); z != nil && z.leaf != nil {
					arrZero[c.sym] = z.leaf
				}
				c.init = m.arr(mem0, id.key)
			case id.idx == nil:
				c.array = isContentKey(id.key)
				if c.array {
					typ = nil
				}
				c.sym = freshSym("S:"+id.key, typ, false)
				c.init = m.read(mem0, id.key, leaf(id.base))
			default:
				c.sym = freshSym("C:"+id.key, typ, false)
				c.init = m.readElem(mem0, id.key, leaf(id.base), leaf(id.idx))
			}
			cells = append(cells, c)
			byID[id] = c
		}
	}
	vars := append(append([]*lvar{}, spec.phis...), cells...)
	for i, v := range spec.phis {
		v.next = it.phis[i]
	}
	for _, c := range cells {
		switch {
		case c.base == nil:
			c.next = m.arr(it.mem, c.key)
		case c.idx == nil:
			c.next = m.read(it.mem, c.key, leaf(c.base))
		default:
			c.next = m.readElem(it.mem, c.key, leaf(c.base), leaf(c.idx))
		}
	}
	if spec.okSym != nil {
		// within an iteration there is another key
		yes := valSubst{spec.okSym: vTrue}
		no := valSubst{spec.okSym: vFalse}
		it.cont = substVal(it.cont, yes)
		it.panic = substVal(it.panic, yes)
		for _, v := range vars {
			v.next = substVal(v.next, yes)
		}
		for i := range it.exits {
			e := &it.exits[i]
			if substVal(e.cond, no) == vTrue {
				e.cond = nil // the normal exit
				for k := range e.mem {
					e.mem[k] = substVal(e.mem[k], no)
				}
			} else {
				e.cond = substVal(e.cond, yes)
				for k := range e.mem {
					e.mem[k] = substVal(e.mem[k], yes)
				}
			}
		}
	}
	for _, v := range vars {
		v.next = simplify(v.next, it.cont)
	}
	return m.solve(spec, vars, it, mem0, fresh)
}

func isStructPart(t *Term) bool {
	return t.op == "app" && (t.aux == "fieldaddr" || t.aux == "structelem")
}

func lessCell(a, b cellID) bool {
	if a.key != b.key {
		return a.key < b.key
	}
	id := func(t *Term) int {
		if t == nil {
			return -1
		}
		return t.id
	}
	if id(a.base) != id(b.base) {
		return id(a.base) < id(b.base)
	}
	return id(a.idx) < id(b.idx)
}

func termKeys(m map[*Term]bool) []*Term {
	var out []*Term
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func union(a map[string]map[*Term]bool, b map[string]map[*Term]map[*Term]bool) map[string]bool {
	out := map[string]bool{}
	for k := range a {
		out[k] = true
	}
	for k := range b {
		out[k] = true
	}
	return out
}

// tripCount finds N such that cont holds exactly for b < N (b >= 0).
func tripCount(cont *Val, b *Term) *Val {
	dep := cont.syms()[b]
	if !dep {
		return nil
	}
	bad := false
	r := liftOuter(cont, []*Term{b}, func(c *Val) *Val {
		if c.leaf != nil || len(c.kids) != 2 || c.kids[0].leaf == nil || c.kids[1].leaf == nil || !c.subj.isInt {
			bad = true
			return vNil
		}
		al := coefOf(c.subj.t, b)
		if al == nil || al.Sign() == 0 || !al.IsInt() {
			bad = true
			return vNil
		}
		bd := c.bounds[0] // just before an integer
		rest := subT(c.subj.t, scaleT(b, al))
		if al.Cmp(rOne) == 0 && c.kids[0] == vTrue {
			return leaf(subT(ratTerm(bd.c), rest))
		}
		if al.Cmp(big.NewRat(-1, 1)) == 0 && c.kids[1] == vTrue {
			return leaf(addT(subT(rest, ratTerm(bd.c)), intTerm(1)))
		}
		bad = true
		return vNil
	})
	if bad {
		return nil
	}
	return r
}

func (m *Machine) solve(spec *loopSpec, vars []*lvar, it iteration, mem0 Mem, fresh map[cellID]bool) ([]exitResult, *Val) {
	b := spec.b
	resolved := valSubst{}
	unres := map[*Term]bool{}
	for _, v := range vars {
		unres[v.sym] = true
	}
	ordered := spec.dom == nil // iterations are numbered
	var N *Val                 // trip count
	mainExit := -1
	contR := func() *Val { return substVal(it.cont, resolved) }
	for progress := true; progress; {
		progress = false
		for _, v := range vars {
			if v.done {
				continue
			}
			if m.closeVar(spec, v, vars, resolved, unres, N, ordered) {
				progress = true
			}
		}
		if ordered && N == nil {
			for i := range it.exits {
				c := substVal(it.exits[i].cond, resolved)
				if hasAny(c, unres) {
					continue
				}
				// drop decisions that earlier exits make
				if n := tripCount(notV(c), b); n != nil {
					N = n
					mainExit = i
					progress = true
					break
				}
			}
		}
	}
	_ = contR
	for _, v := range vars {
		v.next = substVal(v.next, resolved)
	}
	it.cont = substVal(it.cont, resolved)
	it.panic = substVal(it.panic, resolved)
	var open []*lvar // vars without a closed form for every iteration
	for _, v := range vars {
		if !v.done {
			open = append(open, v)
		}
	}
	// conditions of the exits in terms of b
	undetermined := len(open) > 0
	conds := make([]*Val, len(it.exits))
	exitsOpen := false
	for i := range it.exits {
		if it.exits[i].cond == nil {
			mainExit = i
			continue
		}
		conds[i] = substVal(it.exits[i].cond, resolved)
		if hasAny(conds[i], unres) {
			exitsOpen = true
		}
	}
	if spec.dom != nil {
		for i := range it.exits {
			if it.exits[i].cond == nil {
				mainExit = i
			}
		}
	}
	var bstarMain *Val
	var early []int
	for i := range it.exits {
		if i != mainExit {
			early = append(early, i)
		}
	}
	if !exitsOpen && (mainExit >= 0 || len(early) > 0) {
		// the exits depend on the iteration only
		results := make([]exitResult, 0, len(it.exits))
		dom := Dom{kind: "nat", arg: intTerm(0)}
		any := vFalse
		if spec.dom != nil {
			dom = *spec.dom
		} else if N != nil {
			dom = Dom{kind: "cnt"}
			bstarMain = lift1(N, func(t *Term) *Val { return mkApp("max0", nil, t) })
		}
		inDom := vTrue
		if N != nil {
			inDom = lift1(N, func(t *Term) *Val { return cmpValF("<", b, t, false) })
		}
		for _, i := range early {
			any = orV(any, simplify(conds[i], inDom))
		}
		overDom := func(f func(d Dom) *Val) *Val {
			if dom.kind == "cnt" {
				return lift1(N, func(t *Term) *Val { return f(Dom{kind: "cnt", arg: t}) })
			}
			return f(dom)
		}
		exists := vFalse
		var bfirst *Val
		if len(early) > 0 {
			if mainExit < 0 {
				exists = vTrue
				bfirst = mkFirst(dom, b, any)
			} else {
				anyAll := vFalse
				for _, i := range early {
					anyAll = orV(anyAll, conds[i])
				}
				if N != nil && prefixExists(anyAll, b) {
					exists = substVal(anyAll, valSubst{b: bstarMain})
				} else {
					exists = overDom(func(d Dom) *Val { return mkExists(d, b, any) })
					if N != nil {
						exists = orV(exists, substVal(anyAll, valSubst{b: bstarMain}))
					}
				}
				bfirst = overDom(func(d Dom) *Val { return mkFirst(d, b, any) })
			}
		}
		finals := func(n *Val, isMain bool) func(*Val) *Val {
			s := valSubst{}
			if n != nil {
				s[b] = n
			}
			for _, v := range vars {
				if v.done {
					if isMain || ordered {
						s[v.sym] = v.closed(n)
					} else {
						s[v.sym] = m.partial(v, spec)
					}
				}
			}
			if len(open) > 0 {
				for k, x := range m.fold(spec, vars, open, it, N, conds, early, isMain) {
					s[k] = x
				}
			}
			return func(v *Val) *Val { return substVal(v, s) }
		}
		if mainExit >= 0 {
			sub := finals(bstarMain, true)
			results = append(results, m.exitOf(spec, it, mainExit, notV(exists), sub, fresh))
		}
		rest := exists
		for j, i := range early {
			sub := finals(bfirst, false)
			pc := rest
			if j < len(early)-1 {
				c := sub(conds[i])
				pc = andV(rest, c)
				rest = andV(rest, notV(c))
			}
			results = append(results, m.exitOf(spec, it, i, pc, sub, fresh))
		}
		pv := vFalse
		if it.panic != vFalse {
			if hasAny(it.panic, unres) {
				pv = loopPanic(spec, vars, it)
			} else {
				pv = overDom(func(d Dom) *Val { return mkExists(d, b, it.panic) })
			}
		}
		return results, pv
	}
	_ = undetermined
	// the exits depend on state without a closed form: a while loop
	if mainExit >= 0 && it.exits[mainExit].cond == nil {
		// keys/box with early exits on open state
		conds[mainExit] = nil
	}
	state := m.fold(spec, vars, open, it, N, conds, early, false)
	sub := func(v *Val) *Val { return substVal(v, state) }
	// closed-form variables at the exit
	bEnd := state[b]
	for _, v := range vars {
		if v.done {
			if ordered && bEnd != nil {
				state[v.sym] = v.closed(bEnd)
			} else {
				state[v.sym] = m.partial(v, spec)
			}
		}
	}
	var results []exitResult
	rest := vTrue
	for j := range it.exits {
		pc := rest
		if j < len(it.exits)-1 {
			var c *Val
			if conds[j] == nil {
				c = asBool(rawApp("is:exhausted", nil, intTerm(int64(len(vars)))))
			} else {
				c = sub(conds[j])
			}
			pc = andV(rest, c)
			rest = andV(rest, notV(c))
		}
		results = append(results, m.exitOf(spec, it, j, pc, sub, fresh))
	}
	pv := vFalse
	if it.panic != vFalse {
		pv = loopPanic(spec, vars, it)
	}
	return results, pv
}

// partial is the value of a variable at an early exit of an unordered loop.
func (m *Machine) partial(v *lvar, spec *loopSpec) *Val {
	return lift1(v.init, func(t *Term) *Val { return leafB(rawApp("partial", v.sym.typ, t, intTerm(int64(v.next.id)))) })
}

func leafB(t *Term) *Val {
	if isBoolType(t.typ) {
		return asBool(t)
	}
	return leaf(t)
}

func (m *Machine) exitOf(spec *loopSpec, it iteration, i int, pc *Val, sub func(*Val) *Val, fresh map[cellID]bool) exitResult {
	e := it.exits[i]
	mem := Mem{}
	for k, v := range e.mem {
		mem[k] = sub(v)
	}
	// objects made by earlier iterations
	var ids []cellID
	for id := range fresh {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return lessCell(ids[i], ids[j]) })
	done := map[cellID]bool{}
	for _, id := range ids {
		if done[id] {
			continue
		}
		done[id] = true
		var content *Val
		if it.cont == vFalse {
			continue
		}
		content = m.read(it.mem, id.key, leaf(id.base))
		content = sub2(content, sub, spec.b)
		base := id.base
		mem[id.key] = lift1(m.arr(mem, id.key), func(a *Term) *Val {
			return leaf(mkBind("fam", nil, []*Term{a}, []*Term{spec.b}, []*Val{leaf(base), content}))
		})
	}
	return exitResult{pc: pc, sub: sub, mem: mem, tag: e.tag}
}

// sub2 substitutes the loop's variables but keeps b.
func sub2(v *Val, sub func(*Val) *Val, b *Term) *Val {
	keep := freshSym("keep", b.typ, b.nn)
	w := substVal(v, valSubst{b: leaf(keep)})
	return substVal(sub(w), valSubst{keep: leaf(b)})
}

// prefixExists reports whether cond(b) says that something held in an earlier
// iteration (so that it stays true once it is).
func prefixExists(cond *Val, b *Term) bool {
	if cond.leaf != nil {
		return cond == vFalse
	}
	ok := true
	some := false
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.leaf != nil {
			return
		}
		t := v.subj.t
		if t.syms[b] {
			some = true
			if !(t.op == "bind" && t.aux == "exists:cnt" && t.args[0] == b) || len(v.kids) != 2 || v.kids[1] != vTrue {
				ok = false
			}
			for _, w := range t.vals {
				if w.syms()[b] {
					ok = false
				}
			}
		}
		for _, k := range v.kids {
			walk(k)
		}
	}
	walk(cond)
	return ok && some
}

// closeVar tries to find v's closed form.
func (m *Machine) closeVar(spec *loopSpec, v *lvar, vars []*lvar, resolved valSubst, unres map[*Term]bool, N *Val, orderedIts bool) bool {
	T := substVal(v.next, resolved)
	b := spec.b
	finish := func(closed func(n *Val) *Val, usable bool) bool {
		v.closed = closed
		v.done = true
		if usable {
			v.mid = closed(leaf(b))
			resolved[v.sym] = v.mid
			delete(unres, v.sym)
		}
		return true
	}
	if T == leafOf(v.sym) {
		return finish(func(n *Val) *Val { return v.init }, true)
	}
	others := func(x *Val, self bool) bool { // depends on unresolved variables
		for s := range x.syms() {
			if unres[s] && (self || s != v.sym) {
				return true
			}
		}
		return false
	}
	domOf := func(n *Val, f func(d Dom) *Val) *Val {
		if spec.dom != nil {
			return f(*spec.dom)
		}
		return lift1(n, func(t *Term) *Val { return f(Dom{kind: "cnt", arg: t}) })
	}
	if !orderedIts {
		// the value at the end is expressible, the one in between is not: no
		// other variable and no exit may need it
		for _, o := range vars {
			if o != v && o.next.syms()[v.sym] {
				return false
			}
		}
	}
	boolean := isBoolType(v.sym.typ)
	if !v.array && !boolean {
		if !others(T, true) {
			// last value
			if orderedIts {
				return finish(func(n *Val) *Val {
					last := substVal(T, valSubst{b: lift1(n, func(t *Term) *Val { return leaf(subT(t, intTerm(1))) })})
					return ite(lift1(n, func(t *Term) *Val { return cmpValF("<=", t, intTerm(0), false) }), v.init, last)
				}, true)
			}
			if !T.syms()[b] {
				return finish(func(n *Val) *Val {
					return ite(mkExists(*spec.dom, b, vTrue), T, v.init)
				}, false)
			}
		}
		if !others(T, false) {
			numeric := v.sym.typ == nil || isIntType(v.sym.typ) || isFloatType(v.sym.typ)
			if numeric {
				d := lift1(T, func(t *Term) *Val { return leaf(subT(t, v.sym)) })
				if !d.syms()[v.sym] {
					return finish(func(n *Val) *Val {
						s := domOf(n, func(dm Dom) *Val { return mkSum(dm, b, d) })
						return lift2(v.init, s, func(x, y *Term) *Val { return leaf(addT(x, y)) })
					}, orderedIts)
				}
				r := lift1(T, func(t *Term) *Val { return leaf(divT(t, v.sym)) })
				if !r.syms()[v.sym] {
					return finish(func(n *Val) *Val {
						s := domOf(n, func(dm Dom) *Val { return mkProd(dm, b, r) })
						return lift2(v.init, s, func(x, y *Term) *Val { return leaf(mulT(x, y)) })
					}, orderedIts)
				}
			}
			// set to one constant under a condition
			var k *Term
			ok := true
			for _, t := range leavesOf(T) {
				if t == v.sym {
					continue
				}
				if k != nil && k != t || t.syms[b] || t.syms[v.sym] {
					ok = false
				}
				k = t
			}
			cond := lift1(T, func(t *Term) *Val { return boolVal(t != v.sym) })
			if ok && k != nil && !cond.syms()[v.sym] {
				return finish(func(n *Val) *Val {
					e := domOf(n, func(dm Dom) *Val { return mkExists(dm, b, cond) })
					return ite(e, leaf(k), v.init)
				}, orderedIts)
			}
		}
	}
	if boolean && !others(T, false) {
		T = boolize(T)
		on := substVal(T, valSubst{v.sym: vTrue})
		off := substVal(T, valSubst{v.sym: vFalse})
		if on == vTrue && !off.syms()[v.sym] {
			return finish(func(n *Val) *Val {
				return orV(v.init, domOf(n, func(dm Dom) *Val { return mkExists(dm, b, off) }))
			}, orderedIts)
		}
		if off == vFalse && !on.syms()[v.sym] {
			return finish(func(n *Val) *Val {
				return andV(v.init, notV(domOf(n, func(dm Dom) *Val { return mkExists(dm, b, notV(on)) })))
			}, orderedIts)
		}
		if on == off && orderedIts {
			return finish(func(n *Val) *Val {
				last := substVal(on, valSubst{b: lift1(n, func(t *Term) *Val { return leaf(subT(t, intTerm(1))) })})
				return ite(lift1(n, func(t *Term) *Val { return cmpValF("<=", t, intTerm(0), false) }), v.init, last)
			}, true)
		}
	}
	if v.array && !others(T, false) {
		return m.closeArray(spec, v, T, N, orderedIts, finish, resolved, unres)
	}
	return false
}

// closeArray handles an array whose element idx(b) is replaced in iteration b.
func (m *Machine) closeArray(spec *loopSpec, v *lvar, T *Val, N *Val, orderedIts bool, finish func(func(*Val) *Val, bool) bool, resolved valSubst, unres map[*Term]bool) bool {
	b := spec.b
	var idx *Term
	bad := false
	typ := m.keyTyp[v.key]
	if v.base == nil && isContentKey(v.key) {
		typ = nil
	}
	body := lift1(T, func(t *Term) *Val {
		if t == v.sym {
			return leaf(rawApp("keepelem", nil))
		}
		if t.op == "app" && t.aux == "store" && t.args[0] == v.sym && (idx == nil || idx == t.args[1]) && !t.args[1].syms[v.sym] {
			idx = t.args[1]
			return leaf(t.args[2])
		}
		bad = true
		return vNil
	})
	if bad || idx == nil {
		return false
	}
	keep := rawApp("keepelem", nil)
	body = lift1(body, func(t *Term) *Val {
		if t == keep {
			return leaf(rawApp("select", typ, v.sym, idx))
		}
		return leaf(t)
	})
	d := Dom{kind: "cnt"}
	if spec.dom != nil {
		d = *spec.dom
	} else if N == nil {
		return false
	}
	dir := 0
	switch d.kind {
	case "cnt":
		c := coefOf(idx, b)
		if c == nil || c.Cmp(rOne) != 0 && c.Cmp(big.NewRat(-1, 1)) != 0 {
			return false
		}
		dir = c.Sign()
	case "keys":
		if idx != b {
			return false
		}
	case "box":
		if !(idx.op == "app" && idx.aux == "hash" && idx.args[0] == b) {
			return false
		}
		dir = 1
		if d.rev {
			dir = -1
		}
	}
	rec := freshSym("rec", nil, false)
	a0 := freshSym("a0", nil, false)
	// reads of the array inside the body: elements already replaced come from
	// the result, the others from the initial array
	mix := rawApp("mix:"+d.kind, typ, a0, rec, idx, intTerm(int64(dir)))
	body = substVal(body, valSubst{v.sym: leaf(mix)})
	for _, t := range collectTerms(body) {
		if t.op == "app" && (t.aux == "mix:cnt" || t.aux == "mix:keys" || t.aux == "mix:box") {
			return false
		}
	}
	build := func(n *Val) *Val {
		return lift1(v.init, func(a *Term) *Val {
			bd := substVal(body, valSubst{a0: leaf(a)})
			if d.kind == "cnt" {
				return lift1(n, func(nt *Term) *Val {
					return mkAmap(leaf(a), Dom{kind: "cnt", arg: nt}, b, rec, idx, bd, typ)
				})
			}
			return mkAmap(leaf(a), d, b, rec, idx, bd, typ)
		})
	}
	v.closed = build
	v.done = true
	// inside the loop, other variables see the mixed array
	if d.kind == "cnt" {
		full := build(N)
		v.mid = lift2(v.init, full, func(a, r *Term) *Val {
			return leaf(rawApp("mix:cnt", typ, a, r, idx, intTerm(int64(dir))))
		})
		resolved[v.sym] = v.mid
		delete(unres, v.sym)
	} else if d.kind == "keys" {
		full := build(nil)
		v.mid = lift2(v.init, full, func(a, r *Term) *Val {
			return leaf(rawApp("mix:keys", typ, a, r, idx, intTerm(0)))
		})
		resolved[v.sym] = v.mid
		delete(unres, v.sym)
	}
	return true
}

// collectTerms lists the terms below v, inside binders too.
func collectTerms(v *Val) []*Term {
	seenT := map[*Term]bool{}
	seenV := map[*Val]bool{}
	var out []*Term
	var wt func(t *Term)
	var wv func(v *Val)
	wt = func(t *Term) {
		if seenT[t] {
			return
		}
		seenT[t] = true
		out = append(out, t)
		for _, a := range t.args {
			wt(a)
		}
		for _, x := range t.vals {
			wv(x)
		}
		if t.poly != nil {
			for _, mo := range t.poly.m {
				for _, f := range mo.fs {
					wt(f.atom)
				}
			}
		}
	}
	wv = func(v *Val) {
		if seenV[v] {
			return
		}
		seenV[v] = true
		if v.leaf != nil {
			wt(v.leaf)
			return
		}
		wt(v.subj.t)
		for _, k := range v.kids {
			wv(k)
		}
		if v.nan != nil {
			wv(v.nan)
		}
	}
	wv(v)
	return out
}

// fold gives the values of the open variables at the exit as a canonical fold.
func (m *Machine) fold(spec *loopSpec, vars, open []*lvar, it iteration, N *Val, conds []*Val, early []int, isMain bool) valSubst {
	b := spec.b
	// the condition for another iteration
	cont := vTrue
	for i := range conds {
		if conds[i] != nil {
			cont = andV(cont, notV(conds[i]))
		}
	}
	openSyms := map[*Term]bool{}
	for _, v := range open {
		openSyms[v.sym] = true
	}
	usesB := cont.syms()[b]
	for _, v := range open {
		if v.next.syms()[b] {
			usesB = true
		}
	}
	type comp struct {
		sym  *Term
		init *Val
		next *Val
		col  string
		tag  string
	}
	var cs []*comp
	for _, v := range open {
		tag := "phi"
		if v.phi != nil {
			tag = "phi:" + tkey(v.phi.Type())
		} else {
			tag = "cell:" + v.key
			if v.idx != nil {
				tag += "[]"
			} else if v.base == nil {
				tag += "*"
			}
		}
		cs = append(cs, &comp{sym: v.sym, init: v.init, next: v.next, tag: tag})
	}
	if usesB && spec.dom == nil {
		cs = append(cs, &comp{sym: b, init: leaf(intTerm(0)), next: leaf(addT(b, intTerm(1))), tag: "iter"})
	}
	// canonical order by colour refinement
	for _, c := range cs {
		c.col = c.tag + "/" + hashV(c.init)
	}
	for r := 0; r < 4; r++ {
		s := valSubst{}
		for _, c := range cs {
			t := sym("colour:"+c.col, c.sym.typ)
			t.nn = c.sym.nn
			if isBoolType(c.sym.typ) {
				s[c.sym] = asBool(t)
			} else {
				s[c.sym] = leaf(t)
			}
		}
		nc := make([]string, len(cs))
		for i, c := range cs {
			nc[i] = hashOf(c.tag + "/" + hashV(c.init) + "/" + hashV(substVal(c.next, s)))
		}
		for i, c := range cs {
			c.col = nc[i]
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].tag+cs[i].col < cs[j].tag+cs[j].col })
	// dependencies of the loop condition
	needed := func(root *comp) []*comp {
		in := map[*comp]bool{}
		var add func(v *Val)
		add = func(v *Val) {
			for _, c := range cs {
				if !in[c] && v.syms()[c.sym] {
					in[c] = true
					add(c.next)
				}
			}
		}
		add(cont)
		if !in[root] {
			in[root] = true
			add(root.next)
		}
		var out []*comp
		for _, c := range cs {
			if in[c] {
				out = append(out, c)
			}
		}
		return out
	}
	out := valSubst{}
	for _, c := range cs {
		if c.sym == b && isMain {
			continue
		}
		group := needed(c)
		inits := []*Val{vNil}
		if spec.dom != nil {
			dir := ""
			if spec.dom.rev {
				dir = "rev"
			}
			inits[0] = leaf(rawApp("dom:"+spec.dom.kind+dir, nil, spec.dom.arg))
		} else if isMain && len(early) == 0 && N != nil {
			inits[0] = N
		}
		which := 0
		var opens []*Term
		var nexts []*Val
		for i, g := range group {
			if g == c {
				which = i
			}
			inits = append(inits, g.init)
			opens = append(opens, g.sym)
			nexts = append(nexts, simplify(g.next, cont))
		}
		if spec.dom != nil {
			opens = append(opens, b)
		}
		nexts = append(nexts, cont)
		typ := c.sym.typ
		kind := "while"
		if spec.dom != nil {
			kind = "fold:" + spec.dom.kind
		}
		res := liftN(inits, func(ts []*Term) *Val {
			t := mkBind(fmt.Sprintf("%s.%d", kind, which), typ, ts, opens, nexts)
			return leafB(t)
		})
		out[c.sym] = res
	}
	return out
}

/*** Structural hashes that do not depend on the names of fresh symbols ***/

var hashTM = map[*Term]string{}
var hashVM = map[*Val]string{}

func hashOf(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return fmt.Sprintf("%x", h.Sum64())
}

func hashT(t *Term) string {
	if h, ok := hashTM[t]; ok {
		return h
	}
	var s string
	switch t.op {
	case "sym":
		s = t.aux
		if i := strings.IndexByte(s, '\''); i >= 0 {
			s = s[:i]
		}
		if t.typ != nil {
			s += t.typ.String()
		}
	case "num":
		var ms []string
		for _, mo := range t.poly.m {
			var fs []string
			for _, f := range mo.fs {
				fs = append(fs, hashT(f.atom)+"^"+f.exp.RatString())
			}
			sort.Strings(fs)
			ms = append(ms, mo.coef.RatString()+"*"+strings.Join(fs, "*"))
		}
		sort.Strings(ms)
		s = strings.Join(ms, "+")
	default:
		s = t.op + "|" + t.aux
		if !isAlloc(t) {
			for _, a := range t.args {
				s += "," + hashT(a)
			}
		}
		for _, v := range t.vals {
			s += ";" + hashV(v)
		}
	}
	h := hashOf(s)
	hashTM[t] = h
	return h
}

func hashV(v *Val) string {
	if v.leaf != nil {
		return hashT(v.leaf)
	}
	if h, ok := hashVM[v]; ok {
		return h
	}
	// decisions are ordered by accident of creation: hash them as a set
	var ls, ss []string
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.leaf != nil {
			ls = append(ls, hashT(v.leaf))
			return
		}
		ss = append(ss, hashT(v.subj.t)+fmt.Sprint(len(v.bounds)))
		for _, k := range v.kids {
			walk(k)
		}
	}
	walk(v)
	sort.Strings(ls)
	sort.Strings(ss)
	h := hashOf(strings.Join(ls, ",") + "|" + strings.Join(ss, ","))
	hashVM[v] = h
	return h
}

// loopPanic is the condition that some iteration of a loop panics, for a loop
// whose panics depend on state without a closed form.
func loopPanic(spec *loopSpec, vars []*lvar, it iteration) *Val {
	open := []*Term{spec.b}
	vals := []*Val{it.panic, it.cont}
	inits := []*Val{vNil}
	if spec.dom != nil {
		inits = append(inits, leaf(spec.dom.arg))
	}
	for _, v := range vars {
		open = append(open, v.sym)
		vals = append(vals, v.next)
		inits = append(inits, v.init)
	}
	return liftN(inits, func(ts []*Term) *Val {
		return asBool(mkBind("looppanic", types.Typ[types.Bool], append([]*Term{}, ts[1:]...), open, vals))
	})
}
