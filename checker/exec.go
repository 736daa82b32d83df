package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The value-graph engine gives every SSA value of a function a value number (a
// *Val) over symbolic inputs, joining the states of all paths at every merge
// point with gated (if-then-else) values, and summarising every loop by closed
// forms (sums, existence, element-wise maps) or a canonical fold. Nothing is
// executed and no path is enumerated; two functions are compared by comparing
// the graphs of their results and of their effects on memory.

// Mem maps a field (or element class) to the array of its values by object.
type Mem map[string]*Val

func (a Mem) clone() Mem {
	b := make(Mem, len(a))
	for k, v := range a {
		b[k] = v
	}
	return b
}

type modEntry struct {
	key  string
	base *Term // nil: anything
	idx  *Term // nil: the whole object
}

type undecided struct{ msg string }

func (u undecided) Error() string { return u.msg }

func giveUp(format string, args ...any) { panic(undecided{fmt.Sprintf(format, args...)}) }

// Machine evaluates functions of one program.
type Machine struct {
	p          *Program
	keyTyp     map[string]types.Type // element type by memory key
	stack      []*ssa.Function
	opaque     map[*ssa.Function]string
	allocN     int64
	loopIts    []*Term
	modlog     [][]modEntry
	steps      int
	globals    map[*ssa.Global]bool // being initialised
	initMem    Mem
	panicked   *Val // condition, relative to the current function's start
	loopInfo   map[*ssa.Function]*loopNest
	effSets    map[*ssa.Function]*effects
	interiors  map[string][]string
	plain      map[*ssa.Function][]*plainResult
	peer       map[*ssa.Function]*effects
	visited    map[*ssa.Function]bool
	loops      int
	assume     *Val
	noContract map[string]bool
	canon      map[*ssa.Function]string // functions named otherwise in the reference
	unroll     int                      // bound on iterations and depth; 0: loops are summarised
	beyond     bool
	kept       map[*Term]bool // slices whose content was taken when they were stored
	deadline   float64
	started    time.Time
}

func newMachine(p *Program) *Machine {
	return &Machine{p: p, keyTyp: map[string]types.Type{}, opaque: map[*ssa.Function]string{},
		initMem: Mem{}, panicked: vFalse, kept: map[*Term]bool{},
		loopInfo: map[*ssa.Function]*loopNest{}, globals: map[*ssa.Global]bool{},
		noContract: map[string]bool{}, plain: map[*ssa.Function][]*plainResult{}, effSets: map[*ssa.Function]*effects{}, peer: map[*ssa.Function]*effects{}, visited: map[*ssa.Function]bool{}}
}

type frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Val
	tup    map[ssa.Value][]*Val
	defers []deferred
	rets   []retState
	rngs   map[ssa.Value]*rangeState
	panics *Val
}

type rangeState struct {
	content *Term
	base    *Term
	kt, vt  types.Type
	ok      *Term
	key     *Term
}

type deferred struct {
	pc   *Val
	call *ssa.CallCommon
	args []*Val
	in   ssa.Instruction
}

type retState struct {
	pc  *Val
	res []*Val
	mem Mem
}

type edge struct {
	from, to *ssa.BasicBlock
	idx      int // successor index in from
	pc       *Val
	mem      Mem
}

/*** Memory ***/

var arrZero = map[*Term]*Term{} // initial array symbol -> value at a fresh object
var arrBorn = map[*Term]int64{}

func (m *Machine) initArr(key string, zero *Val) *Val {
	t := sym("M:"+key, nil)
	if zero != nil && zero.leaf != nil {
		arrZero[t] = zero.leaf
	}
	return leaf(t)
}

func isContentKey(key string) bool {
	return strings.HasPrefix(key, "elem:") || strings.HasPrefix(key, "map:")
}

func (m *Machine) zeroOfKey(key string) *Val {
	typ := m.keyTyp[key]
	switch {
	case strings.HasPrefix(key, "elem:"):
		z := zeroVal(typ)
		if z.leaf == nil {
			return nil
		}
		return leaf(rawApp("constarr", nil, z.leaf))
	case strings.HasPrefix(key, "map:"):
		return leaf(rawApp("emptymap", nil))
	case key == kQueue:
		return leaf(rawApp("qempty", nil))
	case strings.HasPrefix(key, "deque:"):
		return leaf(rawApp("dempty", nil))
	case key == "heap":
		return leaf(rawApp("hempty", nil))
	case key == kQueueOff:
		return vFalse
	case key == kQueueCap:
		return leaf(intTerm(0))
	case key == "obj", key == "rand":
		return nil
	case typ == nil:
		return nil
	}
	return zeroVal(typ)
}

func (m *Machine) arr(mem Mem, key string) *Val {
	if v, ok := mem[key]; ok {
		return v
	}
	v := m.initArr(key, m.zeroOfKey(key))
	return v
}

func (m *Machine) log(key string, base, idx *Term) {
	if m.kept[base] && strings.HasPrefix(key, "elem:") {
		giveUp("a stored slice is written to")
	}
	for i := range m.modlog {
		m.modlog[i] = append(m.modlog[i], modEntry{key, base, idx})
	}
}

func (m *Machine) read(mem Mem, key string, base *Val) *Val {
	typ := m.keyTyp[key]
	if isContentKey(key) {
		typ = nil
	}
	return lift2(m.arr(mem, key), base, func(a, b *Term) *Val { return selectT(a, b, typ) })
}

func (m *Machine) write(mem Mem, key string, base, val *Val) {
	lift1(base, func(b *Term) *Val { m.log(key, b, nil); return vNil })
	m.writeNoLog(mem, key, base, val)
}

func (m *Machine) writeNoLog(mem Mem, key string, base, val *Val) {
	mem[key] = liftN([]*Val{m.arr(mem, key), base, val}, func(ts []*Term) *Val {
		return storeT(ts[0], ts[1], ts[2])
	})
}

// storeT is the array a with index i replaced by v; stores to distinct known
// indices are kept in a canonical order.
func storeT(a, i, v *Term) *Val {
	if a.op == "app" && a.aux == "store" {
		j := a.args[1]
		eq := keyEq(i, j)
		if eq == vTrue {
			return storeT(a.args[0], i, v)
		}
		if eq == vFalse && i.id < j.id {
			return lift1(storeT(a.args[0], i, v), func(t *Term) *Val { return leaf(rawApp("store", nil, t, j, a.args[2])) })
		}
	}
	if v.op == "app" && v.aux == "select" && v.args[0] == a && v.args[1] == i && !isMapContent(a) {
		return leaf(a)
	}
	return leaf(rawApp("store", nil, a, i, v))
}

func (m *Machine) readElem(mem Mem, key string, base, idx *Val) *Val {
	typ := m.keyTyp[key]
	return liftN([]*Val{m.read(mem, key, base), idx}, func(ts []*Term) *Val { return selectT(ts[0], ts[1], typ) })
}

func (m *Machine) writeElem(mem Mem, key string, base, idx, val *Val) {
	lift2(base, idx, func(b, i *Term) *Val { m.log(key, b, i); return vNil })
	c := m.read(mem, key, base)
	nc := liftN([]*Val{c, idx, val}, func(ts []*Term) *Val { return storeT(ts[0], ts[1], ts[2]) })
	m.writeNoLog(mem, key, base, nc)
}

func tkey(t types.Type) string { return types.TypeString(types.Unalias(t), nil) }

func (m *Machine) elemKey(t types.Type) string {
	k := "elem:" + tkey(t)
	m.keyTyp[k] = t
	return k
}

func (m *Machine) mapKey(t *types.Map) string {
	k := "map:" + tkey(t.Key()) + ":" + tkey(t.Elem())
	m.keyTyp[k] = t.Elem()
	return k
}

func (m *Machine) cellKey(t types.Type) string {
	k := "cell:" + tkey(t)
	m.keyTyp[k] = t
	return k
}

func (m *Machine) fieldKey(st types.Type, i int) string {
	s := st.Underlying().(*types.Struct)
	k := typeName(st) + "." + s.Field(i).Name()
	if r, ok := fieldRename[k]; ok {
		k = r
	}
	if n, ok := types.Unalias(st).(*types.Named); ok && n.TypeArgs() != nil {
		k = n.String() + "." + s.Field(i).Name()
	}
	m.keyTyp[k] = s.Field(i).Type()
	return k
}

// load reads a value of type t at address addr.
func (m *Machine) load(mem Mem, addr *Val, t types.Type) *Val {
	if st, ok := t.Underlying().(*types.Struct); ok {
		fs := make([]*Val, st.NumFields())
		for i := range fs {
			fs[i] = m.load(mem, m.fieldAddr(addr, t, i), st.Field(i).Type())
		}
		return liftN(fs, func(ts []*Term) *Val { return leaf(structTerm(t, ts)) })
	}
	return lift1(addr, func(a *Term) *Val {
		if a.op == "app" {
			switch a.aux {
			case "fieldaddr":
				m.keyTyp[a.args[1].aux] = t
				return m.read(mem, a.args[1].aux, leaf(a.args[0]))
			case "elemaddr":
				return m.readElem(mem, a.args[2].aux, leaf(a.args[0]), leaf(a.args[1]))
			}
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return leaf(rawApp("arrval", t, m.read(mem, m.elemKey(at.Elem()), leaf(a)).leaf))
		}
		return m.read(mem, m.cellKey(t), leaf(a))
	})
}

func (m *Machine) store(mem Mem, addr, val *Val, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			m.store(mem, m.fieldAddr(addr, t, i), m.fieldOf(val, t, i), st.Field(i).Type())
		}
		return
	}
	m.forLeaves(mem, addr, func(a *Term, mem Mem) {
		if a.op == "app" {
			switch a.aux {
			case "fieldaddr":
				m.keyTyp[a.args[1].aux] = t
				m.write(mem, a.args[1].aux, leaf(a.args[0]), val)
				return
			case "elemaddr":
				m.writeElem(mem, a.args[2].aux, leaf(a.args[0]), leaf(a.args[1]), val)
				return
			}
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			if val.leaf != nil && val.leaf.op == "app" && val.leaf.aux == "arrval" {
				m.write(mem, m.elemKey(at.Elem()), leaf(a), leaf(val.leaf.args[0]))
				return
			}
			if val.leaf != nil && val.leaf.op == "app" && val.leaf.aux == "constarr" {
				m.write(mem, m.elemKey(at.Elem()), leaf(a), val)
				return
			}
			giveUp("array value")
		}
		m.write(mem, m.cellKey(t), leaf(a), val)
	})
}

// forLeaves runs f for each alternative of v on its own memory and merges the
// memories back under the conditions of the alternatives.
func (m *Machine) forLeaves(mem Mem, v *Val, f func(t *Term, mem Mem)) {
	if v.leaf != nil {
		f(v.leaf, mem)
		return
	}
	type alt struct {
		t    *Term
		cond *Val
		mem  Mem
	}
	var alts []*alt
	for _, t := range leavesOf(v) {
		t := t
		c := lift1(v, func(x *Term) *Val { return boolVal(x == t) })
		a := &alt{t, c, mem.clone()}
		f(t, a.mem)
		alts = append(alts, a)
	}
	keys := map[string]bool{}
	for _, a := range alts {
		for k := range a.mem {
			keys[k] = true
		}
	}
	for k := range keys {
		r := m.arr(alts[len(alts)-1].mem, k)
		for i := len(alts) - 2; i >= 0; i-- {
			r = ite(alts[i].cond, m.arr(alts[i].mem, k), r)
		}
		mem[k] = r
	}
}

func leavesOf(v *Val) []*Term {
	var out []*Term
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if seen[v] {
			return
		}
		seen[v] = true
		if v.leaf != nil {
			out = append(out, v.leaf)
			return
		}
		for _, k := range v.kids {
			walk(k)
		}
		if v.nan != nil {
			walk(v.nan)
		}
	}
	walk(v)
	return out
}

func (m *Machine) fieldAddr(base *Val, st types.Type, i int) *Val {
	k := strTerm(m.fieldKey(st, i))
	return lift1(base, func(b *Term) *Val {
		return leaf(rawApp("fieldaddr", types.NewPointer(st.Underlying().(*types.Struct).Field(i).Type()), b, k))
	})
}

func (m *Machine) fieldOf(v *Val, st types.Type, i int) *Val {
	s := st.Underlying().(*types.Struct)
	return lift1(v, func(t *Term) *Val {
		if t.op == "app" && t.aux == "struct" {
			return leaf(t.args[fieldOrder(st).pos[i]])
		}
		return leaf(rawApp("field:"+fieldOrder(st).names[fieldOrder(st).pos[i]], s.Field(i).Type(), t))
	})
}

func (m *Machine) alloc(t types.Type) *Term {
	m.allocN++
	id := sym(fmt.Sprintf("A#%d", m.allocN), nil)
	allocNums[id] = m.allocN
	allocTyps[id] = tkey(t)
	args := []*Term{id}
	args = append(args, m.loopIts...)
	return rawApp("alloc", types.NewPointer(t), args...)
}

// allocNums gives the creation order of the objects named by allocation symbols.
var allocNums = map[*Term]int64{}

// allocTyps gives their types.
var allocTyps = map[*Term]string{}

func allocNum(t *Term) int64 { return allocNums[t.args[0]] }

func isAlloc(t *Term) bool { return t.op == "app" && t.aux == "alloc" }

/*** Slices ***/

func isSliceApp(t *Term) bool { return t.op == "app" && t.aux == "slice" }

func sliceBase(t *Term) *Term {
	if isSliceApp(t) {
		return t.args[0]
	}
	return t
}

func sliceOff(t *Term) *Term {
	if isSliceApp(t) {
		return t.args[1]
	}
	return intTerm(0)
}

func mkSlice(base, off, n *Term, typ types.Type) *Term {
	return rawApp("slice", typ, base, off, n)
}

func (m *Machine) lenOf(v *Val) *Val {
	return lift1(v, func(t *Term) *Val {
		if isSliceApp(t) {
			return leaf(t.args[2])
		}
		if t.op == "str" {
			return leaf(intTerm(int64(len(t.aux))))
		}
		return lenT(t)
	})
}

// content of a slice, shifted so that its first element has index 0.
func (m *Machine) content(mem Mem, s *Term, elem types.Type) *Val {
	key := m.elemKey(elem)
	if s == tNil {
		return m.zeroOfKey(key)
	}
	off := sliceOff(s)
	return lift1(m.read(mem, key, leaf(sliceBase(s))), func(c *Term) *Val {
		if k := constOf(off); k != nil && k.Sign() == 0 {
			return leaf(c)
		}
		return leaf(rawApp("shift", nil, c, off))
	})
}

// newSlice makes a fresh slice with the given content.
func (m *Machine) newSlice(mem Mem, typ types.Type, content *Val, n *Val) *Val {
	elem := typ.Underlying().(*types.Slice).Elem()
	if n.leaf != nil {
		if k := constOf(n.leaf); k != nil && k.Sign() == 0 {
			return leaf(m.emptySlice(elem, typ))
		}
	}
	base := m.alloc(types.NewArray(elem, -1))
	m.write(mem, m.elemKey(elem), leaf(base), content)
	return lift1(n, func(l *Term) *Val { return leaf(mkSlice(base, intTerm(0), l, typ)) })
}

// emptySlice is the slice of no elements: which one cannot be observed, because
// growing it copies and there is nothing to overwrite.
func (m *Machine) emptySlice(elem, typ types.Type) *Term {
	z := m.zeroOfKey(m.elemKey(elem))
	return mkSlice(rawApp("vbase", nil, z.leaf), intTerm(0), intTerm(0), typ)
}

/*** Function evaluation ***/

var (
	fnIDs  = map[*ssa.Function]int64{}
	fnList []*ssa.Function
)

func (m *Machine) fnTerm(fn *ssa.Function, bindings ...*Term) *Term {
	id, ok := fnIDs[fn]
	if !ok {
		id = int64(len(fnList))
		fnList = append(fnList, fn)
		fnIDs[fn] = id
	}
	return rawApp("closure", nil, append([]*Term{intTerm(id)}, bindings...)...)
}

func (m *Machine) fnOf(t *Term) (*ssa.Function, []*Term) {
	if t.op != "app" || t.aux != "closure" {
		return nil, nil
	}
	return fnList[constOf(t.args[0]).Num().Int64()], t.args[1:]
}

const maxSteps = 400000

// call evaluates fn's body on args; it returns the results and updates mem. The
// results are meaningful where the returned condition (of returning) holds.
func (m *Machine) call(fn *ssa.Function, args []*Val, free []*Val, mem Mem) []*Val {
	if name, ok := m.opaque[fn]; ok && len(m.stack) > 0 {
		return m.opaqueCall(fn, name, args, mem)
	}
	depth := 0
	for _, f := range m.stack {
		if f == fn {
			depth++
		}
	}
	if depth > 0 && m.unroll == 0 {
		giveUp("recursion through %s", fnName(fn))
	}
	if depth > m.unroll {
		m.goBeyond(vTrue)
		res := make([]*Val, fn.Signature.Results().Len())
		for i := range res {
			res[i] = zeroVal(fn.Signature.Results().At(i).Type())
		}
		return res
	}
	if len(m.stack) > 40 {
		giveUp("inlining too deep at %s", fnName(fn))
	}
	if len(fn.Blocks) == 0 {
		giveUp("no body for %s", fnName(fn))
	}
	m.visited[fn] = true
	m.stack = append(m.stack, fn)
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	fr := &frame{fn: fn, env: map[ssa.Value]*Val{}, tup: map[ssa.Value][]*Val{}, rngs: map[ssa.Value]*rangeState{}, panics: vFalse}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = free[i]
	}
	nest := m.nest(fn)
	outs := m.region(fr, nest, nil, fn.Blocks[0], vTrue, mem.clone(), nil)
	if len(outs) != 0 {
		giveUp("unexpected edges out of %s", fnName(fn))
	}
	m.panicked = orV(m.panicked, fr.panics)
	if len(fr.rets) == 0 {
		// never returns normally
		n := fn.Signature.Results().Len()
		res := make([]*Val, n)
		for i := range res {
			res[i] = vNil
		}
		return res
	}
	out := m.mergeStates(fr.rets)
	for k := range mem {
		delete(mem, k)
	}
	for k, v := range out.mem {
		mem[k] = v
	}
	return out.res
}

func (m *Machine) mergeStates(rs []retState) retState {
	if len(rs) == 1 {
		return rs[0]
	}
	all := vFalse
	for _, r := range rs {
		all = orV(all, r.pc)
	}
	last := rs[len(rs)-1]
	res := append([]*Val{}, last.res...)
	keys := map[string]bool{}
	for _, r := range rs {
		for k := range r.mem {
			keys[k] = true
		}
	}
	mem := Mem{}
	for k := range keys {
		v := m.arr(last.mem, k)
		for i := len(rs) - 2; i >= 0; i-- {
			v = ite(rs[i].pc, m.arr(rs[i].mem, k), v)
		}
		mem[k] = simplify(v, all)
	}
	for j := range res {
		v := res[j]
		for i := len(rs) - 2; i >= 0; i-- {
			v = ite(rs[i].pc, rs[i].res[j], v)
		}
		res[j] = simplify(v, all)
	}
	return retState{all, res, mem}
}

// simplify drops decisions of v that do not matter where care holds.
func simplify(v, care *Val) *Val {
	if v.leaf != nil || care == vTrue || care == vFalse {
		return v
	}
	return restrict(v, care)
}

// region evaluates the blocks of loop (nil: the whole function) starting at
// entry, and returns the edges that leave it, including back edges.
func (m *Machine) region(fr *frame, nest *loopNest, loop *natLoop, entry *ssa.BasicBlock, pc *Val, mem Mem, phiVals map[*ssa.Phi]*Val) []edge {
	in := map[*ssa.BasicBlock][]edge{}
	var outs []edge
	emit := func(e edge) {
		if e.pc == vFalse {
			return
		}
		if loop != nil && (!loop.blocks[e.to] || e.to == loop.header) {
			outs = append(outs, e)
			return
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range nest.rpo {
		if loop != nil && !loop.blocks[b] {
			continue
		}
		if b == fr.fn.Recover {
			continue
		}
		inner := nest.innermostBelow(b, loop)
		if inner != nil && inner.header != b {
			continue // evaluated with its loop
		}
		var bpc *Val
		var bmem Mem
		var es []edge
		if b == entry {
			bpc, bmem = pc, mem
		} else {
			es = in[b]
			if len(es) == 0 {
				continue
			}
			bpc, bmem = m.mergeEdges(es)
		}
		if inner != nil {
			// entry values of the header's phis
			inits := map[*ssa.Phi]*Val{}
			for _, i := range b.Instrs {
				if phi, ok := i.(*ssa.Phi); ok {
					inits[phi] = m.phi(fr, phi, es, bpc)
				}
			}
			for _, e := range m.loop(fr, nest, inner, bpc, bmem, inits) {
				emit(e)
			}
			continue
		}
		if b == entry && loop != nil {
			for p, v := range phiVals {
				fr.env[p] = v
			}
		} else {
			vals := map[*ssa.Phi]*Val{}
			for _, i := range b.Instrs {
				if phi, ok := i.(*ssa.Phi); ok {
					vals[phi] = m.phi(fr, phi, es, bpc)
				}
			}
			for p, v := range vals {
				fr.env[p] = v
			}
		}
		m.block(fr, b, bpc, bmem, emit)
	}
	return outs
}

func (m *Machine) mergeEdges(es []edge) (*Val, Mem) {
	if len(es) == 1 {
		return es[0].pc, es[0].mem.clone()
	}
	rs := make([]retState, len(es))
	for i, e := range es {
		rs[i] = retState{pc: e.pc, mem: e.mem}
	}
	r := m.mergeStates(rs)
	return r.pc, r.mem
}

func (m *Machine) phi(fr *frame, phi *ssa.Phi, es []edge, pc *Val) *Val {
	var v *Val
	for _, e := range es {
		n := -1
		for i, p := range phi.Block().Preds {
			if p == e.from {
				n = i
				if len(e.from.Succs) == 2 && e.from.Succs[0] == e.from.Succs[1] {
					// both branches lead here: pick the e.idx-th
					c := 0
					for j, q := range phi.Block().Preds {
						if q == e.from {
							if c == e.idx {
								n = j
							}
							c++
						}
					}
				}
				break
			}
		}
		x := m.val(fr, phi.Edges[n])
		if v == nil {
			v = x
		} else {
			v = ite(e.pc, x, v)
		}
	}
	if v == nil {
		return vNil
	}
	return simplify(v, pc)
}

func (m *Machine) block(fr *frame, b *ssa.BasicBlock, pc *Val, mem Mem, emit func(edge)) {
	for _, in := range b.Instrs {
		m.steps++
		if m.steps > maxSteps {
			giveUp("too many steps")
		}
		if m.deadline > 0 && m.steps%64 == 0 && time.Since(m.started).Seconds() > m.deadline {
			giveUp("deadline")
		}
		if valCount-valBase > 3000000 || valCount > 20000000 {
			giveUp("value graph too large")
		}
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := boolize(m.val(fr, in.Cond))
			emit(edge{b, b.Succs[0], 0, andV(pc, c), mem})
			emit(edge{b, b.Succs[1], 1, andV(pc, notV(c)), mem})
			return
		case *ssa.Jump:
			emit(edge{b, b.Succs[0], 0, pc, mem})
			return
		case *ssa.Return:
			res := make([]*Val, len(in.Results))
			for i, r := range in.Results {
				res[i] = m.val(fr, r)
			}
			fr.rets = append(fr.rets, retState{pc, res, mem})
			return
		case *ssa.Panic:
			fr.panics = orV(fr.panics, pc)
			return
		default:
			save := m.panicked
			m.panicked = vFalse
			m.instr(fr, in, pc, mem)
			if m.panicked != vFalse {
				bad := andV(pc, m.panicked)
				fr.panics = orV(fr.panics, bad)
				pc = andV(pc, notV(m.stopCond(m.panicked)))
			}
			m.panicked = save
			if pc == vFalse {
				return
			}
		}
	}
}

func (m *Machine) val(fr *frame, v ssa.Value) *Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return leaf(m.fnTerm(v))
	case *ssa.Global:
		return leaf(rawApp("global", v.Type(), strTerm(v.Pkg.Pkg.Path()+"."+v.Name())))
	case *ssa.Builtin:
		giveUp("builtin %s as a value", v.Name())
	}
	if x, ok := fr.env[v]; ok {
		return x
	}
	giveUp("%s: value %s of %s is not available", m.p.posOf(asInstr(v)), v.Name(), fnName(fr.fn))
	return nil
}

func asInstr(v ssa.Value) ssa.Instruction {
	if i, ok := v.(ssa.Instruction); ok {
		return i
	}
	return v.Parent().Blocks[0].Instrs[0]
}

func constVal(c *ssa.Const) *Val {
	if c.Value == nil {
		return zeroVal(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolVal(constant.BoolVal(c.Value))
	case constant.String:
		return leaf(strTerm(constant.StringVal(c.Value)))
	case constant.Int, constant.Float:
		r, ok := new(big.Rat).SetString(c.Value.ExactString())
		if ok {
			return leaf(ratTerm(r))
		}
	}
	giveUp("constant %s", c)
	return nil
}

func (m *Machine) deref(p *Val) {
	n := lift1(p, isNil)
	if n != vFalse {
		m.panicked = orV(m.panicked, n)
	}
}

func (m *Machine) instr(fr *frame, in ssa.Instruction, pc *Val, mem Mem) {
	switch in := in.(type) {
	case *ssa.Alloc:
		fr.env[in] = leaf(m.alloc(in.Type().Underlying().(*types.Pointer).Elem()))
	case *ssa.BinOp:
		fr.env[in] = m.binop(in.Op, m.val(fr, in.X), m.val(fr, in.Y), in.X.Type())
	case *ssa.UnOp:
		x := m.val(fr, in.X)
		switch in.Op {
		case token.MUL:
			m.deref(x)
			if g, ok := in.X.(*ssa.Global); ok {
				if v := m.globalValue(g, mem); v != nil {
					fr.env[in] = v
					return
				}
			}
			fr.env[in] = m.load(mem, x, in.Type())
		case token.SUB:
			fr.env[in] = lift1(x, func(t *Term) *Val { return leaf(negT(t)) })
		case token.NOT:
			fr.env[in] = notV(boolize(x))
		default:
			fr.env[in] = lift1(x, func(t *Term) *Val { return leaf(rawApp("un"+in.Op.String(), in.Type(), t)) })
		}
	case *ssa.ChangeInterface:
		fr.env[in] = m.val(fr, in.X)
	case *ssa.ChangeType:
		fr.env[in] = m.val(fr, in.X)
	case *ssa.Convert:
		fr.env[in] = m.convert(m.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		fr.env[in] = m.convert(m.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeInterface:
		t := in.X.Type()
		fr.env[in] = lift1(m.val(fr, in.X), func(x *Term) *Val { return leaf(rawApp("iface:"+tkey(t), t, x)) })
	case *ssa.TypeAssert:
		m.typeAssert(fr, in)
	case *ssa.Extract:
		tp, ok := fr.tup[in.Tuple]
		if !ok {
			giveUp("tuple %s", in.Tuple.Name())
		}
		fr.env[in] = tp[in.Index]
	case *ssa.Field:
		fr.env[in] = m.fieldOf(m.val(fr, in.X), in.X.Type(), in.Field)
	case *ssa.FieldAddr:
		x := m.val(fr, in.X)
		m.deref(x)
		fr.env[in] = m.fieldAddr(x, in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
	case *ssa.IndexAddr:
		x, i := m.val(fr, in.X), m.val(fr, in.Index)
		elem := in.Type().Underlying().(*types.Pointer).Elem()
		key := m.elemKey(elem)
		_, isStruct := elem.Underlying().(*types.Struct)
		fr.env[in] = lift2(x, i, func(s, i *Term) *Val {
			aux := "elemaddr"
			if isStruct {
				aux = "structelem"
			}
			return leaf(rawApp(aux, in.Type(), sliceBase(s), addT(sliceOff(s), i), strTerm(key)))
		})
	case *ssa.Index:
		x, i := m.val(fr, in.X), m.val(fr, in.Index)
		fr.env[in] = lift2(x, i, func(s, i *Term) *Val {
			if s.op == "app" && s.aux == "arrval" {
				return selectT(s.args[0], i, in.Type())
			}
			if s.op == "app" && s.aux == "constarr" {
				return leaf(s.args[0])
			}
			return leaf(rawApp("index", in.Type(), s, i))
		})
	case *ssa.Lookup:
		m.lookup(fr, in, mem)
	case *ssa.MakeClosure:
		bs := make([]*Val, len(in.Bindings))
		for i, b := range in.Bindings {
			bs[i] = m.val(fr, b)
		}
		fn := in.Fn.(*ssa.Function)
		fr.env[in] = liftN(append([]*Val{vNil}, bs...), func(ts []*Term) *Val { return leaf(m.fnTerm(fn, ts[1:]...)) })
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		a := m.alloc(in.Type())
		m.write(mem, m.mapKey(mt), leaf(a), leaf(rawApp("emptymap", nil)))
		fr.env[in] = leaf(a)
	case *ssa.MakeSlice:
		elem := in.Type().Underlying().(*types.Slice).Elem()
		z := m.zeroOfKey(m.elemKey(elem))
		fr.env[in] = m.newSlice(mem, in.Type(), z, m.val(fr, in.Len))
	case *ssa.MapUpdate:
		mt := in.Map.Type().Underlying().(*types.Map)
		mp, k, v := m.val(fr, in.Map), m.val(fr, in.Key), m.val(fr, in.Value)
		m.deref(mp)
		m.writeElem(mem, m.mapKey(mt), mp, k, v)
	case *ssa.Range:
		m.rangeInit(fr, in, mem)
	case *ssa.Next:
		r := fr.rngs[in.Iter]
		if r == nil {
			giveUp("range over a string")
		}
		key := m.mapKey(in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map))
		v := m.readElem(mem, key, leaf(r.base), leaf(r.key))
		fr.tup[in] = []*Val{asBool(r.ok), leaf(r.key), v}
	case *ssa.Slice:
		m.slice(fr, in, mem)
	case *ssa.Store:
		p := m.val(fr, in.Addr)
		m.deref(p)
		m.store(mem, p, m.val(fr, in.Val), in.Val.Type())
	case *ssa.Call:
		res := m.callCommon(fr, in.Common(), in, mem)
		if in.Call.Signature().Results().Len() == 1 || isBuiltinCall(in.Common()) {
			if len(res) > 0 {
				fr.env[in] = res[0]
			}
		} else {
			fr.tup[in] = res
		}
	case *ssa.Go:
		// calls in goroutines are taken to happen at the go statement: the join,
		// locking and independence rules of the walk justify any order
		m.callCommon(fr, in.Common(), in, mem)
	case *ssa.Defer:
		d := deferred{pc: pc, call: in.Common(), in: in}
		c := in.Common()
		if c.IsInvoke() {
			d.args = append(d.args, m.val(fr, c.Value))
		} else if _, ok := c.Value.(*ssa.Builtin); !ok {
			d.args = append(d.args, m.val(fr, c.Value))
		} else {
			d.args = append(d.args, vNil)
		}
		for _, a := range c.Args {
			d.args = append(d.args, m.val(fr, a))
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			c := andV(pc, d.pc)
			if c == vFalse {
				continue
			}
			after := mem.clone()
			m.callArgs(d.call, d.args, d.in, after, fr)
			for k := range after {
				mem[k] = ite(d.pc, after[k], m.arr(mem, k))
			}
		}
	default:
		giveUp("%s: instruction %T", m.p.posOf(in), in)
	}
}

func isBuiltinCall(c *ssa.CallCommon) bool {
	_, ok := c.Value.(*ssa.Builtin)
	return ok
}

func (m *Machine) binop(op token.Token, x, y *Val, t types.Type) *Val {
	b, basic := t.Underlying().(*types.Basic)
	switch op {
	case token.EQL, token.NEQ:
		var v *Val
		switch {
		case basic && b.Info()&types.IsBoolean != 0:
			v = ite(boolize(x), boolize(y), notV(boolize(y)))
		case basic && b.Info()&types.IsNumeric != 0:
			return lift2(x, y, func(a, c *Term) *Val { return cmpVal(op.String(), a, c) })
		case basic && b.Info()&types.IsString != 0:
			v = lift2(x, y, func(a, c *Term) *Val { return mkApp("streq", nil, a, c) })
		default:
			v = lift2(x, y, func(a, c *Term) *Val { return ptrEq(a, c) })
		}
		if op == token.NEQ {
			return notV(v)
		}
		return v
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if basic && b.Info()&types.IsNumeric != 0 {
			return lift2(x, y, func(a, c *Term) *Val { return cmpVal(op.String(), a, c) })
		}
		return lift2(x, y, func(a, c *Term) *Val { return asBool(rawApp("is:"+op.String(), nil, a, c)) })
	}
	if basic && b.Info()&types.IsString != 0 && op == token.ADD {
		return lift2(x, y, func(a, c *Term) *Val { return leaf(concatT([]*Term{a, c})) })
	}
	isInt := basic && b.Info()&types.IsInteger != 0
	return lift2(x, y, func(a, c *Term) *Val {
		switch op {
		case token.ADD:
			return leaf(addT(a, c))
		case token.SUB:
			return leaf(subT(a, c))
		case token.MUL:
			return leaf(mulT(a, c))
		case token.QUO:
			if isInt {
				return mkApp("quo", t, a, c)
			}
			return leaf(divT(a, c))
		case token.REM:
			return mkApp("rem", t, a, c)
		case token.SHL:
			return leaf(mulT(a, powT(intTerm(2), c)))
		}
		return leaf(rawApp("bin"+op.String(), t, a, c))
	})
}

func (m *Machine) convert(x *Val, from, to types.Type) *Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if ok1 && ok2 && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0 {
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			return lift1(x, func(t *Term) *Val { return mkApp("trunc", to, t) })
		}
		return x
	}
	return lift1(x, func(t *Term) *Val { return mkApp("conv:"+tkey(to), to, t) })
}

func (m *Machine) typeAssert(fr *frame, in *ssa.TypeAssert) {
	x := m.val(fr, in.X)
	want := "iface:" + tkey(in.AssertedType)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	okV := lift1(x, func(t *Term) *Val {
		if t.op == "app" && strings.HasPrefix(t.aux, "iface:") {
			if toIface {
				return boolVal(types.Implements(t.typ, in.AssertedType.Underlying().(*types.Interface)))
			}
			return boolVal(t.aux == want)
		}
		if t == tNil {
			return vFalse
		}
		return asBool(rawApp("is:type:"+tkey(in.AssertedType), nil, t))
	})
	v := lift1(x, func(t *Term) *Val {
		if toIface {
			return leaf(t)
		}
		if t.op == "app" && t.aux == want {
			return leaf(t.args[0])
		}
		if t.op == "app" && strings.HasPrefix(t.aux, "iface:") || t == tNil {
			return zeroVal(in.AssertedType)
		}
		return leaf(rawApp("unbox:"+tkey(in.AssertedType), in.AssertedType, t))
	})
	if in.CommaOk {
		fr.tup[in] = []*Val{ite(okV, v, zeroVal(in.AssertedType)), okV}
		return
	}
	// a value taken out of a queue has the type that was put in (rule payload-type)
	fr.env[in] = v
}

func (m *Machine) lookup(fr *frame, in *ssa.Lookup, mem Mem) {
	x, k := m.val(fr, in.X), m.val(fr, in.Index)
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		fr.env[in] = lift2(x, k, func(s, i *Term) *Val { return leaf(rawApp("strindex", in.Type(), s, i)) })
		return
	}
	key := m.mapKey(mt)
	elem := mt.Elem()
	content := m.read(mem, key, x)
	has := lift2(content, k, hasT)
	v := lift2(content, k, func(c, k *Term) *Val { return mapGet(c, k, elem) })
	if in.CommaOk {
		fr.tup[in] = []*Val{v, has}
		return
	}
	fr.env[in] = v
}

// mapGet is the value of a key, or zero if it is absent.
func mapGet(c, k *Term, elem types.Type) *Val {
	return ite(hasT(c, k), selectT(c, k, elem), zeroVal(elem))
}

func (m *Machine) slice(fr *frame, in *ssa.Slice, mem Mem) {
	x := m.val(fr, in.X)
	var lo, hi *Val
	if in.Low != nil {
		lo = m.val(fr, in.Low)
	} else {
		lo = leaf(intTerm(0))
	}
	if in.High != nil {
		hi = m.val(fr, in.High)
	}
	switch xt := in.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		at := xt.Elem().Underlying().(*types.Array)
		if at.Len() == 0 {
			fr.env[in] = leaf(m.emptySlice(at.Elem(), in.Type()))
			return
		}
		if hi == nil {
			hi = leaf(intTerm(at.Len()))
		}
		fr.env[in] = liftN([]*Val{x, lo, hi}, func(ts []*Term) *Val {
			return leaf(mkSlice(ts[0], ts[1], subT(ts[2], ts[1]), in.Type()))
		})
	case *types.Slice:
		if hi == nil {
			hi = m.lenOf(x)
		}
		fr.env[in] = liftN([]*Val{x, lo, hi}, func(ts []*Term) *Val {
			if l := constOf(ts[1]); l != nil && l.Sign() == 0 && !isSliceApp(ts[0]) {
				if n := lenT(ts[0]); n.leaf == ts[2] {
					return leaf(ts[0])
				}
			}
			return leaf(mkSlice(sliceBase(ts[0]), addT(sliceOff(ts[0]), ts[1]), subT(ts[2], ts[1]), in.Type()))
		})
	default:
		if hi == nil {
			hi = m.lenOf(x)
		}
		fr.env[in] = liftN([]*Val{x, lo, hi}, func(ts []*Term) *Val { return leaf(rawApp("substr", in.Type(), ts...)) })
	}
}

func (m *Machine) rangeInit(fr *frame, in *ssa.Range, mem Mem) {
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		giveUp("range over %s", in.X.Type())
	}
	x := m.val(fr, in.X)
	if x.leaf == nil {
		giveUp("range over one of several maps")
	}
	c := m.read(mem, m.mapKey(mt), x)
	c = lift1(c, func(t *Term) *Val { return leaf(keysOf(t)) })
	// there is nothing in a nil map
	keys := valTerm(ite(isNil(x.leaf), leaf(rawApp("emptymap", nil)), c))
	fr.rngs[in] = &rangeState{content: keys, base: x.leaf, kt: mt.Key(), vt: mt.Elem(),
		ok: freshSym("rangeok", types.Typ[types.Bool], false), key: freshSym("k", mt.Key(), false)}
}

// globalValue gives the content of a package-level variable that nothing
// outside its package's initialisation writes (rule no-global-write).
func (m *Machine) globalValue(g *ssa.Global, mem Mem) *Val {
	if relPkg(g.Pkg.Pkg.Path()) == "?" {
		return nil
	}
	key := m.cellKey(g.Type().Underlying().(*types.Pointer).Elem())
	if _, ok := mem["ginit:"+g.Name()]; ok || m.globals[g] {
		return nil
	}
	// the single store of the package initialiser
	var st *ssa.Store
	n := 0
	initFn := g.Pkg.Func("init")
	for _, b := range initFn.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && s.Addr == g {
				st = s
				n++
			}
		}
	}
	if n != 1 {
		return nil
	}
	m.globals[g] = true
	defer delete(m.globals, g)
	_ = key
	return m.staticVal(st.Val, mem, map[ssa.Value]*Val{}, g.Pkg.Pkg.Path()+"."+g.Name()+"#")
}

// staticVal evaluates an initialiser expression (constants, composite literals).
func (m *Machine) staticVal(v ssa.Value, mem Mem, memo map[ssa.Value]*Val, path string) *Val {
	if x, ok := memo[v]; ok {
		return x
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constVal(v)
	case *ssa.Function:
		return leaf(m.fnTerm(v))
	case *ssa.Alloc:
		t := v.Type().Underlying().(*types.Pointer).Elem()
		a := leaf(rawApp("global", v.Type(), strTerm(path)))
		memo[v] = a
		m.zeroInit(mem, a, t)
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					if x := m.staticVal(r.Val, mem, memo, path+"*"); x != nil {
						m.store(mem, a, x, r.Val.Type())
					}
				}
			case *ssa.FieldAddr:
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == r {
						if x := m.staticVal(st.Val, mem, memo, fmt.Sprintf("%s.%d", path, r.Field)); x != nil {
							m.store(mem, m.fieldAddr(a, t, r.Field), x, st.Val.Type())
						}
					}
				}
			case *ssa.IndexAddr:
				at, ok := t.Underlying().(*types.Array)
				c, ok2 := r.Index.(*ssa.Const)
				if !ok || !ok2 {
					return nil
				}
				for _, s := range *r.Referrers() {
					if st, ok := s.(*ssa.Store); ok && st.Addr == r {
						if x := m.staticVal(st.Val, mem, memo, fmt.Sprintf("%s[%s]", path, c.Value)); x != nil {
							m.writeElem(mem, m.elemKey(at.Elem()), a, constVal(c), x)
						}
					}
				}
			}
		}
		return a
	case *ssa.Slice:
		x := m.staticVal(v.X, mem, memo, path+"[]")
		if x == nil || v.Low != nil || v.High != nil {
			return nil
		}
		at, ok := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok {
			return nil
		}
		return leaf(mkSlice(x.leaf, intTerm(0), intTerm(at.Len()), v.Type()))
	case *ssa.MakeMap:
		a := leaf(rawApp("global", v.Type(), strTerm(path)))
		key := m.mapKey(v.Type().Underlying().(*types.Map))
		m.write(mem, key, a, leaf(rawApp("emptymap", nil)))
		for _, r := range *v.Referrers() {
			if u, ok := r.(*ssa.MapUpdate); ok && u.Map == v {
				k, x := m.staticVal(u.Key, mem, memo, path+"#"+u.Key.String()), m.staticVal(u.Value, mem, memo, path+"@"+u.Key.String())
				if k == nil || x == nil {
					return nil
				}
				m.writeElem(mem, key, a, k, x)
			}
		}
		return a
	case *ssa.ChangeType:
		return m.staticVal(v.X, mem, memo, path)
	case *ssa.Convert:
		x := m.staticVal(v.X, mem, memo, path)
		if x == nil {
			return nil
		}
		return m.convert(x, v.X.Type(), v.Type())
	case *ssa.MakeInterface:
		x := m.staticVal(v.X, mem, memo, path)
		if x == nil {
			return nil
		}
		t := v.X.Type()
		return lift1(x, func(x *Term) *Val { return leaf(rawApp("iface:"+tkey(t), t, x)) })
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			switch f.String() {
			case "errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf":
				return vErr
			}
		}
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			return m.globalValue(g, mem)
		}
	}
	return nil
}

func (m *Machine) zeroInit(mem Mem, a *Val, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			m.zeroInit(mem, m.fieldAddr(a, t, i), u.Field(i).Type())
		}
	case *types.Array:
		m.write(mem, m.elemKey(u.Elem()), a, m.zeroOfKey(m.elemKey(u.Elem())))
	default:
		m.store(mem, a, zeroVal(t), t)
	}
}

/*** Opaque (contract) calls ***/

// effects are the memory keys that a function or its callees may write or read,
// found by a transitive scan of the SSA.
type effects struct {
	writes, reads map[string]bool
	typs          map[string]types.Type
	bad           string // why they are not known
}

func (e *effects) keys() (w, r []string) {
	for k := range e.writes {
		w = append(w, k)
	}
	for k := range e.reads {
		if !e.writes[k] {
			r = append(r, k)
		}
	}
	sort.Strings(w)
	sort.Strings(r)
	return
}

func (m *Machine) effects(fn *ssa.Function) *effects {
	if s, ok := m.effSets[fn]; ok {
		return s
	}
	e := &effects{writes: map[string]bool{}, reads: map[string]bool{}, typs: map[string]types.Type{}}
	m.effSets[fn] = e
	seen := map[*ssa.Function]bool{}
	note := func(set map[string]bool, k string) {
		set[k] = true
		e.typs[k] = m.keyTyp[k]
	}
	var cell func(set map[string]bool, addr ssa.Value, t types.Type)
	cell = func(set map[string]bool, addr ssa.Value, t types.Type) {
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				note(set, m.fieldKey(t, i))
			}
			return
		}
		switch a := addr.(type) {
		case *ssa.FieldAddr:
			note(set, m.fieldKey(a.X.Type().Underlying().(*types.Pointer).Elem(), a.Field))
		case *ssa.IndexAddr:
			note(set, m.elemKey(t))
		case *ssa.Alloc:
			if a.Heap {
				note(set, m.cellKey(t))
			}
		case *ssa.Global:
			note(set, m.cellKey(t))
		default:
			note(set, m.cellKey(t))
			// the pointer may be to a field or an element
			for _, k := range m.interior(t) {
				note(set, k)
			}
		}
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					cell(e.writes, in.Addr, in.Val.Type())
				case *ssa.UnOp:
					if in.Op == token.MUL {
						cell(e.reads, in.X, in.Type())
					}
				case *ssa.MapUpdate:
					note(e.writes, m.mapKey(in.Map.Type().Underlying().(*types.Map)))
				case *ssa.Lookup:
					if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
						note(e.reads, m.mapKey(mt))
					}
				case *ssa.Range:
					if mt, ok := in.X.Type().Underlying().(*types.Map); ok {
						note(e.reads, m.mapKey(mt))
					}
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						if len(c.Args) > 0 {
							switch t := c.Args[0].Type().Underlying().(type) {
							case *types.Map:
								set := e.reads
								if bi.Name() == "delete" || bi.Name() == "clear" {
									set = e.writes
								}
								note(set, m.mapKey(t))
							case *types.Slice:
								set := e.reads
								if bi.Name() == "copy" || bi.Name() == "clear" {
									set = e.writes
								}
								note(set, m.elemKey(t.Elem()))
							}
						}
						continue
					}
					s := c.StaticCallee()
					switch {
					case s == nil:
						// a callback: the closures made in the functions scanned
						if c.IsInvoke() || !callback(c.Value) || paramOf(c.Value) == fn {
							e.bad = "its effects are not known: " + in.String()
						}
						if phi, ok := c.Value.(*ssa.Phi); ok {
							for _, x := range phi.Edges {
								if f, ok := x.(*ssa.Function); ok {
									scan(f)
								}
							}
						}
					case inRepo(s):
						for _, a := range c.Args {
							if _, ok := a.Type().Underlying().(*types.Signature); ok && (!callback(a) || paramOf(a) == fn) {
								e.bad = "its callback is not known: " + in.String()
							}
							if f, ok := a.(*ssa.Function); ok {
								scan(f)
							}
						}
						scan(s)
					default:
						m.externEffects(s, e, note)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					scan(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	scan(fn)
	return e
}

// callback: a function value that is a literal or was passed down as an argument.
func callback(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeClosure, *ssa.Function, *ssa.Parameter:
		return true
	case *ssa.Phi:
		for _, e := range v.Edges {
			if _, again := e.(*ssa.Phi); again || !callback(e) {
				return false
			}
		}
		return true
	}
	return paramOf(v) != nil
}

// paramOf is the function whose parameter v is, directly or captured.
func paramOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.Parameter:
			return x.Parent()
		case *ssa.UnOp: // load of a captured variable that is only set on entry
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
		case *ssa.Alloc:
			var from ssa.Value
			for _, r := range *x.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == x {
					if from != nil {
						return nil
					}
					from = st.Val
				}
			}
			if from == nil {
				return nil
			}
			v = from
		case *ssa.FreeVar:
			f := x.Parent()
			i := -1
			for j, y := range f.FreeVars {
				if y == x {
					i = j
				}
			}
			var b ssa.Value
			for _, blk := range f.Parent().Blocks {
				for _, in := range blk.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						b = mc.Bindings[i]
					}
				}
			}
			if b == nil {
				return nil
			}
			v = b
		default:
			return nil
		}
	}
}

func (m *Machine) externEffects(s *ssa.Function, e *effects, note func(map[string]bool, string)) {
	name := s.String()
	if o := s.Origin(); o != nil && o != s {
		name = o.String()
	}
	switch {
	case strings.Contains(name, "workiva/go-datastructures/queue"):
		stateKey(m, kQueueOff, types.Typ[types.Bool])
		stateKey(m, kQueueCap, types.Typ[types.Int])
		stateKey(m, kQueue, nil)
		note(e.writes, kQueue)
		note(e.writes, kQueueCap)
		note(e.writes, kQueueOff)
	case strings.Contains(name, "gammazero/deque"):
		e.bad = "it uses a deque"
	case strings.Contains(name, "container/heap"):
		e.bad = "it uses container/heap"
	case strings.Contains(name, "math/rand"):
		stateKey(m, "rand", nil)
		note(e.writes, "rand")
	case strings.Contains(name, "errors.") || strings.HasPrefix(name, "(*sync.") || strings.HasPrefix(name, "math.") ||
		strings.HasPrefix(name, "strconv.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "fmt.") ||
		strings.Contains(name, "go-multierror"):
	default:
		e.bad = "it calls " + name
	}
}

// opaqueCall treats a call as an operation named name on its arguments and on
// the memory that it may touch; its own body is verified separately.
// interior lists the memories of the fields and elements of type t whose
// address is taken other than to load or store there.
func (m *Machine) interior(t types.Type) []string {
	if m.interiors == nil {
		m.interiors = map[string][]string{}
		for _, f := range repoFuncs(m.p) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					var k string
					switch in := in.(type) {
					case *ssa.FieldAddr:
						if escapes(in) {
							k = m.fieldKey(in.X.Type().Underlying().(*types.Pointer).Elem(), in.Field)
						}
					case *ssa.IndexAddr:
						if escapes(in) {
							k = m.elemKey(v.Type().Underlying().(*types.Pointer).Elem())
						}
					}
					if k == "" {
						continue
					}
					et := tkey(v.Type().Underlying().(*types.Pointer).Elem())
					if !slices.Contains(m.interiors[et], k) {
						m.interiors[et] = append(m.interiors[et], k)
					}
				}
			}
		}
	}
	return m.interiors[tkey(t)]
}

func escapes(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
		case *ssa.Store:
			if r.Val == v {
				return true
			}
		default:
			return true
		}
	}
	return false
}

// plainResult is a result that is what a field of a parameter holds.
type plainResult struct {
	param int
	key   string
}

// plainResults finds the results of fn that are plain on every return.
func (m *Machine) plainResults(fn *ssa.Function) []*plainResult {
	out := make([]*plainResult, fn.Signature.Results().Len())
	first := true
	for _, b := range fn.Blocks {
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for i, r := range ret.Results {
			var pr *plainResult
			if ld, ok := r.(*ssa.UnOp); ok && ld.Op == token.MUL {
				fa, ok := ld.X.(*ssa.FieldAddr)
				switch r.Type().Underlying().(type) {
				case *types.Struct, *types.Array:
					ok = false
				}
				if ok {
					for j, q := range fn.Params {
						if fa.X == q {
							st := q.Type().Underlying().(*types.Pointer).Elem()
							pr = &plainResult{j, m.fieldKey(st, fa.Field)}
						}
					}
				}
			}
			switch {
			case first:
				out[i] = pr
			case pr == nil || out[i] == nil || *pr != *out[i]:
				out[i] = nil
			}
		}
		first = false
	}
	return out
}

func (m *Machine) opaqueCall(fn *ssa.Function, name string, args []*Val, mem Mem) []*Val {
	eff := m.effects(fn)
	if eff.bad != "" {
		giveUp("%s: %s", name, eff.bad)
	}
	keys, reads := eff.keys()
	if x := m.peer[fn]; x != nil {
		// both programs' versions decide what may be touched
		for k := range x.writes {
			eff.writes[k] = true
		}
		for k := range x.reads {
			eff.reads[k] = true
		}
		for k, t := range x.typs {
			if m.keyTyp[k] == nil {
				m.keyTyp[k] = t
			}
		}
		keys, reads = eff.keys()
	}
	vs := append([]*Val{vNil}, args...)
	for _, k := range append(append([]string{}, keys...), reads...) {
		vs = append(vs, m.arr(mem, k))
	}
	sig := fn.Signature
	res := make([]*Val, sig.Results().Len())
	for i := range res {
		i := i
		t := sig.Results().At(i).Type()
		if pr := m.plain[fn]; i < len(pr) && pr[i] != nil && !eff.writes[pr[i].key] {
			m.keyTyp[pr[i].key] = t
			res[i] = m.read(mem, pr[i].key, args[pr[i].param])
			continue
		}
		res[i] = liftN(vs, func(ts []*Term) *Val {
			r := rawApp(fmt.Sprintf("op:%s.%d/%d", name, i, len(args)), t, ts[1:]...)
			if isBoolType(t) {
				return asBool(r)
			}
			return leaf(r)
		})
	}
	for _, k := range keys {
		k := k
		m.log(k, nil, nil)
		mem[k] = liftN(vs, func(ts []*Term) *Val {
			return leaf(rawApp(fmt.Sprintf("opmem:%s:%s/%d", name, k, len(args)), nil, ts[1:]...))
		})
	}
	return res
}

// fieldRename maps fields of the code to the reference's name for them.
var fieldRename = map[string]string{}

// structOrder is the order in which a struct's fields are kept in a term: by
// the reference's names, so that the order of declaration does not matter.
type structOrder struct {
	names []string // sorted
	pos   []int    // position of field i
}

var structOrders = map[types.Type]*structOrder{}

func fieldOrder(t types.Type) *structOrder {
	if o, ok := structOrders[t]; ok {
		return o
	}
	s := t.Underlying().(*types.Struct)
	o := &structOrder{pos: make([]int, s.NumFields())}
	at := map[string]int{}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if r, ok := fieldRename[typeName(t)+"."+n]; ok {
			n = r[strings.LastIndexByte(r, '.')+1:]
		}
		o.names = append(o.names, n)
		at[n] = i
	}
	sort.Strings(o.names)
	for p, n := range o.names {
		o.pos[at[n]] = p
	}
	structOrders[t] = o
	return o
}

func structTerm(t types.Type, fs []*Term) *Term {
	o := fieldOrder(t)
	args := make([]*Term, len(fs))
	for i, f := range fs {
		args[o.pos[i]] = f
	}
	return rawApp("struct", t, args...)
}
