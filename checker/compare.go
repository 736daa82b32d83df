package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Comparison of a function with its counterpart in the reference program: both
// are evaluated to value graphs over the same symbolic inputs and the same
// symbolic memory, and the graphs of the results, of every touched memory cell
// and of the panic condition must agree wherever the reference returns.

type fnOutcome struct {
	m      *Machine
	fn     *ssa.Function
	res    []*Val
	mem    Mem
	panics *Val
	from   int64 // objects made: from+1..to
	to     int64
}

// runFn evaluates fn on args from the symbolic initial memory.
func runFn(m *Machine, fn *ssa.Function, args []*Val) (out fnOutcome, err error) {
	valBase = valCount
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = u
				return
			}
			if os.Getenv("CHECKER_DEBUG") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	m.steps = 0
	m.started = time.Now()
	m.panicked = vFalse
	m.stack = nil
	m.loopIts = nil
	m.modlog = nil
	mem := Mem{}
	from := m.allocN
	res := m.call(fn, args, nil, mem)
	return fnOutcome{m, fn, res, mem, m.panicked, from, m.allocN}, nil
}

// paramSyms are the symbolic arguments of fn.
func paramSyms(fn *ssa.Function) []*Val {
	var out []*Val
	for i, p := range fn.Params {
		s := sym(fmt.Sprintf("arg%d", i), p.Type())
		if i == 0 && fn.Signature.Recv() != nil {
			nonNil[s] = true
		}
		out = append(out, leafOf(s))
	}
	return out
}

// mismatch is one difference between a function and its reference.
type mismatch struct {
	comp   string // "result 0", "memory core.sums", "panics"
	path   string
	impl   string
	spec   string
	unsure bool
	fails  bool        // where the reference returns an error
	judge  func() bool // computes unsure
	loopy  bool        // loops or calls not followed are involved
	ops    bool        // calls not followed are involved
}

func (d mismatch) String() string {
	s := fmt.Sprintf("%s: the code gives %s where the reference gives %s", d.comp, d.impl, d.spec)
	if d.path != "" {
		s += " when " + d.path
	}
	return s
}

type comparer struct {
	a, b      fnOutcome // code, reference
	ren       valSubst  // reference allocation symbol -> code allocation symbol
	used      map[*Term]bool
	care      *Val
	bound     [][2]*Term
	grew      bool
	depth     int
	skolems   int
	memo      map[[2]int]*Val
	skip      map[string]bool
	al        *alignment
	sureDepth int
	unifying  int
	disowned  map[*Term]bool // storage of slices that were replaced
	stop      time.Time
	ptrTests  bool // pointers are compared with each other
	spec      *ssa.Function
}

// compareFn compares impl (in machine mi) with spec (in machine ms).
func compareFn(mi, ms *Machine, impl, spec *ssa.Function, assume *Val, al *alignment) (diffs []mismatch, err error) {
	if len(impl.Params) != len(spec.Params) || impl.Signature.Results().Len() != spec.Signature.Results().Len() {
		return nil, fmt.Errorf("the signatures differ")
	}
	args := paramSyms(spec)
	a, err := runFn(mi, impl, args)
	if err != nil {
		return nil, fmt.Errorf("code: %v", err)
	}
	b, err := runFn(ms, spec, args)
	if err != nil {
		return nil, fmt.Errorf("reference: %v", err)
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(undecided); ok {
				err = u
				return
			}
			if os.Getenv("CHECKER_DEBUG") != "" {
				debug.PrintStack()
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	if al == nil {
		al = &alignment{}
	}
	if assume == nil {
		assume = vTrue
	}
	once := func(aligned bool, region func(c *comparer) *Val) ([]mismatch, error) {
		c := &comparer{a: a, b: b, ren: valSubst{}, used: map[*Term]bool{}, memo: map[[2]int]*Val{}, al: al, spec: spec, ptrTests: testsPointers(impl) || testsPointers(spec)}
		if aligned {
			c.align()
		}
		pb, beyond := c.renameV(b.panics), vFalse
		if mi.unroll > 0 {
			var ba, bb *Val
			c.a.panics, ba = splitBeyond(a.panics)
			pb, bb = splitBeyond(pb)
			beyond = orV(ba, bb)
		}
		c.care = andV(assume, notV(orV(pb, beyond)))
		if region != nil {
			c.care = andV(c.care, region(c))
		}
		return c.try()
	}
	diffs, err = once(false, nil)
	if len(diffs) == 0 && err == nil {
		return nil, nil
	}
	// objects made inside loops without a closed form are not matched by
	// following references: match them by order of creation
	if again, err2 := once(true, nil); len(again) == 0 && err2 == nil {
		return nil, nil
	} else if err != nil && err2 == nil {
		diffs, err = again, nil
	}
	// tell differences where the reference fails from those where it succeeds
	ei := -1
	for i := 0; i < spec.Signature.Results().Len(); i++ {
		if isErrorType(spec.Signature.Results().At(i).Type()) {
			ei = i
		}
	}
	if ei < 0 || err != nil {
		return judged(diffs), err
	}
	var out []mismatch
	for _, fails := range []bool{false, true} {
		ds, err := once(false, func(c *comparer) *Val {
			ok := lift1(c.renameV(b.res[ei]), isNil)
			if fails {
				return notV(ok)
			}
			return ok
		})
		if err != nil {
			return judged(diffs), nil
		}
		for _, d := range ds {
			d.fails = fails
			out = append(out, d)
		}
	}
	if len(out) == 0 {
		return judged(diffs), nil
	}
	return judged(out), nil
}

func (c *comparer) try() (ds []mismatch, err error) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(undecided)
			if !ok {
				panic(r)
			}
			err = u
		}
	}()
	return c.run(), nil
}

// align matches the objects that both sides make, type by type in the order in
// which they are made, for the types of which both make equally many.
func (c *comparer) align() {
	list := func(o fnOutcome) map[string][]*Term {
		out := map[string][]*Term{}
		for n := o.from + 1; n <= o.to; n++ {
			t := sym(fmt.Sprintf("A#%d", n), nil)
			out[allocTyps[t]] = append(out[allocTyps[t]], t)
		}
		return out
	}
	la, lb := list(c.a), list(c.b)
	for k, xs := range la {
		ys := lb[k]
		if len(xs) != len(ys) {
			continue
		}
		for i := range xs {
			c.ren[ys[i]] = leaf(xs[i])
			c.used[xs[i]] = true
			c.bound = append(c.bound, [2]*Term{xs[i], ys[i]})
		}
	}
}

func (c *comparer) run() []mismatch {
	var out []mismatch
	// results first, then memory, until no new objects are matched
	for round := 0; ; round++ {
		out = nil
		c.grew = false
		c.memo = map[[2]int]*Val{}
		for i := range c.a.res {
			rt := c.a.fn.Signature.Results().At(i).Type()
			out = append(out, c.diffs(fmt.Sprintf("result %d", i), c.a.res[i], c.b.res[i], rt)...)
		}
		out = append(out, c.memory()...)
		if !c.grew || round > 12 {
			break
		}
	}
	p := andV(c.care, c.a.panics)
	if p != vFalse {
		if d := c.enumerate("panics", c.a.panics, vFalse, func(x, y *Term) *Val { return boolVal(x == y) }); d != nil {
			out = append(out, d...)
		}
	}
	return out
}

func (c *comparer) renameV(v *Val) *Val { return substVal(v, c.ren) }

func (c *comparer) renameT(t *Term) *Term {
	v := substTV(t, c.ren)
	if v.leaf == nil {
		giveUp("renaming gives a condition")
	}
	return v.leaf
}

// diffs compares two values of the same component.
func (c *comparer) diffs(comp string, x, y *Val, typ types.Type) []mismatch {
	y = c.renameV(y)
	if x == y {
		return nil
	}
	return c.enumerate(comp, x, y, func(s, t *Term) *Val { return c.eq(s, t, typ) })
}

func (c *comparer) eq(x, y *Term, typ types.Type) *Val {
	if x == y {
		return vTrue
	}
	key := [2]int{x.id, y.id}
	if v, ok := c.memo[key]; ok && !c.grew {
		return v
	}
	c.depth++
	if c.depth > 60 {
		giveUp("comparison too deep")
	}
	v := c.eq1(x, y, typ)
	c.depth--
	c.memo[key] = v
	return v
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}

func isSliceTerm(t *Term) bool {
	if isSliceApp(t) {
		return true
	}
	if t.typ != nil {
		_, ok := t.typ.Underlying().(*types.Slice)
		return ok
	}
	return false
}

func sliceElem(ts ...*Term) types.Type {
	for _, t := range ts {
		if t.typ != nil {
			if s, ok := t.typ.Underlying().(*types.Slice); ok {
				return s.Elem()
			}
		}
	}
	return nil
}

func (c *comparer) eq1(x, y *Term, typ types.Type) *Val {
	if isErrorType(typ) {
		nx, ny := isNil(x), isNil(y)
		return ite(nx, ny, notV(ny))
	}
	if isAlloc(x) && isAlloc(y) && len(x.args) == len(y.args) {
		if x.args[0] == y.args[0] {
			r := vTrue
			for i := 1; i < len(x.args); i++ {
				r = andV(r, c.eq(x.args[i], y.args[i], nil))
			}
			return r
		}
		if c.bind(x, y) {
			return vTrue
		}
		return vFalse
	}
	if (isSliceTerm(x) || x == tNil) && (isSliceTerm(y) || y == tNil) && (isSliceApp(x) || isSliceApp(y)) {
		return c.eqSlice(x, y)
	}
	if x.op == "app" && y.op == "app" && x.aux == "closure" && y.aux == "closure" {
		return c.eqClosure(x, y)
	}
	if x.op == "app" && y.op == "app" && x.aux == y.aux && len(x.args) == len(y.args) && (strings.HasPrefix(x.aux, "op:") || strings.HasPrefix(x.aux, "opmem:")) {
		return c.eqOp(x, y)
	}
	if x.op == "app" && y.op == "app" && x.aux == y.aux && len(x.args) == len(y.args) {
		if x.aux == "vec" && typ == nil {
			typ = nil
		}
		r := vTrue
		for i := range x.args {
			var et types.Type
			if strings.HasPrefix(x.aux, "iface:") {
				et = x.typ
			}
			if r == vFalse {
				return r
			}
			r = andV(r, c.eq(x.args[i], y.args[i], et))
		}
		if r != vFalse {
			return r
		}
	}
	if x.op == "bind" && y.op == "bind" && x.aux == y.aux && len(x.args) == len(y.args) && len(x.vals) == len(y.vals) {
		r := vTrue
		for i := range x.args {
			r = andV(r, c.eq(x.args[i], y.args[i], nil))
		}
		bx, by := bindSyms[x], bindSyms[y]
		if r == vTrue && len(bx) == len(by) {
			s := valSubst{}
			same := true
			for i := range bx {
				if bx[i] != by[i] {
					s[by[i]] = leafOf(bx[i])
				}
			}
			for i := range x.vals {
				yv := y.vals[i]
				if len(s) > 0 {
					yv = substVal(yv, s)
				}
				if x.vals[i] == yv {
					continue
				}
				if len(c.enumerateWith(vTrue, "", x.vals[i], yv, func(p, q *Term) *Val { return c.eq(p, q, nil) }, 1)) > 0 {
					same = false
					if os.Getenv("DBGBODY") != "" {
						fmt.Println("BODY", i, c.enumerateWith(vTrue, "", x.vals[i], yv, func(p, q *Term) *Val { return c.eq(p, q, nil) }, 1))
					}
				}
			}
			if same {
				return vTrue
			}
		}
	}
	if isNumeric(x) && isNumeric(y) && (x.op == "num" || y.op == "num") && eqNum(x, y) {
		return vTrue
	}
	if isArrTerm(x) && isArrTerm(y) {
		return c.eqArr(x, y, nil, nil)
	}
	return vFalse
}

// eqOp compares two calls of the same function: its arguments, and the parts of
// the memory that can be reached.
func (c *comparer) eqOp(x, y *Term) *Val {
	n, _ := strconv.Atoi(x.aux[strings.LastIndexByte(x.aux, '/')+1:])
	r := vTrue
	for i := 0; i < n && r != vFalse; i++ {
		p, q := x.args[i], y.args[i]
		if isSliceApp(p) && isSliceApp(q) && isAlloc(p.args[0]) && isAlloc(q.args[0]) {
			// what it holds is compared as memory
			for j := range p.args {
				r = andV(r, c.eq(p.args[j], q.args[j], nil))
			}
			continue
		}
		r = andV(r, c.eq(p, q, nil))
	}
	for i := n; i < len(x.args) && r != vFalse; i++ {
		r = andV(r, c.eqMem(x.args[i], y.args[i]))
	}
	return r
}

func (c *comparer) eqMem(x, y *Term) *Val {
	y = c.renameT(y)
	if x == y {
		return vTrue
	}
	idx := map[*Term]bool{}
	c.touched(leaf(x), idx)
	c.touched(leaf(y), idx)
	for _, i := range sortedTerms(idx) {
		if !c.reachable(i) {
			continue
		}
		vx, vy := selectT(x, i, nil), selectT(y, i, nil)
		if vx == vy {
			continue
		}
		if len(c.enumerateWith(vTrue, "", vx, vy, func(p, q *Term) *Val { return c.eq(p, q, nil) }, 1)) > 0 {
			return vFalse
		}
	}
	rx, ry := c.rootOf(x), c.rootOf(y)
	if rx == ry {
		return vTrue
	}
	if rx.op == "app" && ry.op == "app" {
		return c.eq(rx, ry, nil)
	}
	return vFalse
}

func isArrTerm(t *Term) bool {
	if t.op == "app" {
		switch t.aux {
		case "store", "constarr", "emptymap", "acat", "shift", "delete":
			return true
		}
	}
	if t.op == "bind" && (t.aux == "amap" || t.aux == "fam") {
		return true
	}
	return t.op == "sym" && (strings.HasPrefix(t.aux, "M:elem:") || strings.HasPrefix(t.aux, "M:map:"))
}

// eqArr compares the contents of two arrays (or maps) below n (nil: everywhere).
func (c *comparer) eqArr(x, y *Term, n *Term, elem types.Type) *Val {
	if x == y {
		return vTrue
	}
	c.skolems++
	if c.skolems > 5000 {
		giveUp("too many array comparisons")
	}
	var j *Term
	isMap := n == nil
	care := vTrue
	if n != nil {
		if k := constOf(n); k != nil && k.IsInt() && k.Num().Int64() <= 16 {
			r := vTrue
			for i := int64(0); i < k.Num().Int64(); i++ {
				ii := intTerm(i)
				r = andV(r, lift2(selectT(x, ii, elem), selectT(y, ii, elem), func(p, q *Term) *Val { return c.eq(p, q, elem) }))
			}
			return r
		}
		j = freshSym("j", types.Typ[types.Int], true)
		care = cmpVal("<", j, n)
	} else {
		j = freshSym("key", nil, false)
	}
	bad := c.enumerateWith(care, "", selectT(x, j, elem), selectT(y, j, elem), func(p, q *Term) *Val { return c.eq(p, q, elem) }, 1)
	if len(bad) > 0 {
		return vFalse
	}
	if isMap && (isMapish(x) || isMapish(y)) {
		if len(c.enumerateWith(care, "", hasT(x, j), hasT(y, j), func(p, q *Term) *Val { return boolVal(p == q) }, 1)) > 0 {
			return vFalse
		}
	}
	return vTrue
}

func isMapish(t *Term) bool {
	for t.op == "app" && (t.aux == "store" || t.aux == "delete") || t.op == "bind" && (t.aux == "amap" || t.aux == "fam") {
		if t.aux == "delete" {
			return true
		}
		t = t.args[0]
	}
	return t.aux == "emptymap" || strings.HasPrefix(t.aux, "M:map:") || t.op == "app" && t.aux == "select" && strings.HasPrefix(t.args[0].aux, "M:map:")
}

func (c *comparer) eqSlice(x, y *Term) *Val {
	elem := sliceElem(x, y)
	if elem == nil {
		return vFalse
	}
	nx, ny := c.a.m.lenOf(leaf(x)), c.b.m.lenOf(leaf(y))
	sameLen := lift2(nx, ny, func(p, q *Term) *Val { return cmpVal("==", p, q) })
	if sameLen == vFalse {
		return vFalse
	}
	cx := c.a.m.content(c.a.mem, x, elem)
	cy := c.renameV(c.b.m.content(c.b.mem, y, elem))
	if _, ok := elem.Underlying().(*types.Struct); ok {
		giveUp("comparison of slices of structs")
	}
	same := liftN([]*Val{cx, cy, nx}, func(ts []*Term) *Val { return c.eqArr(ts[0], ts[1], ts[2], elem) })
	r := andV(sameLen, same)
	if r != vFalse {
		c.disown(x, y)
	}
	return r
}

// disown: one side gave a field new storage where the other wrote into the old;
// what is left in the old storage is no longer referred to.
func (c *comparer) disown(x, y *Term) {
	bx, by := sliceBase(x), sliceBase(y)
	for _, p := range [][2]*Term{{bx, by}, {by, bx}} {
		n, o := p[0], p[1]
		if !isAlloc(n) || c.disowned[o] || o.op != "app" || o.aux != "select" {
			continue
		}
		f := o.args[0].aux
		f = f[strings.LastIndexByte(f, '.')+1:]
		if o.args[0].op != "sym" || f == "" || f[0] < 'a' || f[0] > 'z' {
			continue
		}
		if c.disowned == nil {
			c.disowned = map[*Term]bool{}
		}
		c.disowned[o] = true
		c.grew = true
	}
}

func (c *comparer) bind(x, y *Term) bool {
	sx, sy := x.args[0], y.args[0]
	if c.used[sx] || c.ren[sy] != nil || c.used[sy] {
		return false
	}
	// a common symbol is not an allocation of the reference
	if allocNums[sy] < refAllocBase || allocNums[sx] >= refAllocBase {
		return false
	}
	c.ren[sy] = leaf(sx)
	c.used[sx] = true
	c.bound = append(c.bound, [2]*Term{sx, sy})
	c.grew = true
	return true
}

const refAllocBase = 1000000

func (c *comparer) eqClosure(x, y *Term) *Val {
	fx, bx := c.a.m.fnOf(x)
	fy, by := c.a.m.fnOf(y)
	if fx == nil || fy == nil {
		return vFalse
	}
	if fx == fy && len(bx) == len(by) {
		r := vTrue
		for i := range bx {
			r = andV(r, c.eq(bx[i], by[i], nil))
		}
		return r
	}
	if fx.Signature.Params().Len() != fy.Signature.Params().Len() || fx.Signature.Results().Len() != fy.Signature.Results().Len() {
		return vFalse
	}
	if c.depth > 20 {
		giveUp("closures nested too deep")
	}
	var args []*Val
	for i := 0; i < fx.Signature.Params().Len(); i++ {
		args = append(args, leafOf(freshSym("carg", fx.Signature.Params().At(i).Type(), false)))
	}
	call := func(o fnOutcome, fn *ssa.Function, bs []*Term) (r fnOutcome) {
		mem := o.mem.clone()
		save := o.m.panicked
		o.m.panicked = vFalse
		free := make([]*Val, len(bs))
		for i, b := range bs {
			free[i] = leafB(b)
		}
		res := o.m.callFn(fn, args, free, mem)
		r = fnOutcome{m: o.m, fn: fn, res: res, mem: mem, panics: o.m.panicked}
		o.m.panicked = save
		return r
	}
	// the reference closure's bindings were renamed: rename its memory too
	b := c.b
	b.mem = b.mem.clone()
	for k, v := range b.mem {
		b.mem[k] = c.renameV(v)
	}
	ra := call(c.a, fx, bx)
	rb := call(b, fy, by)
	sub := &comparer{a: ra, b: rb, ren: valSubst{}, used: map[*Term]bool{}, memo: map[[2]int]*Val{}, depth: c.depth + 5, skolems: c.skolems, al: c.al, spec: c.spec, ptrTests: c.ptrTests}
	for k, v := range c.ren {
		sub.ren[k] = v
	}
	for k := range c.used {
		sub.used[k] = true
	}
	sub.bound = append(sub.bound, c.bound...)
	sub.care = notV(rb.panics)
	// what the call leaves as it was is compared by the caller
	sub.skip = map[string]bool{}
	for k, v := range ra.mem {
		if c.a.mem[k] == v && b.mem[k] == rb.mem[k] && b.mem[k] != nil {
			sub.skip[k] = true
		}
	}
	if ds := sub.run(); len(ds) > 0 {
		return vFalse
	}
	return vTrue
}

// memory compares every cell that either side may have written.
func (c *comparer) memory() []mismatch {
	keys := map[string]bool{}
	for k := range c.a.mem {
		keys[k] = true
	}
	for k := range c.b.mem {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []mismatch
	for _, k := range ks {
		if c.skip[k] || c.al.unknown[sym("M:"+k, nil)] {
			continue
		}
		x := c.a.m.arr(c.a.mem, k)
		y := c.renameV(c.b.m.arr(c.b.mem, k))
		if x == y || len(c.enumerate("", x, y, func(p, q *Term) *Val { return boolVal(p == q) })) == 0 {
			continue
		}
		typ := c.a.m.keyTyp[k]
		if typ == nil {
			typ = c.b.m.keyTyp[k]
		}
		if isContentKey(k) {
			typ = nil
		}
		idx := map[*Term]bool{}
		c.touched(x, idx)
		c.touched(y, idx)
		for _, i := range sortedTerms(idx) {
			if !c.reachable(i) || c.disowned[i] {
				continue
			}
			vx := lift1(x, func(t *Term) *Val { return selectT(t, i, typ) })
			vy := lift1(y, func(t *Term) *Val { return selectT(t, i, typ) })
			if vx == vy {
				continue
			}
			care := vTrue
			if strings.HasPrefix(k, kQueue) && k != kQueueOff {
				// what is in a disposed queue cannot be observed
				off := c.b.m.read(c.b.mem, kQueueOff, leaf(i))
				care = notV(boolize(c.renameV(off)))
			}
			care = andV(care, c.held(i))
			f := func(p, q *Term) *Val {
				if isContentKey(k) {
					return c.eqArr(p, q, nil, c.a.m.keyTyp[k])
				}
				return c.eq(p, q, typ)
			}
			out = append(out, c.enumerateWith(andV(c.care, care), "memory "+k+" of "+i.String(), vx, vy, f, 3)...)
		}
		// the same initial array must be below the changes
		out = append(out, c.enumerateWith(c.care, "memory "+k, x, y, func(p, q *Term) *Val {
			rp, rq := c.rootOf(p), c.rootOf(q)
			if rp == rq || (isOp(rp) && isOp(rq) || loopAux(rp) && loopAux(rq)) && c.eq(rp, rq, nil) == vTrue {
				return vTrue
			}
			return vFalse
		}, 1)...)
	}
	return out
}

// rootOf is what the stores of an array are made on.
func (c *comparer) rootOf(t *Term) *Term {
	for {
		switch {
		case t.op == "app" && t.aux == "store":
			t = t.args[0]
		case t.op == "bind" && t.aux == "fam" && !c.reachable(t.vals[0].leaf):
			t = t.args[0]
		default:
			return t
		}
	}
}

func (c *comparer) touched(v *Val, idx map[*Term]bool) {
	for _, t := range leavesOf(v) {
		for {
			if t.op == "app" && t.aux == "store" {
				idx[t.args[1]] = true
				t = t.args[0]
			} else if t.op == "bind" && t.aux == "fam" && !c.reachable(t.vals[0].leaf) {
				t = t.args[0]
			} else {
				break
			}
		}
	}
}

// held is the condition under which something refers to the new object: where
// only results do, it cannot be seen unless it is returned.
func (c *comparer) held(i *Term) *Val {
	if i.op != "app" || i.aux != "alloc" || len(i.args) != 1 {
		return vTrue
	}
	s := i.args[0]
	for _, side := range []*fnOutcome{&c.a, &c.b} {
		for k := range side.mem {
			v := side.m.arr(side.mem, k)
			if side == &c.b {
				v = c.renameV(v)
			}
			for _, t := range leavesOf(v) {
				for t.op == "app" && t.aux == "store" {
					if t.args[1] != i && t.args[1].syms[s] || t.args[2].syms[s] {
						return vTrue
					}
					t = t.args[0]
				}
				if t.syms[s] {
					return vTrue
				}
			}
		}
	}
	r := vFalse
	for _, side := range []*fnOutcome{&c.a, &c.b} {
		for _, v := range side.res {
			if side == &c.b {
				v = c.renameV(v)
			}
			r = orV(r, lift1(v, func(t *Term) *Val { return boolVal(t.syms[s]) }))
		}
	}
	return r
}

// reachable: an object that no result or shared cell refers to cannot be seen.
func (c *comparer) reachable(i *Term) bool {
	ok := true
	for s := range i.syms {
		if n, is := allocNums[s]; is {
			if n >= refAllocBase || !c.used[s] {
				ok = false
			}
		}
	}
	return ok
}

func sortedTerms(m map[*Term]bool) []*Term {
	var ts []*Term
	for t := range m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

/*** Walking the differences ***/

func (c *comparer) enumerate(comp string, x, y *Val, eq func(s, t *Term) *Val) []mismatch {
	return c.enumerateWith(c.care, comp, x, y, eq, 3)
}

// cons is a path condition: subject between two bounds (nil: open).
type cons struct {
	s      *Subj
	lo, hi *Bound
}

// unify replaces decisions of the code, on loops or calls that were not
// followed, by those of the reference that are equal to them.
func (c *comparer) unify(care, x, y *Val) *Val {
	if x.leaf != nil || y.leaf != nil || c.unifying > 2 {
		return x
	}
	sx, sy := map[*Term]bool{}, map[*Term]bool{}
	subjectsOf(x, sx, map[*Val]bool{})
	subjectsOf(y, sy, map[*Val]bool{})
	subjectsOf(care, sy, map[*Val]bool{})
	s := valSubst{}
	c.unifying++
	for _, p := range sortedTerms(sx) {
		if sy[p] || !loopish(p) {
			continue
		}
		for _, q := range sortedTerms(sy) {
			if p.op == q.op && p.aux == q.aux && len(p.args) == len(q.args) && loopish(q) && c.eq(p, q, nil) == vTrue {
				s[p] = leaf(q)
				break
			}
		}
	}
	c.unifying--
	if len(s) == 0 {
		return x
	}
	return substVal(x, s)
}

// enumerateWith lists up to max differences between x and y where care holds:
// it walks the decisions of the three graphs together.
func (c *comparer) enumerateWith(care *Val, comp string, x, y *Val, eq func(s, t *Term) *Val, max int) []mismatch {
	var out []mismatch
	clean := map[[3]int]bool{}
	care = boolize(care)
	x = c.unify(care, x, y)
	x0, y0, care0 := x, y, boolize(care)
	unsureCond := false
	steps := 0
	var walk func(care, x, y *Val, path []cons) bool // true: no difference below
	walk = func(care, x, y *Val, path []cons) bool {
		if x == y || care == vFalse || len(out) >= max {
			return true
		}
		key := [3]int{care.id, x.id, y.id}
		if clean[key] {
			return true
		}
		steps++
		checkDeadline()
		if steps > 60000 {
			giveUp("too many differing paths")
		}
		s := topOf(care, x, y)
		if s == nil {
			e := eq(x.leaf, y.leaf)
			if e == vTrue {
				clean[key] = true
				return true
			}
			if e != vFalse {
				// equal under a condition
				save := unsureCond
				unsureCond = unsureCond || loopishV(e)
				r := walk(care, e, vTrue, path) && len(out) == 0
				unsureCond = save
				return r
			}
			if !feasible(path) || contradictory(path) || c.againstSizes(path) {
				return false
			}
			px, py := c.lone(path, pinned(path, x)), c.lone(path, pinned(path, y))
			if px == py {
				return false
			}
			if px.leaf != nil && py.leaf != nil && (px != x || py != y) && eq(px.leaf, py.leaf) == vTrue {
				return false
			}
			if forcedEqual(path, x.leaf, y.leaf) {
				return false
			}
			out = append(out, mismatch{comp: comp, path: pathString(path), impl: clip(x.leaf.String()), spec: clip(y.leaf.String()), judge: c.judge(unsureCond || comp == "panics" && ownOp(path, x0, care0), care0, x0, y0, x.leaf, y.leaf, path), loopy: anyAt(loopish, x.leaf, y.leaf, path), ops: anyAt(hasOp, x.leaf, y.leaf, path)})
			return false
		}
		bs, hasNan := unionBounds(s, care, x, y)
		cc, cx, cy := cofs(care, s, bs), cofs(x, s, bs), cofs(y, s, bs)
		ok := true
		for i := range cc {
			if cx[i] == cy[i] || cc[i] == vFalse {
				continue
			}
			k := cons{s: s}
			if i > 0 {
				b := bs[i-1]
				k.lo = &b
			}
			if i < len(bs) {
				b := bs[i]
				k.hi = &b
			}
			np := append(append([]cons{}, path...), k)
			if !walk(cc[i], cx[i], cy[i], np) {
				ok = false
			}
		}
		if hasNan {
			if !walk(cofNan(care, s), cofNan(x, s), cofNan(y, s), append(append([]cons{}, path...), cons{s: s})) {
				ok = false
			}
		}
		if ok {
			clean[key] = true
		}
		return ok
	}
	walk(boolize(care), x, y, nil)
	return out
}

func clip(s string) string {
	if len(s) > clipN {
		return s[:clipN] + "…"
	}
	return s
}

// usesUnknown: the code's side depends on state that the reference does not have.
func (c *comparer) usesUnknown(t *Term, path []cons) bool {
	if len(c.al.unknown) == 0 {
		return false
	}
	for s := range t.syms {
		if c.al.unknown[s] {
			return true
		}
	}
	for _, k := range path {
		for s := range k.s.t.syms {
			if c.al.unknown[s] {
				return true
			}
		}
	}
	return false
}

// unsureAlloc: objects made inside such a loop, which are not matched.
func unsureAlloc(t *Term) bool {
	for _, x := range collectTerms(leaf(t)) {
		if x.op == "bind" && (strings.HasPrefix(x.aux, "fold") || strings.HasPrefix(x.aux, "while") || x.aux == "looppanic") {
			for s := range x.syms {
				if _, ok := allocNums[s]; ok {
					return true
				}
			}
		}
	}
	return false
}

func pathString(path []cons) string {
	var ps []string
	for _, k := range path {
		t := k.s.t.String()
		boolean := k.s.min != nil && k.s.max != nil && k.s.min.Sign() == 0 && k.s.max.Cmp(rOne) == 0
		switch {
		case k.lo == nil && k.hi == nil:
			ps = append(ps, t+" is NaN")
		case boolean && k.lo != nil:
			ps = append(ps, t)
		case boolean:
			ps = append(ps, "not "+t)
		default:
			v := mkNodeRegion(k)
			ps = append(ps, v)
		}
	}
	return clip(strings.Join(ps, " and "))
}

func mkNodeRegion(k cons) string {
	t := k.s.t.String()
	if k.lo != nil && k.hi != nil && (k.hi.c.Cmp(k.lo.c) == 0 || k.s.isInt && new(big.Rat).Sub(k.hi.c, k.lo.c).Cmp(rOne) == 0) {
		return t + " == " + k.lo.c.RatString()
	}
	s := t
	if k.lo != nil {
		op := " <= "
		if k.lo.after {
			op = " < "
		}
		s = k.lo.c.RatString() + op + s
	}
	if k.hi != nil {
		op := " < "
		if k.hi.after {
			op = " <= "
		}
		s += op + k.hi.c.RatString()
	}
	return s
}

/*** Linear reasoning about a path ***/

// linear is sum(coef*atom) + k >= 0 (strict: > 0).
type linear struct {
	c      map[string]*big.Rat
	k      *big.Rat
	strict bool
}

func linOf(t *Term, sign int64) linear {
	l := linear{c: map[string]*big.Rat{}, k: new(big.Rat)}
	sg := big.NewRat(sign, 1)
	for key, m := range toPoly(t).m {
		v := new(big.Rat).Mul(m.coef, sg)
		if key == "" {
			l.k.Add(l.k, v)
		} else {
			l.c[key] = v
		}
	}
	return l
}

// feasible reports whether the path's decisions are consistent as linear
// constraints over the terms that occur in them (false only when they are not).
func feasible(path []cons) bool { return feasibleWith(path, nil) }

func feasibleWith(path []cons, ls []linear) bool {
	atoms := map[string]*mono{}
	for _, k := range path {
		if k.lo == nil && k.hi == nil {
			continue
		}
		for key, m := range toPoly(k.s.t).m {
			atoms[key] = m
		}
		if k.lo != nil {
			l := linOf(k.s.t, 1)
			l.k.Sub(l.k, k.lo.c)
			l.strict = k.lo.after
			ls = append(ls, l)
		}
		if k.hi != nil {
			l := linOf(k.s.t, -1)
			c := new(big.Rat).Set(k.hi.c)
			strict := !k.hi.after
			if k.s.isInt && strict {
				c.Sub(c, rOne)
				strict = false
			}
			l.k.Add(l.k, c)
			l.strict = strict
			ls = append(ls, l)
		}
	}
	for key, m := range atoms {
		nn := key != ""
		for _, f := range m.fs {
			if !f.atom.nn {
				nn = false
			}
		}
		if nn {
			ls = append(ls, linear{c: map[string]*big.Rat{key: big.NewRat(1, 1)}, k: new(big.Rat)})
		}
	}
	return !fmInfeasible(ls)
}

func fmInfeasible(ls []linear) bool {
	for round := 0; round < 12; round++ {
		// ground constraints
		var rest []linear
		for _, l := range ls {
			if len(l.c) == 0 {
				if l.k.Sign() < 0 || l.strict && l.k.Sign() == 0 {
					return true
				}
				continue
			}
			rest = append(rest, l)
		}
		ls = rest
		if len(ls) == 0 {
			return false
		}
		// eliminate the variable with the fewest products
		cnt := map[string][2]int{}
		for _, l := range ls {
			for v, c := range l.c {
				n := cnt[v]
				if c.Sign() > 0 {
					n[0]++
				} else {
					n[1]++
				}
				cnt[v] = n
			}
		}
		best, bv := -1, ""
		for v, n := range cnt {
			p := n[0] * n[1]
			if best < 0 || p < best || p == best && v < bv {
				best, bv = p, v
			}
		}
		if best > 400 {
			return false
		}
		var pos, neg, next []linear
		for _, l := range ls {
			c := l.c[bv]
			switch {
			case c == nil:
				next = append(next, l)
			case c.Sign() > 0:
				pos = append(pos, l)
			default:
				neg = append(neg, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := new(big.Rat).Neg(n.c[bv]), p.c[bv]
				r := linear{c: map[string]*big.Rat{}, k: new(big.Rat), strict: p.strict || n.strict}
				for v, c := range p.c {
					r.c[v] = new(big.Rat).Mul(c, a)
				}
				for v, c := range n.c {
					x := new(big.Rat).Mul(c, b)
					if o, ok := r.c[v]; ok {
						x.Add(x, o)
					}
					r.c[v] = x
				}
				for v, c := range r.c {
					if c.Sign() == 0 {
						delete(r.c, v)
					}
				}
				r.k.Add(new(big.Rat).Mul(p.k, a), new(big.Rat).Mul(n.k, b))
				next = append(next, r)
			}
		}
		if len(next) > 600 {
			return false
		}
		ls = next
	}
	return false
}

// pinned replaces in v what the path fixes to a single value.
func pinned(path []cons, v *Val) *Val {
	s := pins(path)
	if len(s) == 0 {
		return v
	}
	for i := 0; i < 3; i++ {
		n := substVal(v, s)
		if n == v {
			break
		}
		v = n
	}
	return v
}

// holds is the condition that a subject lies in its range.
func (k cons) holds() *Val {
	if k.lo == nil && k.hi == nil {
		return vTrue
	}
	var bs []Bound
	var kids []*Val
	if k.lo != nil {
		bs, kids = append(bs, *k.lo), append(kids, vFalse)
	}
	kids = append(kids, vTrue)
	if k.hi != nil {
		bs, kids = append(bs, *k.hi), append(kids, vFalse)
	}
	return mkNode(k.s, bs, kids, nil)
}

// contradictory reports whether the equalities on the path refute it.
func contradictory(path []cons) bool {
	if againstBlackHeight(path) {
		return true
	}
	all := vTrue
	for _, k := range path {
		all = andV(all, pinned(path, k.holds()))
		if all == vFalse {
			return true
		}
	}
	return false
}

// ownOp: the path has a decision of the code alone on what a call that was not
// followed left, which may be one that the call rules out.
func ownOp(path []cons, x, care *Val) bool {
	sx, sc := map[*Term]bool{}, map[*Term]bool{}
	subjectsOf(x, sx, map[*Val]bool{})
	subjectsOf(care, sc, map[*Val]bool{})
	for _, k := range path {
		if t := k.s.t; sx[t] && !sc[t] && hasOp(t) {
			return true
		}
	}
	return false
}

// againstBlackHeight: a node of a red black tree has, when a function starts,
// children of the same black height, so that a black one is not alone.
func againstBlackHeight(path []cons) bool {
	const node = "M:quantile/ost/rb.Node."
	link := func(t *Term) (string, *Term) { // the side and the node it is a child of
		if t.op == "app" && t.aux == "select" && len(t.args) == 2 && t.args[0].op == "sym" {
			switch t.args[0].aux {
			case node + "left", node + "right":
				return t.args[0].aux, t.args[1]
			}
		}
		return "", nil
	}
	none, some, black := map[*Term]string{}, map[*Term]bool{}, map[*Term]bool{}
	for _, k := range path {
		t := k.s.t
		switch {
		case t.op == "app" && t.aux == "isnil":
			if side, of := link(t.args[0]); side != "" {
				if k.lo != nil {
					none[of] = side
				} else {
					some[t.args[0]] = true
				}
			}
		case t.op == "app" && t.aux == "select" && len(t.args) == 2 && t.args[0].op == "sym" && t.args[0].aux == node+"color" && k.lo == nil && k.hi != nil:
			black[t.args[1]] = true
		}
	}
	for c := range black {
		if side, of := link(c); side != "" && some[c] && none[of] != "" && none[of] != side {
			return true
		}
	}
	return false
}

// againstSizes: where an operation on a tree starts, every node has the size of
// its subtree, and in an AVL tree its height, so that decisions against these
// are never taken. (What restores the balance starts on stale nodes.)
func (c *comparer) againstSizes(path []cons) bool {
	switch c.spec.Name() {
	case "add", "remove", "removeMin", "min", "contains", "Select", "Rank", "String", "TreeString":
	default:
		return false
	}
	read := func(t *Term) (pre, field string, of *Term) {
		if t.op == "app" && t.aux == "select" && len(t.args) == 2 && t.args[0].op == "sym" && strings.HasPrefix(t.args[0].aux, "M:quantile/ost/") {
			if i := strings.LastIndexByte(t.args[0].aux, '.'); strings.HasSuffix(t.args[0].aux[:i], ".Node") {
				return t.args[0].aux[:i+1], t.args[0].aux[i+1:], t.args[1]
			}
		}
		return "", "", nil
	}
	isNone, nodes, syms := map[*Term]bool{}, map[*Term]bool{}, map[string]*Term{}
	links := map[*Term]map[string]*Term{} // the children that are decided on
	for _, k := range path {
		for _, t := range collectTerms(leaf(k.s.t)) {
			pre, field, of := read(t)
			if of == nil {
				continue
			}
			syms[pre+field] = t
			switch field {
			case "size", "height":
				nodes[of] = true
			case "left", "right":
				if links[of] == nil {
					links[of] = map[string]*Term{}
				}
				links[of][field] = t
			}
		}
		if k.s.t.op == "app" && k.s.t.aux == "isnil" && (k.lo != nil) != (k.hi != nil) {
			isNone[k.s.t.args[0]] = k.lo != nil
		}
	}
	var ls []linear
	atLeast := func(t *Term, n int64) { // t >= n
		l := linOf(t, 1)
		l.k.Sub(l.k, big.NewRat(n, 1))
		ls = append(ls, l)
	}
	for _, like := range syms {
		pre, field, _ := read(like)
		if field != "size" && field != "height" {
			continue
		}
		at := func(n *Term) *Term { return rawApp("select", like.typ, like.args[0], n) }
		some := func(n *Term) bool {
			none, known := isNone[n]
			return known && !none || !known && n.op == "sym" && n.aux == "arg0"
		}
		own := func(n *Term) bool {
			if n.op == "sym" {
				return true
			}
			p, f, _ := read(n)
			return p == pre && (f == "left" || f == "right")
		}
		for n := range nodes {
			if some(n) && own(n) {
				atLeast(at(n), 1)
			}
		}
		for n, kids := range links {
			if !own(n) || !some(n) {
				continue
			}
			sum, known, tallest := intTerm(1), 0, (*Term)(nil)
			for _, k := range []string{"left", "right"} {
				kid := kids[k]
				if kid == nil {
					continue
				}
				switch none, ok := isNone[kid]; {
				case ok && none:
					known++
				case ok:
					known++
					atLeast(at(kid), 1)
					sum, tallest = addT(sum, at(kid)), at(kid)
					if field == "height" {
						atLeast(subT(at(n), at(kid)), 1)
					}
				}
			}
			switch {
			case field == "size":
				atLeast(subT(at(n), sum), 0)
				if known == 2 {
					atLeast(subT(sum, at(n)), 0)
				}
			case known == 2 && tallest == nil:
				atLeast(negT(at(n)), -1)
			}
		}
	}
	return len(ls) > 0 && !feasibleWith(path, ls)
}

// lone: where the least of a red black tree is removed, a node without a left
// child has no right one either: a red one would lean right, a black one would
// be alone.
func (c *comparer) lone(path []cons, v *Val) *Val {
	if c.spec.Name() != "removeMin" || v.leaf == nil || v.leaf.op != "app" || v.leaf.aux != "select" || len(v.leaf.args) != 2 {
		return v
	}
	const node = "M:quantile/ost/rb.Node."
	if m := v.leaf.args[0]; m.op != "sym" || m.aux != node+"right" {
		return v
	}
	for _, k := range path {
		if t := k.s.t; t.op == "app" && t.aux == "isnil" && k.lo != nil && k.hi == nil {
			l := t.args[0]
			if l.op == "app" && l.aux == "select" && len(l.args) == 2 && l.args[0].op == "sym" && l.args[0].aux == node+"left" && l.args[1] == v.leaf.args[1] {
				return vNil
			}
		}
	}
	return v
}

// forcedEqual reports whether the inequalities on a path leave two numbers no
// room to differ.
func forcedEqual(path []cons, x, y *Term) bool {
	if !isNumTerm(x) || !isNumTerm(y) {
		return false
	}
	d := subT(x, y)
	if constOf(d) != nil {
		return false
	}
	s := subject(d)
	zero := new(big.Rat)
	below := cons{s: s, hi: &Bound{zero, false}}
	above := cons{s: s, lo: &Bound{zero, true}}
	with := func(k cons) []cons { return append(append([]cons{}, path...), k) }
	return !feasible(with(below)) && !feasible(with(above))
}

func isNumTerm(t *Term) bool {
	if t.op == "num" || t.isInt {
		return true
	}
	b, ok := typeOf(t).(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func typeOf(t *Term) types.Type {
	if t.typ == nil {
		return nil
	}
	return t.typ.Underlying()
}

// pins are the equalities on a path.
func pins(path []cons) valSubst {
	s := valSubst{}
	for _, k := range path {
		if k.s.t.op == "app" && k.s.t.aux == "is:ptreq" && k.lo != nil {
			p, q := k.s.t.args[0], k.s.t.args[1]
			if q.op == "sym" {
				s[q] = leaf(p)
			} else if p.op == "sym" {
				s[p] = leaf(q)
			}
			continue
		}
		if k.s.t.op == "app" && k.s.t.aux == "isnil" && k.lo != nil {
			if x := k.s.t.args[0]; x.op == "app" && x.aux == "select" {
				s[x] = leaf(tNil)
			}
			continue
		}
		if isBoolSubj(k.s) && (k.lo == nil) != (k.hi == nil) && (k.s.t.op == "sym" || k.s.t.op == "app" && k.s.t.aux == "select") {
			s[k.s.t] = boolVal(k.lo != nil)
			continue
		}
		if k.lo == nil && k.hi != nil && k.s.isInt && k.s.min != nil {
			k.lo = &Bound{k.s.min, false}
			if !k.hi.after && new(big.Rat).Sub(k.hi.c, k.lo.c).Cmp(rOne) != 0 || k.hi.after && k.hi.c.Cmp(k.lo.c) != 0 {
				continue
			}
		}
		if k.lo == nil || k.hi == nil {
			continue
		}
		eq := k.hi.c.Cmp(k.lo.c) == 0 || k.s.isInt && new(big.Rat).Sub(k.hi.c, k.lo.c).Cmp(rOne) == 0
		if !eq || isBoolSubj(k.s) {
			continue
		}
		// solve for an atom that occurs linearly
		t := k.s.t
		if len(s) > 0 {
			v := substVal(leaf(t), s)
			if v.leaf == nil {
				continue
			}
			t = v.leaf
		}
		p := toPoly(t)
		var best *fac
		var coef *big.Rat
		for _, mk := range p.keys() {
			m := p.m[mk]
			if len(m.fs) == 1 && m.fs[0].exp.Cmp(rOne) == 0 {
				f := m.fs[0]
				if best == nil || f.atom.op == "sym" && best.atom.op != "sym" {
					if coefOf(t, f.atom) != nil {
						best, coef = &f, m.coef
					}
				}
			}
		}
		if best == nil {
			continue
		}
		rest := subT(t, scaleT(best.atom, coef))
		val := scaleT(subT(ratTerm(k.lo.c), rest), new(big.Rat).Inv(coef))
		if _, ok := s[best.atom]; !ok {
			s[best.atom] = leaf(val)
		}
	}
	return s
}

func isBoolSubj(s *Subj) bool {
	return s.min != nil && s.max != nil && s.min.Sign() == 0 && s.max.Cmp(rOne) == 0
}

func replaceAtom(t, a, r *Term) *Term {
	if t == a {
		return r
	}
	if t.op == "num" {
		out := intTerm(0)
		for _, k := range t.poly.keys() {
			m := t.poly.m[k]
			x := ratTerm(m.coef)
			for _, f := range m.fs {
				if f.atom == a {
					x = mulT(x, expT(r, f.exp))
				} else {
					x = mulT(x, expT(f.atom, f.exp))
				}
			}
			out = addT(out, x)
		}
		return out
	}
	return t
}

var clipN = func() int {
	if os.Getenv("NOCLIP") != "" {
		return 1 << 30
	}
	return 300
}()
