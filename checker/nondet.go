package main

// nondet.go: results depend only on the values pushed (P27).
//
//   - no-ambient-source: which exported entry points reach a source of values
//     that differ from run to run (clock, global random source, environment,
//     pointer formatting);
//   - map-order: what a loop over a map does in the order of its iteration;
//   - schedule-order: what goroutines do in the order in which they finish.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ambient reports whether a call yields a value that differs between runs.
func ambient(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return ""
	}
	path := ""
	if f.Object() != nil && f.Object().Pkg() != nil {
		path = f.Object().Pkg().Path()
	} else if f.Pkg != nil {
		path = f.Pkg.Pkg.Path()
	}
	name := f.Name()
	switch path {
	case "time":
		switch name {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker":
			return "time." + name
		}
	case "math/rand", "math/rand/v2":
		if f.Signature.Recv() != nil {
			return "rand.Rand." + name
		}
		switch name {
		case "New", "NewSource", "NewPCG", "NewChaCha8":
			return ""
		}
		return "rand." + name
	case "crypto/rand", "hash/maphash":
		return path + "." + name
	case "os":
		switch name {
		case "Getenv", "LookupEnv", "Getpid", "Hostname", "Environ":
			return "os." + name
		}
	case "runtime":
		switch name {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "ReadMemStats":
			return "runtime." + name
		}
	}
	return ""
}

// randomByDesign: the entry points whose outcome may use a random source.
func randomByDesign(fn *ssa.Function) bool {
	n := fnName(fn)
	switch {
	case strings.HasPrefix(n, "(*sample.Reservoir).Push"):
		return true
	case strings.HasSuffix(n, ".Push") || strings.HasSuffix(n, ".Add"):
		// the level of a skip list node, reached by adding a value
		return true
	}
	// options and constructors make the skip list's level source
	return fn.Signature.Recv() == nil
}

// randomHolder: the functions that may draw are those of the two packages that
// document it.
func randomHolder(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && (relPkg(fn.Pkg.Pkg.Path()) == "sample" || relPkg(fn.Pkg.Pkg.Path()) == "quantile/skiplist")
}

func analyseNondet(p *Program, res *Result, _ string) {
	cg := newCallees(p)
	for _, fn := range allExported(p) {
		seen := map[*ssa.Function]bool{}
		bad := false
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			if seen[f] || !inRepo(f) {
				return
			}
			seen[f] = true
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if src := ambient(c.Common()); src != "" {
							if v, isV := in.(ssa.Value); isV && !valueUsed(v) {
								continue
							}
							if !randomHolder(f) || !randomByDesign(fn) {
								bad = true
								res.bad("no-ambient-source", src+" in "+fnName(fn), p.posOf(in), fmt.Sprintf("%s, reached from %s, takes a value from %s, which differs from run to run", fnName(f), fnName(fn), src), "P27")
							}
						}
					}
					if s, ok := in.(*ssa.Select); ok && len(s.States) > 1 {
						res.undecided("no-ambient-source", fnName(f), "it selects among several channels", "P27")
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok {
							visit(g)
						}
					}
				}
			}
			for _, g := range cg.of(f) {
				visit(g)
			}
		}
		visit(fn)
		if !bad {
			res.ok("no-ambient-source", fnName(fn), "P27")
		}
	}
	for _, fn := range repoFuncs(p) {
		mapOrder(p, res, fn)
		scheduleOrder(p, res, fn)
	}
}

// valueUsed: something other than a blank takes the value.
func valueUsed(v ssa.Value) bool {
	return v.Referrers() != nil && len(*v.Referrers()) > 0
}

// callees resolves calls: static ones, and interface calls by class hierarchy
// within the repository.
type calleeMap struct {
	p     *Program
	types []types.Type
	memo  map[*ssa.Function][]*ssa.Function
}

func newCallees(p *Program) *calleeMap {
	c := &calleeMap{p: p, memo: map[*ssa.Function][]*ssa.Function{}}
	for _, pkg := range p.Pkgs {
		sc := pkg.Types.Scope()
		for _, name := range sc.Names() {
			if tn, ok := sc.Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
				c.types = append(c.types, tn.Type(), types.NewPointer(tn.Type()))
			}
		}
	}
	return c
}

func (c *calleeMap) call(cc *ssa.CallCommon) []*ssa.Function {
	if f := cc.StaticCallee(); f != nil {
		return []*ssa.Function{f}
	}
	if !cc.IsInvoke() {
		return nil
	}
	it, ok := cc.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, t := range c.types {
		if types.IsInterface(t) || !types.Implements(t, it) {
			continue
		}
		if sel := c.p.Prog.MethodSets.MethodSet(t).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
			if f := c.p.Prog.MethodValue(sel); f != nil {
				out = append(out, f)
			}
		}
	}
	return out
}

func (c *calleeMap) of(f *ssa.Function) []*ssa.Function {
	if fs, ok := c.memo[f]; ok {
		return fs
	}
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				out = append(out, c.call(ci.Common())...)
			}
		}
	}
	c.memo[f] = out
	return out
}

// repoFuncs lists every function with a body, closures included.
func repoFuncs(p *Program) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 || !inRepo(f) || f.Synthetic != "" && f.Parent() == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, pkg := range p.Pkgs {
		sp := p.SSA[relPkg(pkg.PkgPath)]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(p.Prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// ---- loops over maps ----

// order is a loop whose iterations come in an arbitrary order.
type order struct {
	fn     *ssa.Function
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	key    map[ssa.Value]bool // values that are the key of the iteration
	item   map[ssa.Value]bool // values that depend on the iteration
	m      ssa.Value          // the map
	what   string
}

func loopBlocks(header *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{}
	var stack []*ssa.BasicBlock
	for _, p := range header.Preds {
		if header.Dominates(p) {
			stack = append(stack, p)
		}
	}
	if len(stack) == 0 {
		return nil
	}
	body[header] = true
	for len(stack) > 0 {
		b := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if body[b] {
			continue
		}
		body[b] = true
		stack = append(stack, b.Preds...)
	}
	return body
}

func mapOrder(p *Program, res *Result, fn *ssa.Function) {
	var loops []*order
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			n, ok := in.(*ssa.Next)
			if !ok || n.IsString {
				continue
			}
			r, ok := n.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			body := loopBlocks(b)
			if body == nil {
				continue // at most one iteration
			}
			o := &order{fn: fn, header: b, body: body, key: map[ssa.Value]bool{}, item: map[ssa.Value]bool{n: true}, m: r.X, what: "a map"}
			for _, u := range *n.Referrers() {
				if e, ok := u.(*ssa.Extract); ok && e.Index == 1 {
					o.key[e] = true
				}
			}
			loops = append(loops, o)
		}
	}
	done := map[*ssa.BasicBlock]bool{}
	for len(loops) > 0 {
		o := loops[0]
		loops = loops[1:]
		if done[o.header] {
			continue
		}
		done[o.header] = true
		loops = append(loops, o.check(p, res)...)
	}
}

// check decides one loop; it returns the loops over slices that this one filled.
func (o *order) check(p *Program, res *Result) (more []*order) {
	o.spread()
	key := fnName(o.fn)
	bad := false
	report := func(in ssa.Instruction, msg string) {
		bad = true
		res.bad("map-order", key, p.posOf(in), fmt.Sprintf("%s: in a loop over %s, whose order is arbitrary, %s", key, o.what, msg), "P27")
	}
	unsure := func(why string) {
		bad = true
		res.undecided("map-order", key, why, "P27")
	}
	// maps and slices written in the loop
	type write struct {
		m   ssa.Value
		key ssa.Value
	}
	var writes []write
	for b := range o.body {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.MapUpdate:
				writes = append(writes, write{in.Map, in.Key})
			case *ssa.Store:
				if a, ok := in.Addr.(*ssa.IndexAddr); ok {
					writes = append(writes, write{a.X, a.Index})
				}
			}
		}
	}
	written := func(m ssa.Value) (write, bool) {
		for _, w := range writes {
			if samePlace(w.m, m) {
				return w, true
			}
		}
		return write{}, false
	}
	blocks := make([]*ssa.BasicBlock, 0, len(o.body))
	for b := range o.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Lookup:
				if w, ok := written(in.X); ok && o.dependsOnIter(w.key) && !o.key[in.Index] && !o.sameKey(in.Index, w.key) {
					if o.innerFresh(in.Index) || o.item[in.Index] {
						report(in, "an entry is read that another iteration may or may not have changed before")
					} else {
						unsure("an entry of a map that the loop changes is read")
					}
				}
			case *ssa.UnOp:
				if a, ok := in.X.(*ssa.IndexAddr); ok && in.Op == token.MUL {
					if w, ok := written(a.X); ok && o.dependsOnIter(w.key) && !o.key[a.Index] && !o.sameKey(a.Index, w.key) {
						if o.item[a.Index] {
							report(in, "an element is read that another iteration may or may not have changed before")
						}
					}
				}
			case *ssa.MapUpdate:
				if o.key[in.Key] || !o.item[in.Value] {
					continue
				}
				if !o.dependsOnIter(in.Key) && o.everyIteration(b) && !isAccum(in.Value, func(v ssa.Value) bool {
					l, ok := v.(*ssa.Lookup)
					return ok && samePlace(l.X, in.Map)
				}) {
					report(in, "the last iteration decides an entry")
				}
			case *ssa.Store:
				if !o.item[in.Val] {
					continue
				}
				switch a := in.Addr.(type) {
				case *ssa.FieldAddr, *ssa.Global:
					if o.dependsOnIter(in.Addr) {
						continue
					}
					self := func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && sameAddr(u.X, a)
					}
					if f := floatAccum(in.Val, self); f {
						report(in, "floating point values are accumulated, so that the rounding depends on the order")
					} else if o.everyIteration(b) && !isAccum(in.Val, self) {
						report(in, "the last iteration decides a field")
					}
				}
			}
		}
	}
	// loop-carried values
	for _, in := range o.header.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, e := range phi.Edges {
			if !o.body[o.header.Preds[i]] || !o.item[e] {
				continue
			}
			self := func(v ssa.Value) bool { return v == phi }
			switch {
			case floatAccum(e, self):
				if usedAfter(phi, o.body) {
					report(phi, "floating point values are accumulated, so that the rounding depends on the order")
				}
			case isAppend(e, phi):
				if m := o.appended(p, phi, report, unsure); m != nil {
					more = append(more, m...)
				}
			case isAccum(e, self):
			default:
				if o.onlyWayRound(o.header.Preds[i]) && e != phi && !dependsOn(e, phi, map[ssa.Value]bool{}) && usedAfter(phi, o.body) && !isPhi(e) {
					report(phi, "the last iteration decides a value that is used afterwards")
				}
			}
		}
	}
	if !bad {
		res.ok("map-order", key, "P27")
	}
	return more
}

// onlyWayRound: every iteration ends with the block.
func (o *order) onlyWayRound(b *ssa.BasicBlock) bool {
	for _, p := range o.header.Preds {
		if o.body[p] && p != b {
			return false
		}
	}
	return true
}

func isPhi(v ssa.Value) bool { _, ok := v.(*ssa.Phi); return ok }

// spread marks everything in the loop that depends on the iteration.
func (o *order) spread() {
	for k := range o.key {
		o.item[k] = true
	}
	for changed := true; changed; {
		changed = false
		for b := range o.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || o.item[v] {
					continue
				}
				if phi, isP := in.(*ssa.Phi); isP && b == o.header {
					_ = phi
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && o.item[*op] {
						o.item[v] = true
						changed = true
						break
					}
				}
			}
		}
	}
}

func (o *order) dependsOnIter(v ssa.Value) bool { return o.item[v] || o.key[v] }

// sameKey: both are formed alike from the key.
func (o *order) sameKey(a, b ssa.Value) bool { return sameVal(a, b, 0) }

// innerFresh: the value comes from an inner loop of the body.
func (o *order) innerFresh(v ssa.Value) bool {
	phi, ok := v.(*ssa.Phi)
	if !ok {
		if e, isE := v.(*ssa.Extract); isE {
			if n, isN := e.Tuple.(*ssa.Next); isN {
				return o.body[n.Block()] && n.Block() != o.header
			}
		}
		return false
	}
	return phi.Block() != o.header && o.body[phi.Block()]
}

// everyIteration: the block is passed whenever the loop goes round again.
func (o *order) everyIteration(b *ssa.BasicBlock) bool {
	for i, p := range o.header.Preds {
		_ = i
		if o.body[p] && !b.Dominates(p) {
			return false
		}
	}
	return true
}

// appended: the loop appends to a slice in iteration order.
func (o *order) appended(p *Program, phi *ssa.Phi, report func(ssa.Instruction, string), unsure func(string)) (more []*order) {
	sorted, kept := false, ssa.Instruction(nil)
	vals := map[ssa.Value]bool{phi: true}
	var uses func(v ssa.Value)
	uses = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			if o.body[u.Block()] {
				continue
			}
			switch u := u.(type) {
			case *ssa.Call:
				if f := u.Common().StaticCallee(); f != nil && f.Object() != nil && f.Object().Pkg() != nil {
					switch f.Object().Pkg().Path() {
					case "sort", "slices":
						sorted = true
						continue
					}
				}
				kept2 := false
				if _, isB := u.Call.Value.(*ssa.Builtin); isB {
					kept2 = true
				}
				if !kept2 {
					unsure("a slice filled in map order is passed on")
				}
			case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice:
				uses(u.(ssa.Value))
			case *ssa.Phi:
				if !vals[u] {
					vals[u] = true
					uses(u)
				}
			case *ssa.Return:
				kept = u
			case *ssa.Store:
				if u.Val == v {
					kept = u
				}
			case *ssa.IndexAddr:
				// a loop over the slice goes in map order as well
				if h := headerOf(u.Block()); h != nil {
					n := &order{fn: o.fn, header: h, body: loopBlocks(h), key: map[ssa.Value]bool{}, item: map[ssa.Value]bool{}, m: v, what: "a slice filled in map order"}
					for _, r := range *u.Referrers() {
						if l, ok := r.(*ssa.UnOp); ok && l.Op == token.MUL {
							n.key[l] = true
						}
					}
					more = append(more, n)
				}
			}
		}
	}
	uses(phi)
	if sorted {
		return nil
	}
	if kept != nil {
		report(kept, "a slice is filled that is kept or returned unsorted")
	}
	return more
}

// headerOf finds the innermost loop header around a block.
func headerOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	for d := b; d != nil; d = d.Idom() {
		if body := loopBlocks(d); body != nil && body[b] {
			return d
		}
	}
	return nil
}

func usedAfter(v ssa.Value, body map[*ssa.BasicBlock]bool) bool {
	for _, u := range *v.Referrers() {
		if !body[u.Block()] {
			return true
		}
	}
	return false
}

func isAppend(e ssa.Value, phi ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return v.Call.Args[0] == phi || rec(v.Call.Args[0]) || isPhi(v.Call.Args[0])
			}
		case *ssa.Phi:
			for _, x := range v.Edges {
				if rec(x) {
					return true
				}
			}
		}
		return false
	}
	return rec(e)
}

// isAccum: the value is formed from the place's own value by an operation whose
// order does not matter, or conditionally (as in a maximum).
func isAccum(v ssa.Value, self func(ssa.Value) bool) bool {
	switch v := v.(type) {
	case *ssa.BinOp:
		return fedBy(v, self, 0)
	case *ssa.Phi:
		return true // conditional
	case *ssa.Call:
		return fedBy(v, self, 0)
	case *ssa.Const:
		return true
	}
	return false
}

func fedBy(v ssa.Value, self func(ssa.Value) bool, depth int) bool {
	if self(v) {
		return true
	}
	if depth > 6 {
		return false
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && fedBy(*op, self, depth+1) {
			return true
		}
	}
	return false
}

// floatAccum: the value is the place's own value plus, minus or times something,
// in floating point.
func floatAccum(v ssa.Value, self func(ssa.Value) bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok {
		return false
	}
	if t, ok := b.Type().Underlying().(*types.Basic); !ok || t.Info()&(types.IsFloat|types.IsComplex) == 0 {
		return false
	}
	switch b.Op {
	case token.ADD, token.SUB, token.MUL, token.QUO:
		if self(b.X) || (b.Op == token.ADD || b.Op == token.MUL) && self(b.Y) {
			return true
		}
		return floatAccum(b.X, self) || floatAccum(b.Y, self)
	}
	return false
}

func dependsOn(v, on ssa.Value, seen map[ssa.Value]bool) bool {
	if v == on {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, on, seen) {
			return true
		}
	}
	return false
}

// samePlace: two values are the same map or slice, by how they are reached.
func samePlace(a, b ssa.Value) bool { return sameVal(a, b, 0) }

func sameVal(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 6 {
		return false
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && sameAddr(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && constant.Compare(x.Value, token.EQL, y.Value)
	case *ssa.Call:
		y, ok := b.(*ssa.Call)
		if !ok || x.Call.StaticCallee() == nil || x.Call.StaticCallee() != y.Call.StaticCallee() || len(x.Call.Args) != len(y.Call.Args) {
			return false
		}
		for i := range x.Call.Args {
			if !sameVal(x.Call.Args[i], y.Call.Args[i], depth+1) {
				return false
			}
		}
		return true
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameVal(x.X, y.X, depth+1) && sameVal(x.Y, y.Y, depth+1)
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && (sameAddr(x.X, y.X) || sameVal(x.X, y.X, 1))
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && sameVal(x.X, y.X, 1) && sameVal(x.Index, y.Index, 1)
	}
	return false
}

// ---- goroutines ----

// scheduleOrder: a goroutine started in a loop appends to a slice that is kept in
// the order in which goroutines finish. Errors are reported as a set.
func scheduleOrder(p *Program, res *Result, fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			g, ok := in.(*ssa.Go)
			if !ok {
				continue
			}
			var body *ssa.Function
			switch v := g.Call.Value.(type) {
			case *ssa.MakeClosure:
				body, _ = v.Fn.(*ssa.Function)
			case *ssa.Function:
				body = v
			}
			if body == nil {
				res.undecided("schedule-order", fnName(fn), "the function that the goroutine runs is not known", "P27")
				continue
			}
			bad := false
			inLoop := headerOf(b) != nil
			for _, bb := range body.Blocks {
				for _, i2 := range bb.Instrs {
					s, ok := i2.(*ssa.Store)
					if !ok {
						continue
					}
					if !outer(s.Addr) {
						continue
					}
					t := s.Val.Type()
					if sl, ok := t.Underlying().(*types.Slice); ok {
						t = sl.Elem()
					}
					if isErrorType(t) || strings.Contains(t.String(), "multierror") || !inLoop {
						continue
					}
					self := func(v ssa.Value) bool {
						u, ok := v.(*ssa.UnOp)
						return ok && u.Op == token.MUL && sameAddr(u.X, s.Addr)
					}
					switch {
					case floatAccum(s.Val, self):
						bad = true
						res.bad("schedule-order", fnName(fn), p.posOf(s), fmt.Sprintf("%s: goroutines accumulate floating point values in the order in which they run", fnName(fn)), "P27")
					case isSlice(s.Val.Type()) && fedBy(s.Val, self, 0):
						bad = true
						if !sortedIn(fn) {
							res.bad("schedule-order", fnName(fn), p.posOf(s), fmt.Sprintf("%s: goroutines append to a slice in the order in which they run", fnName(fn)), "P27")
						}
					}
				}
			}
			if !bad {
				res.ok("schedule-order", fnName(fn), "P27")
			}
		}
	}
}

func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// outer: the address belongs to a variable captured from outside, or to a parameter.
func outer(a ssa.Value) bool {
	switch a := a.(type) {
	case *ssa.FreeVar, *ssa.Global, *ssa.Parameter:
		return true
	case *ssa.FieldAddr:
		return outer(a.X)
	case *ssa.UnOp:
		return outer(a.X)
	}
	return false
}

func sortedIn(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil && f.Object() != nil && f.Object().Pkg() != nil {
					switch f.Object().Pkg().Path() {
					case "sort", "slices":
						return true
					}
				}
			}
		}
	}
	return false
}
