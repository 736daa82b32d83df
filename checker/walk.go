package main

// walk.go: a context-sensitive abstract interpretation of the API of every
// metric. It tracks, per program point, which mutexes are held and in which
// mode, which memory a pointer may designate (receiver state, caller memory,
// package-level state, or memory allocated by the call itself), in which
// critical section a value was read, and which goroutines may be running. No
// path is executed: states are joined at control-flow merges and iterated to a
// fixed point.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// aptr is an abstract pointer: a memory region and the path of the location.
// Regions: "R" state reachable from the receiver, "P:name" memory the caller
// passed, "G:name" package-level, "F:site" allocated during the entry.
type aptr struct{ region, path string }

type aval struct {
	ptrs map[aptr]bool
	fns  map[*fnval]bool
	secs uint32 // critical sections whose state reads flow into the value
}

type fnval struct {
	fn       *ssa.Function
	bindings []*aval
	site     ssa.Value
}

func newAval() *aval { return &aval{ptrs: map[aptr]bool{}, fns: map[*fnval]bool{}} }

func (a *aval) join(b *aval) bool {
	ch := false
	if b == nil {
		return false
	}
	for p := range b.ptrs {
		if !a.ptrs[p] {
			a.ptrs[p] = true
			ch = true
		}
	}
	for f := range b.fns {
		if !a.fns[f] {
			a.fns[f] = true
			ch = true
		}
	}
	if a.secs|b.secs != a.secs {
		a.secs |= b.secs
		ch = true
	}
	return ch
}

func (a *aval) sortedPtrs() []aptr {
	out := make([]aptr, 0, len(a.ptrs))
	for p := range a.ptrs {
		out = append(out, p)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].region != out[j].region {
			return out[i].region < out[j].region
		}
		return out[i].path < out[j].path
	})
	return out
}

func (a *aval) sortedFns() []*fnval {
	out := make([]*fnval, 0, len(a.fns))
	for f := range a.fns {
		out = append(out, f)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].fn != out[j].fn {
			return fnName(out[i].fn) < fnName(out[j].fn)
		}
		return fmt.Sprint(out[i].site) < fmt.Sprint(out[j].site)
	})
	return out
}

// hold counts the acquisitions of one mutex on the current path.
type hold struct{ w, r int }

// lstate is the lock state of one class of paths: states that differ in the
// locks held, in what is deferred or in the critical sections entered are kept
// apart, so that a conditional Lock and its conditional deferred Unlock stay
// correlated.
type lstate struct {
	held   map[string]hold
	outer  map[string]hold // held by a goroutine that waits for this one
	ord    map[string]int  // acquisitions so far, per mutex
	done   map[string]bool // wait groups signalled
	adds   map[string]int  // outstanding Add counts of wait groups, -1 unknown
	live   map[ssa.Instruction]bool
	defers []*ssa.Defer
}

func newState() *lstate {
	return &lstate{held: map[string]hold{}, outer: map[string]hold{}, ord: map[string]int{}, done: map[string]bool{}, adds: map[string]int{}, live: map[ssa.Instruction]bool{}}
}

func (s *lstate) clone() *lstate {
	t := newState()
	t.outer = s.outer
	for k, v := range s.held {
		t.held[k] = v
	}
	for k, v := range s.ord {
		t.ord[k] = v
	}
	for k := range s.done {
		t.done[k] = true
	}
	for k, v := range s.adds {
		t.adds[k] = v
	}
	for k := range s.live {
		t.live[k] = true
	}
	t.defers = append([]*ssa.Defer{}, s.defers...)
	return t
}

func (s *lstate) key() string { return s.keyOf(true) }

// mergeKey leaves out the counters of mutexes that are not held: only the next
// acquisition uses them, and it takes a number above all of them.
func (s *lstate) mergeKey() string { return s.keyOf(false) }

func (s *lstate) keyOf(all bool) string {
	var ks []string
	for k, v := range s.held {
		if v.w != 0 || v.r != 0 {
			ks = append(ks, fmt.Sprintf("h%s=%d/%d", k, v.w, v.r))
		}
	}
	for k, v := range s.outer {
		if v.w != 0 || v.r != 0 {
			ks = append(ks, fmt.Sprintf("x%s=%d/%d", k, v.w, v.r))
		}
	}
	for k, v := range s.ord {
		if h := s.held[k]; all || h.w != 0 || h.r != 0 {
			ks = append(ks, fmt.Sprintf("o%s=%d", k, v))
		}
	}
	for k := range s.done {
		ks = append(ks, "d"+k)
	}
	for k, v := range s.adds {
		if v != 0 {
			ks = append(ks, fmt.Sprintf("a%s=%d", k, v))
		}
	}
	sort.Strings(ks)
	for _, d := range s.defers {
		ks = append(ks, fmt.Sprintf("D%p", d))
	}
	return strings.Join(ks, ";")
}

// states is a set of lock states by key.
type states map[string]*lstate

// add inserts a state and reports whether anything is new.
func (ss states) add(s *lstate) bool {
	k := s.mergeKey()
	old, ok := ss[k]
	if !ok {
		ss[k] = s.clone()
		return true
	}
	ch := false
	for l, n := range s.ord {
		if n > old.ord[l] {
			old.ord[l] = n
			ch = true
		}
	}
	for g := range s.live {
		if !old.live[g] {
			old.live[g] = true
			ch = true
		}
	}
	return ch
}

func (ss states) list() []*lstate {
	var ks []string
	for k := range ss {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []*lstate
	for _, k := range ks {
		out = append(out, ss[k])
	}
	return out
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// access is one read or write of shared memory.
type access struct {
	entry   string
	loc     string // location class
	region  string
	write   bool
	locks   map[string]bool // locks held in a sufficient mode
	sec     uint32
	where   string
	fn      string
	thread  ssa.Instruction // goroutine body the access belongs to, nil for the caller
	live    []ssa.Instruction
	mutator bool
	in      ssa.Instruction
}

type finding struct {
	rule  string
	key   string // stable construct name
	where string
	msg   string
}

type invocation struct {
	fn  *ssa.Function
	env map[ssa.Value]*aval
}

// walker analyses one entry point.
type walker struct {
	p        *Program
	entry    *ssa.Function
	name     string
	mem      map[aptr]*aval // contents of memory allocated by the entry
	memCh    bool
	accesses map[string]*access
	finds    map[string]finding
	acquires map[string]bool // acquisition sites
	rets     *aval
	retState states
	memo     map[string]*memoRec
	summ     map[string]*aval
	summCh   bool
	thread   ssa.Instruction
	threads  map[ssa.Instruction]bool
	gos      map[ssa.Instruction]*goInfo
	closures map[ssa.Value]*fnval
	fnsSeen  map[*ssa.Function]bool
	calls    int
	steps    int
	params   map[string]bool
	retains  map[string]string // caller memory stored into lasting memory
	mutCall  bool
	mutexes  map[string]bool // paths that designate mutexes
	unsure   string          // why the lock state is not known everywhere
	noJoin   string          // why it is not known which goroutines have ended
	multi    []string        // calls on one of many objects: the locks held around it
	multiN   int
}

type goInfo struct {
	site ssa.Instruction
	done map[string]bool // wait groups signalled on every exit
}

func (w *walker) report(rule, key string, in ssa.Instruction, format string, args ...interface{}) {
	k := rule + "|" + key
	if _, ok := w.finds[k]; ok {
		return
	}
	w.finds[k] = finding{rule, key, w.p.posOf(in), fmt.Sprintf(format, args...) + " [entry " + w.name + "]"}
}

// walkEntry analyses an exported method from a state in which no lock is held.
func walkEntry(p *Program, fn *ssa.Function) *walker {
	w := &walker{p: p, entry: fn, name: fnName(fn), mem: map[aptr]*aval{}, summ: map[string]*aval{},
		closures: map[ssa.Value]*fnval{}, mutexes: map[string]bool{}}
	for iter := 0; iter < 8; iter++ {
		w.memo = map[string]*memoRec{}
		w.memCh, w.summCh = false, false
		w.accesses = map[string]*access{}
		w.finds = map[string]finding{}
		w.acquires = map[string]bool{}
		w.gos = map[ssa.Instruction]*goInfo{}
		w.threads = map[ssa.Instruction]bool{}
		w.fnsSeen = map[*ssa.Function]bool{}
		w.retains = map[string]string{}
		w.calls = 0
		w.unsure, w.noJoin = "", ""
		st := newState()
		var args []*aval
		for i, prm := range fn.Params {
			a := newAval()
			if isPtrLike(prm.Type()) {
				if i == 0 && fn.Signature.Recv() != nil {
					a.ptrs[aptr{"R", "*" + typeName(prm.Type())}] = true
				} else {
					a.ptrs[aptr{"P:" + prm.Name(), "*" + prm.Name()}] = true
				}
			}
			args = append(args, a)
		}
		w.rets, w.retState = w.call(fn, args, nil, st)
		if !w.memCh && !w.summCh {
			break
		}
	}
	return w
}

// isPtrLike reports whether values of the type can refer to memory.
func isPtrLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isPtrLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isPtrLike(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if isPtrLike(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

func isMutexType(t types.Type) bool {
	n := typeName(t)
	return n == "sync.Mutex" || n == "sync.RWMutex" || n == "sync.Locker"
}

func capPath(p string) string {
	if len(p) > 160 {
		return p[:160]
	}
	return p
}

type memoRec struct {
	ret  *aval
	outs states
	busy bool
}

func (a *aval) key() string {
	var sb strings.Builder
	for _, p := range a.sortedPtrs() {
		sb.WriteString(p.region + "|" + p.path + ",")
	}
	for _, f := range a.sortedFns() {
		fmt.Fprintf(&sb, "%p,", f)
	}
	fmt.Fprintf(&sb, "%x", a.secs)
	return sb.String()
}

// call analyses a function in the given context; results are shared between
// calls with the same abstract arguments and lock state.
func (w *walker) call(fn *ssa.Function, args []*aval, binds []*aval, st *lstate) (*aval, states) {
	w.calls++
	w.fnsSeen[fn] = true
	one := states{}
	if len(fn.Blocks) == 0 {
		r := newAval()
		for _, a := range args {
			r.join(a)
		}
		one.add(st)
		return r, one
	}
	fk := fmt.Sprintf("%p", fn)
	for _, a := range args {
		fk += "(" + a.key()
	}
	for _, a := range binds {
		fk += "[" + a.key()
	}
	key := fmt.Sprintf("%s#%s#%p#%d#%d%v", fk, st.key(), w.thread, len(st.live), w.multiN, w.multi)
	if m, ok := w.memo[key]; ok {
		if m.busy {
			r := newAval()
			r.join(w.summ[fk])
			one.add(st)
			return r, one
		}
		return m.ret, m.outs
	}
	rec := &memoRec{busy: true}
	w.memo[key] = rec

	inv := &invocation{fn: fn, env: map[ssa.Value]*aval{}}
	for i, prm := range fn.Params {
		v := newAval()
		if i < len(args) {
			v.join(args[i])
		}
		inv.env[prm] = v
	}
	for i, fv := range fn.FreeVars {
		v := newAval()
		if i < len(binds) {
			v.join(binds[i])
		}
		inv.env[fv] = v
	}
	inits := make([]states, len(fn.Blocks))
	for i := range inits {
		inits[i] = states{}
	}
	start := st.clone()
	saved := start.defers
	start.defers = nil
	inits[0].add(start)
	result := newAval()
	outs := states{}
	order := rpo(fn)
	for pass := 0; pass < 20; pass++ {
		changed := false
		outs = states{}
		for _, b := range order {
			if len(inits[b.Index]) == 0 {
				continue
			}
			cur := inits[b.Index].list()
			dead := false
			for _, instr := range b.Instrs {
				w.steps++
				switch instr := instr.(type) {
				case *ssa.Return:
					for _, r := range instr.Results {
						if result.join(w.val(inv, r)) {
							changed = true
						}
					}
					for _, s := range cur {
						o := s.clone()
						o.defers = saved
						outs.add(o)
					}
				case *ssa.Panic:
					dead = true
				case *ssa.RunDefers:
					next := states{}
					for _, s := range cur {
						work := []*lstate{s.clone()}
						for len(work) > 0 {
							t := work[0]
							work = work[1:]
							if len(t.defers) == 0 {
								next.add(t)
								continue
							}
							d := t.defers[len(t.defers)-1]
							t.defers = t.defers[:len(t.defers)-1]
							_, o := w.invoke(inv, d, &d.Call, t, nil)
							work = append(work, o.list()...)
						}
					}
					cur = next.list()
				default:
					next := states{}
					for _, s := range cur {
						ch, o := w.step(inv, instr, s)
						if ch {
							changed = true
						}
						if o == nil {
							next.add(s)
						} else {
							for _, t := range o.list() {
								next.add(t)
							}
						}
					}
					cur = next.list()
				}
			}
			if dead {
				continue
			}
			for _, s := range b.Succs {
				for _, t := range cur {
					if inits[s.Index].add(t) {
						changed = true
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	s := w.summ[fk]
	if s == nil {
		s = newAval()
		w.summ[fk] = s
	}
	if s.join(result) {
		w.summCh = true
	}
	rec.ret, rec.outs, rec.busy = result, outs, false
	return result, outs
}

// rpo is a reverse postorder of the blocks.
func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := make([]bool, len(fn.Blocks))
	var post []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for _, s := range b.Succs {
			visit(s)
		}
		post = append(post, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

func (w *walker) val(inv *invocation, v ssa.Value) *aval {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return newAval()
	case *ssa.Global:
		a := newAval()
		a.ptrs[aptr{"G:" + v.Name(), v.Name()}] = true
		return a
	case *ssa.Function:
		a := newAval()
		f := w.closures[v]
		if f == nil {
			f = &fnval{fn: v, site: v}
			w.closures[v] = f
		}
		a.fns[f] = true
		return a
	}
	if a, ok := inv.env[v]; ok {
		return a
	}
	a := newAval()
	inv.env[v] = a
	return a
}

func (w *walker) set(inv *invocation, v ssa.Value, a *aval) bool {
	cur := inv.env[v]
	if cur == nil {
		cur = newAval()
		inv.env[v] = cur
	}
	return cur.join(a)
}

func (w *walker) siteName(v ssa.Value) string {
	in, _ := v.(ssa.Instruction)
	fn := v.Parent()
	name := v.Name()
	if al, ok := v.(*ssa.Alloc); ok && al.Comment != "" {
		name = al.Comment + "/" + name
	}
	_ = in
	return fnName(fn) + "." + name
}

// freshRegion names memory allocated at a site, apart for goroutine bodies.
func (w *walker) freshRegion(v ssa.Value) string {
	if w.thread != nil {
		return "F:go:" + w.siteName(v)
	}
	return "F:" + w.siteName(v)
}

func fresh(region string) bool { return strings.HasPrefix(region, "F:") }

// load returns what a location may contain.
func (w *walker) load(p aptr, t types.Type, st *lstate) *aval {
	r := newAval()
	if fresh(p.region) {
		if c := w.mem[p]; c != nil {
			r.join(c)
			// what local memory holds is tracked without order of stores: the
			// pointer may be stale
			for q := range c.ptrs {
				if strings.HasPrefix(q.region, "P:") || strings.HasPrefix(q.region, "G:") {
					delete(r.ptrs, q)
					r.ptrs[aptr{q.region[:1] + "?" + q.region[1:], q.path}] = true
				}
			}
		}
	} else if isPtrLike(t) {
		path := capPath("*" + p.path)
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && relPkg(n.Obj().Pkg().Path()) != "?" {
				path = "*" + typeName(n)
			}
		}
		r.ptrs[aptr{p.region, path}] = true
	}
	return r
}

func (w *walker) storeTo(p aptr, v *aval) {
	if !fresh(p.region) {
		return
	}
	c := w.mem[p]
	if c == nil {
		c = newAval()
		w.mem[p] = c
	}
	// critical-section marks of locals flow through memory as well
	if c.join(v) {
		w.memCh = true
	}
}

// touch records an access to the location.
func (w *walker) touch(inv *invocation, in ssa.Instruction, p aptr, write bool, st *lstate) uint32 {
	locks := map[string]bool{}
	sec := uint32(0)
	for l, h := range st.held {
		if h.w > 0 || (!write && h.r > 0) {
			locks[l] = true
		}
		if h.w > 0 || h.r > 0 {
			if !strings.HasPrefix(l, "F:") && (w.multiN == 0 || contains(w.multi, l)) {
				sec |= secBit(l, st.ord[l])
			}
		}
	}
	var live []ssa.Instruction
	for g := range st.live {
		live = append(live, g)
	}
	sort.Slice(live, func(i, j int) bool { return live[i].Pos() < live[j].Pos() })
	key := fmt.Sprintf("%s|%s|%v|%s|%p|%v|%v|%p", p.region, p.path, write, w.p.posOf(in), w.thread, lockNames(locks), len(live), in)
	if a, ok := w.accesses[key]; ok {
		a.sec |= sec
		for l := range a.locks {
			if !locks[l] {
				delete(a.locks, l)
			}
		}
		return sec
	}
	w.accesses[key] = &access{entry: w.name, loc: p.path, region: p.region, write: write, locks: locks, sec: sec,
		where: w.p.posOf(in), fn: fnName(in.Parent()), thread: w.thread, live: live, in: in}
	return sec
}

func lockNames(m map[string]bool) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// secBit numbers a critical section: the n-th acquisition of a lock.
var lockIndex = map[string]int{}

func secBit(lock string, n int) uint32 {
	i, ok := lockIndex[lock]
	if !ok {
		i = len(lockIndex)
		lockIndex[lock] = i
	}
	if n > 3 {
		n = 3
	}
	if n < 1 {
		n = 1
	}
	return 1 << uint((i%10)*3+n-1)
}

// derefPath is the location designated by a pointer with this path.
func targetPath(p aptr, t types.Type) aptr {
	// a pointer to a named struct designates the struct type's location class
	path := p.path
	if strings.HasPrefix(path, "*") {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().(*types.Named); ok {
				if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
					return aptr{p.region, typeName(pt.Elem())}
				}
			}
		}
	}
	return p
}

func (w *walker) step(inv *invocation, in ssa.Instruction, st *lstate) (bool, states) {
	switch in := in.(type) {
	case *ssa.Alloc:
		a := newAval()
		a.ptrs[aptr{w.freshRegion(in), w.siteName(in)}] = true
		if isMutexType(in.Type().Underlying().(*types.Pointer).Elem()) {
			w.mutexes[w.siteName(in)] = true
		}
		return w.set(inv, in, a), nil
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		a := newAval()
		a.ptrs[aptr{w.freshRegion(v), w.siteName(v)}] = true
		return w.set(inv, v, a), nil
	case *ssa.MakeClosure:
		f := w.closures[in]
		if f == nil {
			f = &fnval{fn: in.Fn.(*ssa.Function), site: in}
			for range in.Bindings {
				f.bindings = append(f.bindings, newAval())
			}
			w.closures[in] = f
		}
		ch := false
		for i, b := range in.Bindings {
			if f.bindings[i].join(w.val(inv, b)) {
				ch = true
			}
		}
		a := newAval()
		a.fns[f] = true
		return w.set(inv, in, a) || ch, nil
	case *ssa.Phi:
		ch := false
		for _, e := range in.Edges {
			if w.set(inv, in, w.val(inv, e)) {
				ch = true
			}
		}
		return ch, nil
	case *ssa.FieldAddr:
		base := w.val(inv, in.X)
		st0 := in.X.Type().Underlying().(*types.Pointer).Elem()
		fname := st0.Underlying().(*types.Struct).Field(in.Field).Name()
		a := newAval()
		a.secs = base.secs
		for p := range base.ptrs {
			path := p.path + "." + fname
			if _, ok := types.Unalias(st0).(*types.Named); ok {
				path = typeName(st0) + "." + fname
			}
			a.ptrs[aptr{p.region, path}] = true
			if isMutexType(st0.Underlying().(*types.Struct).Field(in.Field).Type()) {
				w.mutexes[path] = true
			}
		}
		return w.set(inv, in, a), nil
	case *ssa.Field:
		a := newAval()
		a.join(w.val(inv, in.X))
		return w.set(inv, in, a), nil
	case *ssa.IndexAddr:
		base := w.val(inv, in.X)
		a := newAval()
		a.secs = base.secs | w.val(inv, in.Index).secs
		for p := range base.ptrs {
			a.ptrs[aptr{p.region, capPath(p.path + "[]")}] = true
		}
		return w.set(inv, in, a), nil
	case *ssa.Index:
		a := newAval()
		a.join(w.val(inv, in.X))
		return w.set(inv, in, a), nil
	case *ssa.Slice:
		a := newAval()
		base := w.val(inv, in.X)
		a.join(base)
		a.secs |= base.secs
		if in.Low != nil {
			a.secs |= w.val(inv, in.Low).secs
		}
		if in.High != nil {
			a.secs |= w.val(inv, in.High).secs
		}
		return w.set(inv, in, a), nil
	case *ssa.UnOp:
		x := w.val(inv, in.X)
		if in.Op == token.MUL {
			r := newAval()
			r.secs = x.secs
			for _, p := range x.sortedPtrs() {
				tp := targetPath(p, in.X.Type())
				if isMutexType(in.Type()) && !strings.Contains(in.Type().String(), "*") {
					continue
				}
				sec := w.touch(inv, in, tp, false, st)
				l := w.load(tp, in.Type(), st)
				if !fresh(tp.region) {
					r.secs |= sec
				}
				// a whole struct read from fresh memory has the fields' contents
				if fresh(tp.region) {
					if _, ok := in.Type().Underlying().(*types.Struct); ok {
						tn := typeName(in.Type()) + "."
						for q, c := range w.mem {
							if q.region == tp.region && strings.HasPrefix(q.path, tn) {
								l.join(c)
							}
						}
					}
				}
				r.join(l)
			}
			return w.set(inv, in, r), nil
		}
		r := newAval()
		r.secs = x.secs
		if in.Op == token.ARROW {
			for _, p := range x.sortedPtrs() {
				r.join(w.load(aptr{p.region, p.path + "[]"}, in.Type(), st))
			}
			return w.set(inv, in, r), w.received(in, st)
		}
		return w.set(inv, in, r), nil
	case *ssa.Select:
		r := newAval()
		for _, c := range in.States {
			for _, p := range w.val(inv, c.Chan).sortedPtrs() {
				if c.Dir == types.SendOnly {
					w.storeTo(aptr{p.region, p.path + "[]"}, w.val(inv, c.Send))
				} else {
					r.join(w.load(aptr{p.region, p.path + "[]"}, c.Chan.Type().Underlying().(*types.Chan).Elem(), st))
				}
			}
		}
		return w.set(inv, in, r), w.received(in, st)
	case *ssa.BinOp:
		r := newAval()
		r.secs = w.val(inv, in.X).secs | w.val(inv, in.Y).secs
		return w.set(inv, in, r), nil
	case *ssa.Convert:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.ChangeType:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.ChangeInterface:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.MakeInterface:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.TypeAssert:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.SliceToArrayPointer:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.Extract:
		return w.set(inv, in, w.val(inv, in.Tuple)), nil
	case *ssa.Lookup:
		x := w.val(inv, in.X)
		r := newAval()
		r.secs = x.secs | w.val(inv, in.Index).secs
		for _, p := range x.sortedPtrs() {
			q := aptr{p.region, capPath(p.path + "[]")}
			sec := w.touch(inv, in, q, false, st)
			if !fresh(q.region) {
				r.secs |= sec
			}
			t := in.Type()
			if tt, ok := t.(*types.Tuple); ok {
				t = tt.At(0).Type()
			}
			r.join(w.load(q, t, st))
		}
		return w.set(inv, in, r), nil
	case *ssa.Range:
		return w.set(inv, in, w.val(inv, in.X)), nil
	case *ssa.Next:
		x := w.val(inv, in.Iter)
		r := newAval()
		r.secs = x.secs
		for _, p := range x.sortedPtrs() {
			q := aptr{p.region, capPath(p.path + "[]")}
			sec := w.touch(inv, in, q, false, st)
			if !fresh(q.region) {
				r.secs |= sec
			}
			r.join(w.load(q, in.Type(), st))
		}
		return w.set(inv, in, r), nil
	case *ssa.Store:
		v := w.val(inv, in.Val)
		for _, p := range w.val(inv, in.Addr).sortedPtrs() {
			tp := targetPath(p, in.Addr.Type())
			if tp.path == "*"+p.path {
				tp = p
			}
			w.touch(inv, in, tp, true, st)
			w.storeTo(tp, v)
			w.retain(in, tp, v)
			if fresh(tp.region) {
				if _, ok := in.Val.Type().Underlying().(*types.Struct); ok {
					s := in.Val.Type().Underlying().(*types.Struct)
					for i := 0; i < s.NumFields(); i++ {
						w.storeTo(aptr{tp.region, typeName(in.Val.Type()) + "." + s.Field(i).Name()}, v)
					}
				}
			}
		}
	case *ssa.MapUpdate:
		v := newAval()
		v.join(w.val(inv, in.Value))
		v.join(w.val(inv, in.Key))
		for _, p := range w.val(inv, in.Map).sortedPtrs() {
			q := aptr{p.region, capPath(p.path + "[]")}
			w.touch(inv, in, q, true, st)
			w.storeTo(q, v)
			w.retain(in, q, v)
		}
	case *ssa.Send:
		for _, p := range w.val(inv, in.Chan).sortedPtrs() {
			w.storeTo(aptr{p.region, p.path + "[]"}, w.val(inv, in.X))
		}
	case *ssa.Defer:
		n := 0
		for _, d := range st.defers {
			if d == in {
				n++
			}
		}
		if n < 3 {
			t := st.clone()
			t.defers = append(t.defers, in)
			o := states{}
			o.add(t)
			return false, o
		}
	case *ssa.Go:
		return false, w.spawn(inv, in, &in.Call, st, "")
	case *ssa.Call:
		r, ns := w.invoke(inv, in, &in.Call, st, in)
		return w.set(inv, in, r), ns
	}
	return false, nil
}

// received: a message may have been the end of a goroutine.
func (w *walker) received(in ssa.Instruction, st *lstate) states {
	if len(st.live) == 0 || w.thread != nil {
		return nil
	}
	w.noJoin = "goroutines may end with a message that " + fnName(in.Parent()) + " receives"
	o := st.clone()
	o.live = map[ssa.Instruction]bool{}
	return single(o)
}

// retain notes caller memory that is stored into memory outliving the call.
func (w *walker) retain(in ssa.Instruction, dst aptr, v *aval) {
	if fresh(dst.region) {
		return
	}
	for p := range v.ptrs {
		if strings.HasPrefix(p.region, "P:") {
			w.retains[p.region+"->"+dst.path] = w.p.posOf(in)
		}
	}
}

func (w *walker) lockID(v *aval) []string {
	m := map[string]bool{}
	for p := range v.ptrs {
		if fresh(p.region) {
			m["F:"+p.path] = true
		} else {
			m[p.path] = true
		}
	}
	return lockNames(m)
}

// spawn walks a goroutine body: it holds no lock itself, but locks of the
// spawning function stay held while that function waits for it.
func (w *walker) spawn(inv *invocation, in ssa.Instruction, call *ssa.CallCommon, st *lstate, joined string) states {
	return w.spawnBody(inv, in, call, nil, st, joined)
}

// spawnFn is the same for WaitGroup.Go(f).
func (w *walker) spawnFn(in ssa.Instruction, fv *aval, st *lstate, joined string) states {
	return w.spawnBody(nil, in, nil, fv, st, joined)
}

func (w *walker) spawnBody(inv *invocation, in ssa.Instruction, call *ssa.CallCommon, fv *aval, st *lstate, joined string) states {
	body := newState()
	for k, h := range st.held {
		body.outer[k] = h
	}
	for k, h := range st.outer {
		body.outer[k] = h
	}
	savedT := w.thread
	w.thread = in
	w.threads[in] = true
	// goroutines of the same statement run concurrently with one another
	body.live[in] = true
	for k := range st.live {
		body.live[k] = true
	}
	var ends states
	if call != nil {
		_, ends = w.invoke(inv, in, call, body, nil)
	} else {
		ends = states{}
		for _, f := range fv.sortedFns() {
			_, o := w.call(f.fn, nil, f.bindings, body)
			for _, t := range o.list() {
				ends.add(t)
			}
		}
	}
	w.thread = savedT
	done := map[string]bool{}
	for i, end := range ends.list() {
		for l, h := range end.held {
			if h.w > 0 || h.r > 0 {
				w.report("release", "goroutine in "+fnName(in.Parent())+" "+l, in, "a goroutine may end while holding %s", l)
			}
		}
		if i == 0 {
			for k := range end.done {
				done[k] = true
			}
		} else {
			for k := range done {
				if !end.done[k] {
					delete(done, k)
				}
			}
		}
	}
	o := st.clone()
	if joined != "" {
		done[joined] = true
	} else {
		for id := range done {
			switch n := o.adds[id]; {
			case n > 0:
				o.adds[id] = n - 1
			case n == 0:
				w.report("goroutine-add", fnName(in.Parent())+" "+id, in, "a goroutine is started without a preceding Add on %s: Wait may return before it is done", id)
			}
		}
	}
	w.gos[in] = &goInfo{site: in, done: done}
	o.live[in] = true
	out := states{}
	out.add(o)
	return out
}

func single(st *lstate) states {
	o := states{}
	o.add(st)
	return o
}

func (w *walker) invoke(inv *invocation, in ssa.Instruction, call *ssa.CallCommon, st *lstate, res ssa.Value) (*aval, states) {
	var args []*aval
	for _, a := range call.Args {
		args = append(args, w.val(inv, a))
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return w.builtin(inv, in, b.Name(), call, args, st, res), single(st)
	}
	if call.IsInvoke() {
		recv := w.val(inv, call.Value)
		if w.allMutexes(recv) {
			return w.syncCall(inv, in, "sync.RWMutex", call.Method.Name(), call, append([]*aval{recv}, args...), st)
		}
		if n, ok := types.Unalias(call.Value.Type()).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			w.unsure = "cannot tell which mutex is used in " + fnName(in.Parent())
		}
		if call.Method.Pkg() == nil || relPkg(call.Method.Pkg().Path()) == "?" {
			return w.external(inv, in, call, nil, append([]*aval{recv}, args...), st), single(st)
		}
		return w.dispatch(in, call.Value.Type(), call.Method.Name(), recv, args, st)
	}
	if fn := call.StaticCallee(); fn != nil {
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			f := w.closures[mc]
			if f == nil {
				w.step(inv, mc, st)
				f = w.closures[mc]
			}
			return w.call(fn, args, f.bindings, st)
		}
		if inRepo(fn) && len(fn.Blocks) > 0 {
			return w.call(fn, args, nil, st)
		}
		return w.extFunc(inv, in, call, fn, args, st)
	}
	// a function value
	fv := w.val(inv, call.Value)
	if len(fv.fns) == 0 {
		return w.external(inv, in, call, nil, args, st), single(st)
	}
	res0 := newAval()
	out := states{}
	for _, f := range fv.sortedFns() {
		if len(f.fn.Blocks) > 0 && (inRepo(f.fn) || ofSync(f.fn)) {
			r, o := w.call(f.fn, args, f.bindings, st)
			res0.join(r)
			for _, t := range o.list() {
				out.add(t)
			}
		} else {
			out.add(st)
		}
	}
	return res0, out
}

// dispatch resolves an interface method by the types of the repository that
// implement it.
func (w *walker) dispatch(in ssa.Instruction, it types.Type, name string, recv *aval, args []*aval, st *lstate) (*aval, states) {
	res := newAval()
	out := states{}
	iface, _ := it.Underlying().(*types.Interface)
	many := len(recv.ptrs) > 0
	for p := range recv.ptrs {
		if !strings.HasSuffix(p.path, "[]") {
			many = false
		}
	}
	if many {
		saved := w.multi
		if w.multiN == 0 {
			w.multi = nil
			for l, h := range st.held {
				if h.w > 0 || h.r > 0 {
					w.multi = append(w.multi, l)
				}
			}
		}
		w.multiN++
		defer func() { w.multiN--; w.multi = saved }()
	}
	if iface != nil {
		fns := w.p.implementers(it, iface, name)
		typed := map[*ssa.Function]bool{}
		known := len(recv.ptrs) > 0
		for p := range recv.ptrs {
			hit := false
			for _, fn := range fns {
				if r := fn.Signature.Recv(); r != nil && p.path == "*"+typeName(r.Type()) {
					typed[fn] = true
					hit = true
				}
			}
			known = known && hit
		}
		for _, fn := range fns {
			if known && !typed[fn] {
				continue
			}
			r, o := w.call(fn, append([]*aval{recv}, args...), nil, st)
			res.join(r)
			for _, t := range o.list() {
				out.add(t)
			}
		}
	}
	if len(out) == 0 {
		out.add(st)
	}
	return res, out
}

// allMutexes: the value refers to mutexes only.
func (w *walker) allMutexes(v *aval) bool {
	for p := range v.ptrs {
		if !w.mutexes[strings.TrimSuffix(p.path, readSide)] {
			return false
		}
	}
	return len(v.ptrs) > 0
}

// readSide marks the Locker of the read side of a RWMutex.
const readSide = "~r"

// ofSync: a method value or method expression of package sync.
func ofSync(fn *ssa.Function) bool {
	o := fn.Object()
	return fn.Synthetic != "" && o != nil && o.Pkg() != nil && o.Pkg().Path() == "sync"
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

var implCache = map[string][]*ssa.Function{}

// implementers lists the methods that a call through an interface may reach.
func (p *Program) implementers(it types.Type, iface *types.Interface, name string) []*ssa.Function {
	key := it.String() + "." + name
	if r, ok := implCache[key]; ok {
		return r
	}
	var res []*ssa.Function
	for _, pkg := range p.Pkgs {
		sc := pkg.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if _, ok := t.Underlying().(*types.Interface); ok {
				continue
			}
			for _, cand := range []types.Type{types.NewPointer(t), t} {
				if !types.Implements(cand, iface) {
					continue
				}
				sel := p.Prog.MethodSets.MethodSet(cand).Lookup(pkg.Types, name)
				if sel == nil {
					continue
				}
				fn := p.Prog.MethodValue(sel)
				if fn == nil || len(fn.Blocks) == 0 {
					continue
				}
				res = append(res, fn)
				break
			}
		}
	}
	implCache[key] = res
	return res
}

func (w *walker) builtin(inv *invocation, in ssa.Instruction, name string, call *ssa.CallCommon, args []*aval, st *lstate, resV ssa.Value) *aval {
	r := newAval()
	for _, a := range args {
		r.secs |= a.secs
	}
	switch name {
	case "append":
		// the elements are read and copied; the backing array is written past
		// the length unless the capacity is limited to the length
		r.join(args[0])
		if resV != nil {
			r.ptrs[aptr{w.freshRegion(resV), w.siteName(resV)}] = true
		}
		limited := capLimited(call.Args[0])
		elems := newAval()
		if len(args) > 1 {
			for _, p := range args[1].sortedPtrs() {
				q := aptr{p.region, capPath(p.path + "[]")}
				sec := w.touch(inv, in, q, false, st)
				if !fresh(q.region) {
					elems.secs |= sec
				}
				if sl, ok := call.Args[1].Type().Underlying().(*types.Slice); ok {
					elems.join(w.load(q, sl.Elem(), st))
				}
			}
		}
		for _, p := range args[0].sortedPtrs() {
			q := aptr{p.region, capPath(p.path + "[]")}
			if !limited && !strings.Contains(q.region, "?:") {
				w.touch(inv, in, q, true, st)
				w.retain(in, q, elems)
			}
			w.storeTo(q, elems)
			if resV != nil {
				if sl, ok := call.Args[0].Type().Underlying().(*types.Slice); ok {
					w.storeTo(aptr{w.freshRegion(resV), w.siteName(resV) + "[]"}, w.load(q, sl.Elem(), st))
				}
			}
		}
		if resV != nil {
			w.storeTo(aptr{w.freshRegion(resV), w.siteName(resV) + "[]"}, elems)
		}
		if limited {
			// the result never shares the argument's backing array
			delete2 := newAval()
			delete2.secs = r.secs
			if resV != nil {
				delete2.ptrs[aptr{w.freshRegion(resV), w.siteName(resV)}] = true
			}
			return delete2
		}
	case "copy":
		for _, p := range args[1].sortedPtrs() {
			q := aptr{p.region, capPath(p.path + "[]")}
			sec := w.touch(inv, in, q, false, st)
			v := newAval()
			if sl, ok := call.Args[1].Type().Underlying().(*types.Slice); ok {
				v = w.load(q, sl.Elem(), st)
			}
			if !fresh(q.region) {
				v.secs |= sec
			}
			for _, d := range args[0].sortedPtrs() {
				w.storeTo(aptr{d.region, capPath(d.path + "[]")}, v)
			}
		}
		for _, p := range args[0].sortedPtrs() {
			w.touch(inv, in, aptr{p.region, capPath(p.path + "[]")}, true, st)
		}
	case "delete", "clear":
		for _, p := range args[0].sortedPtrs() {
			w.touch(inv, in, aptr{p.region, capPath(p.path + "[]")}, true, st)
		}
	case "len", "cap":
		if _, ok := call.Args[0].Type().Underlying().(*types.Map); ok {
			for _, p := range args[0].sortedPtrs() {
				sec := w.touch(inv, in, aptr{p.region, capPath(p.path + "[]")}, false, st)
				if !fresh(p.region) {
					r.secs |= sec
				}
			}
		}
	}
	return r
}

// capLimited recognises s[:n:n], len-zero literals and nil as append bases that
// cannot be written in place.
func capLimited(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		if v.Max == nil || v.High == nil {
			return false
		}
		if v.Max == v.High {
			return true
		}
		return sameLen(v.Max, v.High)
	case *ssa.Const:
		return v.IsNil()
	case *ssa.ChangeType:
		return capLimited(v.X)
	}
	return false
}

func sameLen(a, b ssa.Value) bool {
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if ok1 && ok2 {
		ba, ok1 := ca.Call.Value.(*ssa.Builtin)
		bb, ok2 := cb.Call.Value.(*ssa.Builtin)
		return ok1 && ok2 && ba.Name() == "len" && bb.Name() == "len" && ca.Call.Args[0] == cb.Call.Args[0]
	}
	ka, ok1 := a.(*ssa.Const)
	kb, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && ka.Value != nil && kb.Value != nil && ka.Value.ExactString() == kb.Value.ExactString()
}

var pureExt = map[string]bool{
	"fmt": true, "errors": true, "strings": true, "strconv": true, "math": true, "math/bits": true,
	"github.com/pkg/errors": true, "time": true, "unicode": true, "cmp": true,
}

// readers of external container types; every other method may write.
var extReaders = map[string]bool{"Len": true, "Front": true, "Back": true, "At": true, "Index": true, "Cap": true, "RIndex": true}

// sliceWriters: the functions of slices, maps and sort that change their
// argument.
var sliceWriters = map[string]bool{
	"slices.Sort": true, "slices.SortFunc": true, "slices.SortStableFunc": true, "slices.Reverse": true,
	"slices.Insert": true, "slices.Delete": true, "slices.DeleteFunc": true, "slices.Replace": true,
	"slices.Compact": true, "slices.CompactFunc": true, "slices.AppendSeq": true,
	"maps.Copy": true, "maps.DeleteFunc": true, "maps.Insert": true,
	"sort.Float64s": true, "sort.Ints": true, "sort.Strings": true, "sort.Sort": true, "sort.Stable": true,
	"sort.Slice": true, "sort.SliceStable": true,
}

var ringReaders = map[string]bool{"Len": true, "Cap": true, "IsDisposed": true}

const (
	ringBuffer = "github.com/workiva/go-datastructures/queue.RingBuffer"
)

func (w *walker) extFunc(inv *invocation, in ssa.Instruction, call *ssa.CallCommon, fn *ssa.Function, args []*aval, st *lstate) (*aval, states) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	} else if o := fn.Origin(); o != nil && o.Object() != nil && o.Object().Pkg() != nil {
		pkg = o.Object().Pkg().Path()
	}
	name := fn.Name()
	recvT := ""
	if r := fn.Signature.Recv(); r != nil {
		recvT = typeName(r.Type())
	}
	if pkg == "sync" {
		return w.syncCall(inv, in, recvT, name, call, args, st)
	}
	if pkg == "container/heap" {
		return w.heapCall(inv, in, name, call, args, st)
	}
	return w.external(inv, in, call, fn, args, st), single(st)
}

func (w *walker) heapCall(inv *invocation, in ssa.Instruction, name string, call *ssa.CallCommon, args []*aval, st *lstate) (*aval, states) {
	res := newAval()
	cur := single(st)
	it := call.Args[0].Type()
	run := func(m string, extra ...*aval) *aval {
		all := newAval()
		next := states{}
		for _, s := range cur.list() {
			r, o := w.dispatch(in, it, m, args[0], extra, s)
			all.join(r)
			for _, t := range o.list() {
				next.add(t)
			}
		}
		cur = next
		return all
	}
	none := newAval()
	run("Len")
	run("Less", none, none)
	run("Swap", none, none)
	switch name {
	case "Push":
		run("Push", args[1])
	case "Pop", "Remove":
		res.join(run("Pop"))
	}
	return res, cur
}

// external models a call out of the repository.
func (w *walker) external(inv *invocation, in ssa.Instruction, call *ssa.CallCommon, fn *ssa.Function, args []*aval, st *lstate) *aval {
	r := newAval()
	for _, a := range args {
		r.secs |= a.secs
	}
	pkg, name, recvT := "", "", ""
	sig := call.Signature()
	if fn != nil {
		name = fn.Name()
		if i := strings.Index(name, "["); i >= 0 {
			name = name[:i]
		}
		if fn.Pkg != nil {
			pkg = fn.Pkg.Pkg.Path()
		} else if o := fn.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		} else if o := fn.Origin(); o != nil && o.Object() != nil && o.Object().Pkg() != nil {
			pkg = o.Object().Pkg().Path()
		}
		if rv := fn.Signature.Recv(); rv != nil {
			recvT = typeName(rv.Type())
		}
	} else if call.IsInvoke() {
		name = call.Method.Name()
		if call.Method.Pkg() != nil {
			pkg = call.Method.Pkg().Path()
		}
	}
	var resT types.Type = sig.Results()
	if v, ok := in.(ssa.Value); ok && isPtrLike(resT) {
		r.ptrs[aptr{w.freshRegion(v), w.siteName(v)}] = true
	}
	if recvT == ringBuffer {
		// what the ring buffer holds is shared state
		for _, p := range args[0].sortedPtrs() {
			w.touch(inv, in, aptr{p.region, p.path + ".ring"}, !ringReaders[name], st)
		}
		switch name {
		case "Get", "Poll":
			r.ptrs[aptr{"R", "*item"}] = true
		case "Put", "Offer":
			for _, p := range args[0].sortedPtrs() {
				if !fresh(p.region) {
					w.retain(in, p, args[1])
				}
			}
		}
		for _, p := range args[0].sortedPtrs() {
			if !fresh(p.region) {
				for l, h := range st.held {
					if (h.w > 0 || h.r > 0) && !strings.HasPrefix(l, "F:") {
						r.secs |= secBit(l, st.ord[l])
					}
				}
			}
		}
		return r
	}
	if pkg == "github.com/pkg/errors" || pkg == "fmt" || pureExt[pkg] {
		return r
	}
	if pkg == "github.com/hashicorp/go-multierror" {
		// Append may extend the error it is given
		if name == "Append" {
			r.join(args[0])
		}
		return r
	}
	write := !extReaders[name]
	if recvT == "" && (pkg == "slices" || pkg == "maps" || pkg == "sort") {
		write = sliceWriters[pkg+"."+name]
		// the result may be the slice itself, or hold what it holds
		if isPtrLike(resT) && len(args) > 0 {
			if !strings.HasPrefix(name, "Clone") && name != "Sorted" && name != "Concat" && name != "Repeat" {
				r.join(args[0])
			}
			if v, ok := in.(ssa.Value); ok {
				if sl, ok := v.Type().Underlying().(*types.Slice); ok && isPtrLike(sl.Elem()) {
					for _, a := range args {
						for _, q := range a.sortedPtrs() {
							w.storeTo(aptr{w.freshRegion(v), w.siteName(v) + "[]"}, w.load(aptr{q.region, capPath(q.path + "[]")}, sl.Elem(), st))
						}
					}
				}
			}
		}
	}
	for i, a := range args {
		// only the receiver of a method is taken to be modified
		if fn != nil && fn.Signature.Recv() != nil && i > 0 {
			continue
		}
		for _, p := range a.sortedPtrs() {
			q := p
			var t types.Type
			if fn != nil && fn.Signature.Recv() != nil {
				t = fn.Signature.Recv().Type()
			}
			if recvT != "" && t != nil {
				q = aptr{p.region, p.path + "." + shortType(recvT)}
			} else {
				q = aptr{p.region, capPath(p.path + "[]")}
			}
			sec := w.touch(inv, in, q, write, st)
			if !fresh(q.region) {
				r.secs |= sec
			}
			if recvT != "" && i == 0 && len(args) > 1 && write {
				for _, b := range args[1:] {
					w.retain(in, q, b)
				}
			}
		}
	}
	return r
}

func shortType(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (w *walker) syncCall(inv *invocation, in ssa.Instruction, recvT, name string, call *ssa.CallCommon, args []*aval, st *lstate) (*aval, states) {
	r := newAval()
	cur := st.clone()
	switch recvT {
	case "sync.Mutex", "sync.RWMutex":
		if name == "RLocker" {
			for p := range args[0].ptrs {
				r.ptrs[aptr{p.region, p.path + readSide}] = true
			}
			return r, single(cur)
		}
		ids := w.lockID(args[0])
		if len(ids) != 1 {
			w.unsure = "cannot tell which mutex is used in " + fnName(in.Parent())
			return r, single(cur)
		}
		id := ids[0]
		if strings.HasSuffix(id, readSide) {
			id = strings.TrimSuffix(id, readSide)
			if name == "Lock" || name == "Unlock" {
				name = "R" + name
			}
		}
		h := cur.held[id]
		switch name {
		case "Lock", "RLock":
			o := st.outer[id]
			w.acquires[id+"@"+w.p.posOf(in)+"/"+name] = true
			if h.w > 0 || h.r > 0 {
				w.report("reacquire", id+" in "+fnName(in.Parent()), in, "%s of %s while the same call already holds it%s: self-deadlock (for RLock, as soon as a writer waits in between)", name, id, modeText(h))
			}
			if o.w > 0 || o.r > 0 {
				w.report("reacquire", id+" in "+fnName(in.Parent()), in, "%s of %s in a goroutine whose spawner holds it while waiting", name, id)
			}
			if name == "Lock" {
				h.w = minI(h.w+1, 3)
			} else {
				h.r = minI(h.r+1, 3)
			}
			cur.held[id] = h
			cur.ord[id] = minI(cur.ord[id]+1, 3)
		case "Unlock":
			if h.w == 0 && w.requiresHeld(in) {
				w.report("release", "unlock "+id+" in "+fnName(in.Parent()), in, "Unlock of %s which is not locked on some path", id)
			}
			h.w = maxI(h.w-1, 0)
			cur.held[id] = h
		case "RUnlock":
			if h.r == 0 && w.requiresHeld(in) {
				w.report("release", "runlock "+id+" in "+fnName(in.Parent()), in, "RUnlock of %s which is not read-locked on some path", id)
			}
			h.r = maxI(h.r-1, 0)
			cur.held[id] = h
		case "TryLock", "TryRLock":
			w.report("lock-form", fnName(in.Parent()), in, "%s may skip the operation", name)
		}
	case "sync.WaitGroup":
		id := strings.Join(w.lockID(args[0]), ",")
		switch name {
		case "Add":
			n := -1
			if c, ok := call.Args[1].(*ssa.Const); ok {
				n = int(c.Int64())
			}
			if cur.adds[id] < 0 || n < 0 {
				cur.adds[id] = -1
			} else {
				cur.adds[id] = minI(cur.adds[id]+n, 4)
			}
		case "Go":
			return r, w.spawnFn(in, args[1], cur, id)
		case "Done":
			cur.done[id] = true
		case "Wait":
			for g := range st.live {
				if gi := w.gos[g]; gi != nil && gi.done[id] {
					delete(cur.live, g)
				}
			}
		}
	case "sync.Once":
		if name == "Do" && len(args) > 1 {
			out := single(cur)
			for _, f := range args[1].sortedFns() {
				_, o := w.call(f.fn, nil, f.bindings, cur)
				for _, t := range o.list() {
					out.add(t)
				}
			}
			return r, out
		}
	}
	return r, single(cur)
}

func modeText(h hold) string {
	if h.w > 0 {
		return " for writing"
	}
	return " for reading"
}

// requiresHeld is false in the exported lock methods themselves, whose caller
// holds the lock.
func (w *walker) requiresHeld(in ssa.Instruction) bool {
	switch w.entry.Name() {
	case "Unlock", "RUnlock":
		return false
	}
	return true
}
