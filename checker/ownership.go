package main

// ownership.go: a constructor does not keep memory of its caller, however deep.
// A forward dataflow analysis over the SSA form of an exported function and
// what it calls (inlined): points-to sets of values, with a memory that is
// updated strongly for objects that are allocated once, and refined where a
// pointer was compared with nil.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// oobj is an abstract object: memory of the caller (a parameter and all it
// leads to), a package-level variable, or an allocation site in a call context.
type oobj struct {
	name     string
	caller   string // parameter whose memory it is
	outside  bool   // not allocated by the analysed function
	global   string // package-level variable that leads to it
	typ      types.Type
	singular bool // stands for one object
}

type oref struct {
	obj  *oobj
	path string
}

// oval: what a value may refer to.
type oval struct {
	refs   map[oref]bool
	fns    map[*ofn]bool
	fields map[string]*oval // of a struct value
	mixed  bool             // not all stores are known to be overwritten
}

type ofn struct {
	fn    *ssa.Function
	binds []*oval
}

var ovNone = &oval{}

func (v *oval) empty() bool { return len(v.refs) == 0 && len(v.fns) == 0 && len(v.fields) == 0 }

func joinOval(a, b *oval) *oval {
	if a == nil || a == b {
		return b
	}
	if b == nil {
		return a
	}
	r := &oval{mixed: a.mixed || b.mixed}
	for _, v := range []*oval{a, b} {
		for p := range v.refs {
			if r.refs == nil {
				r.refs = map[oref]bool{}
			}
			r.refs[p] = true
		}
		for f := range v.fns {
			if r.fns == nil {
				r.fns = map[*ofn]bool{}
			}
			r.fns[f] = true
		}
		for k, f := range v.fields {
			if r.fields == nil {
				r.fields = map[string]*oval{}
			}
			r.fields[k] = joinOval(r.fields[k], f)
		}
	}
	return r
}

func sameOval(a, b *oval) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil || len(a.refs) != len(b.refs) || len(a.fns) != len(b.fns) || len(a.fields) != len(b.fields) || a.mixed != b.mixed {
		return false
	}
	for p := range a.refs {
		if !b.refs[p] {
			return false
		}
	}
	for f := range a.fns {
		if !b.fns[f] {
			return false
		}
	}
	for k, f := range a.fields {
		if !sameOval(f, b.fields[k]) {
			return false
		}
	}
	return true
}

type ostate struct {
	env map[ssa.Value]*oval
	mem map[oref]*oval
}

func (s *ostate) clone() *ostate {
	t := &ostate{env: map[ssa.Value]*oval{}, mem: map[oref]*oval{}}
	for k, v := range s.env {
		t.env[k] = v
	}
	for k, v := range s.mem {
		t.mem[k] = v
	}
	return t
}

// joinState joins b into a; whether a changed.
func joinState(a, b *ostate) bool {
	ch := false
	for k, v := range b.env {
		j := joinOval(a.env[k], v)
		if !sameOval(j, a.env[k]) {
			a.env[k] = j
			ch = true
		}
	}
	for k, v := range b.mem {
		j := joinOval(a.mem[k], v)
		if !sameOval(j, a.mem[k]) {
			a.mem[k] = j
			ch = true
		}
	}
	return ch
}

type owner struct {
	p     *Program
	objs  map[string]*oobj
	fns   map[string]*ofn
	stack []*ssa.Function
	steps int
	given []*oval // stored in memory that the function did not allocate
}

func (o *owner) obj(name string) *oobj {
	if x, ok := o.objs[name]; ok {
		return x
	}
	x := &oobj{name: name}
	o.objs[name] = x
	return x
}

func refTo(x *oobj, path string) *oval { return &oval{refs: map[oref]bool{{x, path}: true}} }

// holdsRefs: values of the type may refer to memory that can change.
func holdsRefs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return holdsRefs(u.Elem())
	}
	return true
}

func (o *owner) load(st *ostate, r oref, t types.Type) *oval {
	if !holdsRefs(t) {
		return ovNone
	}
	if r.obj.outside {
		if s, ok := t.Underlying().(*types.Struct); ok {
			v := &oval{fields: map[string]*oval{}}
			for i := 0; i < s.NumFields(); i++ {
				v.fields[s.Field(i).Name()] = o.load(st, r, s.Field(i).Type())
			}
			return v
		}
		if r.obj.global != "" {
			x := o.obj(r.obj.global + ":" + t.String())
			x.outside, x.global, x.typ = true, r.obj.global, t
			return refTo(x, "")
		}
		return refTo(r.obj, "")
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		v := &oval{fields: map[string]*oval{}}
		for i := 0; i < s.NumFields(); i++ {
			v.fields[s.Field(i).Name()] = o.load(st, oref{r.obj, r.path + "." + s.Field(i).Name()}, s.Field(i).Type())
		}
		return v
	}
	if v := st.mem[r]; v != nil {
		return v
	}
	return ovNone
}

func (o *owner) store(st *ostate, v *oval, to *oval, t types.Type) {
	if to == nil || !holdsRefs(t) {
		return
	}
	for r := range to.refs {
		if r.obj.outside {
			if r.obj.global == "" && v != nil && !v.empty() {
				o.given = append(o.given, v)
			}
			continue
		}
		strong := len(to.refs) == 1 && r.obj.singular && !strings.Contains(r.path, "[]")
		o.storeAt(st, r, v, t, strong)
	}
}

func (o *owner) storeAt(st *ostate, r oref, v *oval, t types.Type, strong bool) {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			var fv *oval = ovNone
			if v.fields[f.Name()] != nil {
				fv = v.fields[f.Name()]
			}
			if holdsRefs(f.Type()) {
				o.storeAt(st, oref{r.obj, r.path + "." + f.Name()}, fv, f.Type(), strong)
			}
		}
		return
	}
	if strong {
		st.mem[r] = v
		return
	}
	old := st.mem[r]
	j := joinOval(old, v)
	if old != nil && !old.empty() && !sameOval(old, j) {
		j = joinOval(j, &oval{mixed: true})
	}
	st.mem[r] = j
}

func (o *owner) val(st *ostate, v ssa.Value) *oval {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return ovNone
	case *ssa.Global:
		x := o.obj("G:" + v.Name())
		x.outside, x.global, x.typ = true, v.RelString(nil), v.Type()
		return refTo(x, "")
	case *ssa.Function:
		return o.fnVal(v, nil, "")
	}
	if r := st.env[v]; r != nil {
		return r
	}
	return ovNone
}

func (o *owner) fnVal(f *ssa.Function, binds []*oval, ctx string) *oval {
	k := f.String() + "@" + ctx
	c := o.fns[k]
	if c == nil {
		c = &ofn{fn: f, binds: binds}
		o.fns[k] = c
	}
	for i, b := range binds {
		c.binds[i] = joinOval(c.binds[i], b)
	}
	return &oval{fns: map[*ofn]bool{c: true}}
}

// inCycle: the block may be executed again in the same call.
func inCycle(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

type oframe struct {
	fn   *ssa.Function
	ctx  string
	loop bool // the call is in a loop
}

func (o *owner) alloc(fr oframe, in ssa.Instruction, v ssa.Value) *oval {
	name := fmt.Sprintf("%s/%s.%s", fr.ctx, fnName(fr.fn), v.Name())
	_, known := o.objs[name]
	x := o.obj(name)
	if !known {
		x.singular = !fr.loop && !inCycle(in.Block())
	}
	return refTo(x, "")
}

// run analyses a call; the result values joined and the memory afterwards (nil
// if it does not return).
func (o *owner) run(fn *ssa.Function, args, binds []*oval, mem map[oref]*oval, ctx string, loop bool) ([]*oval, map[oref]*oval) {
	for _, f := range o.stack {
		if f == fn {
			giveUp("recursion through %s", fnName(fn))
		}
	}
	if len(o.stack) > 24 {
		giveUp("calls nest too deep")
	}
	o.stack = append(o.stack, fn)
	defer func() { o.stack = o.stack[:len(o.stack)-1] }()
	fr := oframe{fn, ctx, loop}
	in := map[*ssa.BasicBlock]*ostate{}
	first := &ostate{env: map[ssa.Value]*oval{}, mem: mem}
	first = first.clone()
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			first.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) && binds[i] != nil {
			first.env[p] = binds[i]
		}
	}
	in[fn.Blocks[0]] = first
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	order := rpo(fn)
	pos := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		pos[b] = i
	}
	rets := map[*ssa.BasicBlock][]*oval{}
	after := map[*ssa.BasicBlock]*ostate{}
	for len(work) > 0 {
		sort.Slice(work, func(i, j int) bool { return pos[work[i]] < pos[work[j]] })
		b := work[0]
		work = work[1:]
		o.steps++
		if o.steps > 60000 {
			giveUp("too many steps")
		}
		st := in[b].clone()
		var defers []*ssa.Defer
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				continue // set on the edges
			case *ssa.Defer:
				defers = append(defers, i)
			case *ssa.Return:
				var rs []*oval
				for _, r := range i.Results {
					rs = append(rs, o.val(st, r))
				}
				rets[b], after[b] = rs, st
			default:
				if !o.step(fr, i, st) {
					goto next // the callee does not return
				}
			}
		}
		for si, s := range b.Succs {
			t := st
			if len(b.Succs) > 1 {
				t = st.clone()
				if f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok && !o.refine(t, f.Cond, si == 0) {
					continue
				}
			}
			u := t.clone()
			for _, i := range s.Instrs {
				ph, ok := i.(*ssa.Phi)
				if !ok {
					break
				}
				for k, p := range s.Preds {
					if p == b {
						u.env[ph] = o.val(t, ph.Edges[k])
					}
				}
			}
			if in[s] == nil {
				in[s] = u
				work = append(work, s)
			} else if joinState(in[s], u) {
				has := false
				for _, x := range work {
					has = has || x == s
				}
				if !has {
					work = append(work, s)
				}
			}
		}
	next:
	}
	if len(rets) == 0 {
		return nil, nil
	}
	var out []*oval
	var end *ostate
	for _, b := range order {
		rs, ok := rets[b]
		if !ok {
			continue
		}
		if end == nil {
			out = append([]*oval{}, rs...)
			end = &ostate{env: map[ssa.Value]*oval{}, mem: after[b].clone().mem}
			continue
		}
		for i := range rs {
			out[i] = joinOval(out[i], rs[i])
		}
		joinState(end, &ostate{mem: after[b].mem})
	}
	return out, end.mem
}

// refine uses the outcome of a comparison with nil or of a length with zero;
// false: the branch cannot be taken.
func (o *owner) refine(st *ostate, cond ssa.Value, taken bool) bool {
	if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
		return o.refine(st, u.X, !taken)
	}
	c, ok := cond.(*ssa.BinOp)
	if !ok {
		return true
	}
	isNil := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.IsNil()
	}
	zero := func(v ssa.Value) bool {
		k, ok := v.(*ssa.Const)
		return ok && k.Value != nil && k.Value.ExactString() == "0"
	}
	lenOf := func(v ssa.Value) ssa.Value {
		if k, ok := v.(*ssa.Call); ok {
			if b, ok := k.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				return k.Call.Args[0]
			}
		}
		return nil
	}
	x, y := c.X, c.Y
	op := c.Op
	if isNil(x) || zero(x) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.GEQ:
			op = token.LEQ
		case token.LEQ:
			op = token.GEQ
		}
	}
	var subj ssa.Value
	none := false
	switch {
	case isNil(y) && (op == token.EQL || op == token.NEQ):
		subj, none = x, (op == token.EQL) == taken
	case zero(y) && lenOf(x) != nil:
		subj = lenOf(x)
		switch op {
		case token.EQL, token.LEQ:
			none = taken
		case token.NEQ, token.GTR:
			none = !taken
		default:
			return true
		}
	default:
		return true
	}
	if !none {
		return true
	}
	was := o.val(st, subj)
	for {
		if u, ok := subj.(*ssa.UnOp); ok && u.Op == token.MUL {
			to := o.val(st, u.X)
			if len(to.refs) == 1 {
				for r := range to.refs {
					if !r.obj.outside && r.obj.singular && !strings.Contains(r.path, "[]") && sameOval(st.mem[r], was) {
						st.mem[r] = ovNone
					}
				}
			}
		}
		st.env[subj] = ovNone
		if k, ok := subj.(*ssa.ChangeType); ok {
			subj = k.X
			continue
		}
		return true
	}
}

// step executes an instruction; false: control does not continue.
func (o *owner) step(fr oframe, in ssa.Instruction, st *ostate) bool {
	switch in := in.(type) {
	case *ssa.Alloc:
		v := o.alloc(fr, in, in)
		st.env[in] = v
		for r := range v.refs {
			if r.obj.singular {
				for k := range st.mem {
					if k.obj == r.obj {
						delete(st.mem, k)
					}
				}
			}
		}
	case *ssa.MakeSlice:
		st.env[in] = o.alloc(fr, in, in)
	case *ssa.MakeMap:
		st.env[in] = o.alloc(fr, in, in)
	case *ssa.MakeChan:
		st.env[in] = o.alloc(fr, in, in)
	case *ssa.MakeClosure:
		var bs []*oval
		for _, b := range in.Bindings {
			bs = append(bs, o.val(st, b))
		}
		st.env[in] = o.fnVal(in.Fn.(*ssa.Function), bs, fr.ctx+in.Name())
	case *ssa.FieldAddr:
		s := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		st.env[in] = extend(o.val(st, in.X), "."+s.Field(in.Field).Name())
	case *ssa.IndexAddr:
		st.env[in] = extend(o.val(st, in.X), "[]")
	case *ssa.Field:
		s := in.X.Type().Underlying().(*types.Struct)
		v := o.val(st, in.X).fields[s.Field(in.Field).Name()]
		if v == nil {
			v = ovNone
		}
		st.env[in] = v
	case *ssa.UnOp:
		switch in.Op {
		case token.MUL:
			st.env[in] = o.loadAll(st, o.val(st, in.X), "", in.Type())
		case token.ARROW:
			st.env[in] = o.loadAll(st, o.val(st, in.X), "[]", in.Type())
		}
	case *ssa.Lookup:
		if _, ok := in.X.Type().Underlying().(*types.Map); ok {
			st.env[in] = o.loadAll(st, o.val(st, in.X), "[]", valueType(in))
		}
	case *ssa.Range:
		st.env[in] = o.val(st, in.X)
	case *ssa.Next:
		t := in.Type().(*types.Tuple)
		st.env[in] = o.loadAll(st, o.val(st, in.Iter), "[]", t.At(2).Type())
	case *ssa.Slice, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Index, *ssa.SliceToArrayPointer:
		ops := in.Operands(nil)
		st.env[in.(ssa.Value)] = o.val(st, *ops[0])
		if !holdsRefs(in.(ssa.Value).Type()) {
			st.env[in.(ssa.Value)] = ovNone
		}
	case *ssa.Extract:
		v := o.val(st, in.Tuple)
		if f := v.fields[fmt.Sprint("#", in.Index)]; f != nil {
			v = f
		} else if v.fields != nil {
			v = ovNone
		}
		st.env[in] = v
	case *ssa.Store:
		o.store(st, o.val(st, in.Val), o.val(st, in.Addr), in.Val.Type())
	case *ssa.MapUpdate:
		to := extend(o.val(st, in.Map), "[]")
		o.store(st, o.val(st, in.Value), to, in.Value.Type())
		o.store(st, o.val(st, in.Key), to, in.Key.Type())
	case *ssa.Send:
		o.store(st, o.val(st, in.X), extend(o.val(st, in.Chan), "[]"), in.X.Type())
	case *ssa.Call:
		return o.call(fr, in, &in.Call, st)
	case *ssa.Go:
		return o.call(fr, in, &in.Call, st)
	case *ssa.Panic:
		return false
	}
	return true
}

func valueType(in *ssa.Lookup) types.Type {
	if t, ok := in.Type().(*types.Tuple); ok {
		return t.At(0).Type()
	}
	return in.Type()
}

func (o *owner) loadAll(st *ostate, v *oval, path string, t types.Type) *oval {
	var r *oval
	for p := range v.refs {
		r = joinOval(r, o.load(st, oref{p.obj, capPath(p.path + path)}, t))
	}
	if r == nil {
		return ovNone
	}
	return r
}

func extend(v *oval, path string) *oval {
	r := &oval{refs: map[oref]bool{}, mixed: v.mixed}
	for p := range v.refs {
		if p.obj.outside {
			r.refs[p] = true
		} else {
			r.refs[oref{p.obj, capPath(p.path + path)}] = true
		}
	}
	return r
}

func (o *owner) call(fr oframe, in ssa.Instruction, call *ssa.CallCommon, st *ostate) bool {
	var args []*oval
	for _, a := range call.Args {
		args = append(args, o.val(st, a))
	}
	res, _ := in.(ssa.Value)
	set := func(v *oval) {
		if res != nil {
			st.env[res] = v
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			elem := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			fresh := o.alloc(fr, in, res)
			r := joinOval(nil, fresh)
			if !capLimited(call.Args[0]) {
				r = joinOval(r, args[0])
			}
			if holdsRefs(elem) {
				more := o.loadAll(st, args[1], "[]", elem)
				mine := o.loadAll(st, args[0], "[]", elem)
				all := joinOval(mine, more)
				for q := range fresh.refs {
					// the new array holds both; what is in it came this way
					to := oref{q.obj, "[]"}
					o.storeAt(st, to, all, elem, false)
					if sameOval(dropMixed(st.mem[to]), dropMixed(all)) {
						st.mem[to] = all
					}
				}
				for q := range args[0].refs {
					if !q.obj.outside {
						o.storeAt(st, oref{q.obj, capPath(q.path + "[]")}, more, elem, false)
					}
				}
			}
			set(r)
		case "copy":
			if s, ok := call.Args[1].Type().Underlying().(*types.Slice); ok && holdsRefs(s.Elem()) {
				o.store(st, o.loadAll(st, args[1], "[]", s.Elem()), extend(args[0], "[]"), s.Elem())
			}
			set(ovNone)
		case "panic":
			return false
		default:
			set(ovNone)
		}
		return true
	}
	loop := fr.loop || inCycle(in.Block())
	ctx := fmt.Sprintf("%s/%s.%d", fr.ctx, fnName(fr.fn), in.Pos())
	var fns []*ofn
	if call.IsInvoke() {
		set(o.unknown(st, fr, in, res, args))
		return true
	}
	if f := call.StaticCallee(); f != nil {
		var bs []*oval
		if mc, ok := call.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bs = append(bs, o.val(st, b))
			}
		}
		if !inRepo(f) && f.Parent() == nil || len(f.Blocks) == 0 {
			set(o.external(st, fr, in, res, f, call, args))
			return true
		}
		fns = []*ofn{{fn: f, binds: bs}}
	} else {
		for f := range o.val(st, call.Value).fns {
			if inRepo(f.fn) || f.fn.Parent() != nil {
				fns = append(fns, f)
			}
		}
		sort.Slice(fns, func(i, j int) bool { return fns[i].fn.Pos() < fns[j].fn.Pos() })
		if len(fns) == 0 {
			set(o.unknown(st, fr, in, res, args))
			return true
		}
	}
	var outs []*oval
	var mem *ostate
	for _, f := range fns {
		rec := false
		for _, g := range o.stack {
			rec = rec || g == f.fn
		}
		if rec {
			// a recursive call: its results are approximated
			set(o.unknown(st, fr, in, res, args))
			return true
		}
		rs, m := o.run(f.fn, args, f.binds, st.mem, ctx, loop)
		if m == nil {
			continue
		}
		if mem == nil {
			outs, mem = rs, &ostate{mem: m}
			continue
		}
		for i := range rs {
			outs[i] = joinOval(outs[i], rs[i])
		}
		joinState(mem, &ostate{mem: m})
	}
	if mem == nil {
		return false
	}
	st.mem = mem.mem
	switch len(outs) {
	case 0:
		set(ovNone)
	case 1:
		set(outs[0])
	default:
		v := &oval{fields: map[string]*oval{}}
		for i, x := range outs {
			v.fields[fmt.Sprint("#", i)] = x
		}
		set(v)
	}
	return true
}

func dropMixed(v *oval) *oval {
	if v == nil || !v.mixed {
		return v
	}
	c := *v
	c.mixed = false
	return &c
}

// unknown: the result of a call that is not followed may refer to the arguments.
func (o *owner) unknown(st *ostate, fr oframe, in ssa.Instruction, res ssa.Value, args []*oval) *oval {
	if res == nil {
		return ovNone
	}
	r := o.alloc(fr, in, res)
	var all *oval
	for _, a := range args {
		all = joinOval(all, a)
	}
	if all != nil && !all.empty() {
		for q := range r.refs {
			st.mem[oref{q.obj, "?"}] = joinOval(st.mem[oref{q.obj, "?"}], joinOval(all, &oval{mixed: true}))
		}
	}
	return r
}

// external: functions outside the repository. Those known to copy do; results
// without references keep nothing.
func (o *owner) external(st *ostate, fr oframe, in ssa.Instruction, res ssa.Value, f *ssa.Function, call *ssa.CallCommon, args []*oval) *oval {
	if res == nil || !holdsRefs(res.Type()) {
		return ovNone
	}
	name := f.String()
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	switch {
	case strings.HasPrefix(name, "slices.Clone"), strings.HasPrefix(name, "maps.Clone"):
		r := o.alloc(fr, in, res)
		var elem types.Type
		switch u := res.Type().Underlying().(type) {
		case *types.Slice:
			elem = u.Elem()
		case *types.Map:
			elem = u.Elem()
		}
		if elem != nil && holdsRefs(elem) {
			for q := range r.refs {
				o.storeAt(st, oref{q.obj, "[]"}, o.loadAll(st, args[0], "[]", elem), elem, false)
			}
		}
		return r
	case f.Pkg != nil && (strings.Contains(f.Pkg.Pkg.Path(), "errors") || f.Pkg.Pkg.Path() == "fmt"):
		return ovNone // errors and texts
	}
	return o.unknown(st, fr, in, res, args)
}

// kept lists the parameters whose memory the result refers to: surely (true) or
// perhaps.
func (o *owner) kept(results []*oval, mem map[oref]*oval) map[string]bool {
	out := map[string]bool{}
	type item struct {
		obj   *oobj
		mixed bool
	}
	seen := map[item]bool{}
	var visitVal func(v *oval, mixed bool)
	visitObj := func(x *oobj, mixed bool) {
		if seen[item{x, mixed}] {
			return
		}
		seen[item{x, mixed}] = true
		if x.caller != "" {
			out[x.caller] = out[x.caller] || !mixed
			return
		}
		for k, v := range mem {
			if k.obj == x {
				visitVal(v, mixed)
			}
		}
	}
	visitVal = func(v *oval, mixed bool) {
		mixed = mixed || v.mixed
		for r := range v.refs {
			visitObj(r.obj, mixed)
		}
		for f := range v.fns {
			for _, b := range f.binds {
				visitVal(b, mixed)
			}
		}
		for _, f := range v.fields {
			visitVal(f, mixed)
		}
	}
	for _, r := range results {
		visitVal(r, false)
	}
	return out
}

const ownRule = "keeps-nothing-of-its-caller"

func analyseOwnership(p *Program, res *Result, id string) {
	for _, fn := range allExported(p) {
		if fn.Signature.Recv() != nil || returnsConfig(fn) {
			continue
		}
		rs := fn.Signature.Results()
		object := false
		for i := 0; i < rs.Len(); i++ {
			if t, ok := rs.At(i).Type().(*types.Pointer); ok {
				if _, ok := t.Elem().Underlying().(*types.Struct); ok {
					object = true
				}
			}
		}
		o := &owner{p: p, objs: map[string]*oobj{}, fns: map[string]*ofn{}}
		var args []*oval
		n := 0
		for _, prm := range fn.Params {
			x := o.obj("P:" + prm.Name())
			x.outside = true
			if callerParam(prm.Type()) {
				x.caller = prm.Name()
				n++
			}
			if s, ok := prm.Type().Underlying().(*types.Slice); ok {
				if _, basic := s.Elem().Underlying().(*types.Basic); !basic {
					if _, nested := s.Elem().Underlying().(*types.Slice); !nested {
						x.caller = "" // objects and options are handed over
					}
				}
			}
			args = append(args, refTo(x, ""))
		}
		if n == 0 || !object {
			continue
		}
		key := fnName(fn)
		func() {
			defer func() {
				if e := recover(); e != nil {
					u, ok := e.(undecided)
					if !ok {
						panic(e)
					}
					res.undecided(ownRule, key, u.Error(), "P05")
				}
			}()
			outs, mem := o.run(fn, args, nil, map[oref]*oval{}, "", false)
			kept := o.kept(outs, mem)
			var names []string
			for k := range kept {
				names = append(names, k)
			}
			sort.Strings(names)
			sure := false
			for _, k := range names {
				if kept[k] {
					sure = true
					res.bad(ownRule, k+" in "+key, p.fnPos(fn), fmt.Sprintf("the object that %s returns refers to memory of the caller (parameter %s) or what it leads to", key, k), "P05")
				}
			}
			switch {
			case sure:
			case len(names) > 0:
				res.undecided(ownRule, key, "it is not known whether all of the caller's memory is replaced by copies", "P05")
			default:
				res.ok(ownRule, key, "P05")
			}
		}()
	}
}

// returnsConfig: the function returns a configuration, which may share parts of
// those it was made from.
func returnsConfig(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && strings.HasSuffix(n.Obj().Name(), "Config") {
			return true
		}
	}
	return false
}
