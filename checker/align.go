package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Alignment of the code with the reference program: declarations are matched by
// name; unexported fields and functions that were renamed are matched by type.

// namedTypes lists the declared types of a program by "pkg.Name".
func (p *Program) namedTypes() map[string]*types.Named {
	out := map[string]*types.Named{}
	for _, pkg := range p.Pkgs {
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
				if t, ok := tn.Type().(*types.Named); ok {
					out[typeName(t)] = t
				}
			}
		}
	}
	return out
}

// alignment says which state of the two programs corresponds.
type alignment struct {
	unknown  map[*Term]bool  // state that only one side has
	newTypes map[string]bool // types that only one side declares, or with other fields
	notes    []string
}

func alignTypes(pi, ps *Program) *alignment {
	al := &alignment{unknown: map[*Term]bool{}, newTypes: map[string]bool{}}
	ti, ts := pi.namedTypes(), ps.namedTypes()
	for n := range ti {
		if ts[n] == nil {
			al.newTypes[n] = true
		}
	}
	var names []string
	for n := range ts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		a, b := ti[n], ts[n]
		if a == nil {
			al.newTypes[n] = true
			continue
		}
		sa, ok1 := a.Underlying().(*types.Struct)
		sb, ok2 := b.Underlying().(*types.Struct)
		if ok1 != ok2 || !ok1 && tkey(a.Underlying()) != tkey(b.Underlying()) {
			al.newTypes[n] = true
			continue
		}
		if ok1 {
			al.fields(n, sa, sb)
		}
	}
	// a container that holds values of other types is not comparable
	wi, ws := payloadTypes(pi), payloadTypes(ps)
	for k, t := range wi {
		name := k
		if r, ok := fieldRename[k]; ok {
			name = r
		}
		if ws[name] != "" && ws[name] != t {
			al.unknown[sym("M:"+name, nil)] = true
			al.notes = append(al.notes, "container "+k+" holds "+t+" where the reference's holds "+ws[name])
		}
	}
	return al
}

func (al *alignment) fields(n string, a, b *types.Struct) {
	list := func(s *types.Struct) map[string]string {
		out := map[string]string{}
		for i := 0; i < s.NumFields(); i++ {
			out[s.Field(i).Name()] = tkey(s.Field(i).Type())
		}
		return out
	}
	fa, fb := list(a), list(b)
	byType := func(s *types.Struct, other map[string]string) map[string][]string {
		out := map[string][]string{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if t, ok := other[f.Name()]; ok && t == tkey(f.Type()) {
				continue
			}
			out[tkey(f.Type())] = append(out[tkey(f.Type())], f.Name())
		}
		return out
	}
	ua, ub := byType(a, fb), byType(b, fa)
	differ := false
	for t, xs := range ua {
		ys := ub[t]
		if len(xs) == len(ys) {
			for i := range xs {
				if _, taken := fb[xs[i]]; taken {
					continue
				}
				fieldRename[n+"."+xs[i]] = n + "." + ys[i]
				al.notes = append(al.notes, "field "+n+"."+xs[i]+" is the reference's "+ys[i])
			}
			delete(ub, t)
			continue
		}
		for _, x := range xs {
			al.unknown[sym("M:"+n+"."+x, nil)] = true
			differ = true
		}
	}
	for _, ys := range ub {
		for _, y := range ys {
			al.unknown[sym("M:"+n+"."+y, nil)] = true
			differ = true
		}
	}
	if differ {
		al.newTypes[n] = true
	}
}

// alignFuncs adds to fi, under the reference's name, the functions of the code
// that took the place of unexported functions the reference has.
func alignFuncs(fi, fs map[string]*ssa.Function) map[*ssa.Function]string {
	group := func(f *ssa.Function) string {
		pkg := ""
		if f.Pkg != nil {
			pkg = f.Pkg.Pkg.Path()
		}
		recv := ""
		if r := f.Signature.Recv(); r != nil {
			recv = tkey(r.Type())
		}
		return pkg + "|" + recv + "|" + tkey(f.Signature)
	}
	miss, extra := map[string][]string{}, map[string][]string{}
	for n, f := range fs {
		if fi[n] == nil && !f.Object().Exported() {
			miss[group(f)] = append(miss[group(f)], n)
		}
	}
	for n, f := range fi {
		if fs[n] == nil && !f.Object().Exported() {
			extra[group(f)] = append(extra[group(f)], n)
		}
	}
	canon := map[*ssa.Function]string{}
	for g, ms := range miss {
		es := extra[g]
		if len(ms) == 1 && len(es) == 1 {
			f := fi[es[0]]
			canon[f] = ms[0]
			fi[ms[0]] = f
		}
	}
	return canon
}

// invariant is what holds of a receiver of the reference between operations:
// its constructors establish it and its methods, compared under it, keep it.
// It extends to the objects that the receiver owns.
func (m *Machine) invariant(fn *ssa.Function) *Val {
	r := fn.Signature.Recv()
	if r == nil {
		return vTrue
	}
	stateKey(m, kQueueOff, types.Typ[types.Bool])
	stateKey(m, kQueueCap, types.Typ[types.Int])
	stateKey(m, kQueue, nil)
	mem := Mem{}
	inv := m.objInvariant(leafOf(sym("arg0", r.Type())), r.Type(), mem, 0, fn)
	if fnName(fn) == "(*quantile/heap.Heap).Swap" {
		// an item has one position
		ht := r.Type().(*types.Pointer).Elem()
		st := ht.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			sl, ok := st.Field(i).Type().Underlying().(*types.Slice)
			if !ok {
				continue
			}
			items := m.load(mem, m.fieldAddr(leafOf(sym("arg0", r.Type())), ht, i), st.Field(i).Type())
			at := func(n string) (*Term, *Val) {
				k := sym(n, types.Typ[types.Int])
				return k, m.readElem(mem, m.elemKey(sl.Elem()), items, leaf(k))
			}
			k1, v1 := at("arg1")
			k2, v2 := at("arg2")
			same := lift2(v1, v2, func(x, y *Term) *Val { return ptrEq(x, y) })
			inv = andV(inv, orV(cmpVal("==", k1, k2), notV(same)))
		}
	}
	return inv
}

func (m *Machine) objInvariant(recv *Val, typ types.Type, mem Mem, depth int, fn *ssa.Function) *Val {
	ptr, ok := typ.(*types.Pointer)
	if !ok || depth > 4 {
		return vTrue
	}
	st, ok := ptr.Elem().Underlying().(*types.Struct)
	if !ok {
		return vTrue
	}
	named, ok := ptr.Elem().(*types.Named)
	if !ok || named.Obj().Pkg() == nil || !strings.HasPrefix(named.Obj().Pkg().Path(), modPath) {
		return vTrue
	}
	at := func(i int) *Val {
		return m.load(mem, m.fieldAddr(recv, ptr.Elem(), i), st.Field(i).Type())
	}
	field := func(name string) *Val {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return at(i)
			}
		}
		return nil
	}
	inv := vTrue
	and := func(v *Val) { inv = andV(inv, v) }
	cmp := func(op string, a, b *Val) *Val {
		return lift2(a, b, func(x, y *Term) *Val { return cmpVal(op, x, y) })
	}
	zero := leaf(intTerm(0))
	bounded := func(q, w *Val) *Val {
		n := lift1(m.read(mem, kQueue, q), qlenT)
		and(notV(boolize(m.read(mem, kQueueOff, q))))
		and(cmp("==", m.read(mem, kQueueCap, q), w))
		and(cmp("<=", n, w))
		and(cmp(">=", w, zero))
		return n
	}
	switch typeName(named) {
	case "moment.Core", "joint.Core", "minmax.Min", "minmax.Max":
		n := bounded(field("queue"), field("window"))
		if depth == 0 && fn.Name() == "remove" {
			// in the midst of a push: the value has left the queue but
			// not yet the count
			and(cmp(">", field("window"), zero))
			and(cmp("==", field("count"), lift1(n, func(t *Term) *Val { return leaf(addT(t, intTerm(1))) })))
			break
		}
		and(cmp(">=", field("count"), zero))
		windowed := cmp(">", field("window"), zero)
		and(orV(notV(windowed), cmp("==", field("count"), n)))
	case "quantile.Quantile", "quantile.HeapMedian":
		bounded(field("queue"), field("window"))
	case "joint.Autocov", "joint.Autocorr":
		bounded(field("queue"), field("lag"))
	case "quantile/skiplist.SkipList":
		n := field("maxLevel")
		and(cmp(">=", n, leaf(intTerm(1))))
		and(cmp("==", lift1(field("prevs"), lenT), n))
		for i := 0; i < st.NumFields(); i++ {
			hp, ok := st.Field(i).Type().(*types.Pointer)
			if !ok || st.Field(i).Name() != "head" {
				continue
			}
			ht, ok := hp.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			head := at(i)
			and(notV(lift1(head, isNil)))
			for j := 0; j < ht.NumFields(); j++ {
				if _, ok := ht.Field(j).Type().(*types.Slice); ok {
					own := m.load(mem, m.fieldAddr(head, hp.Elem(), j), ht.Field(j).Type())
					and(cmp("==", lift1(own, lenT), n))
				}
			}
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if p, ok := ft.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n != named {
				f := at(i)
				sub := m.objInvariant(f, ft, mem, depth+1, fn)
				if sub != vTrue {
					and(orV(lift1(f, isNil), sub))
				}
			}
		}
	}
	return inv
}

// mentions reports whether a term names one of the types.
func mentions(t *Term, names map[string]bool) bool {
	if len(names) == 0 {
		return false
	}
	for _, x := range collectTerms(leaf(t)) {
		if x.op == "app" && x.aux == "struct" && x.typ != nil && names[typeName(x.typ)] {
			return true
		}
		if i := strings.IndexByte(x.aux, ':'); i >= 0 {
			for n := range names {
				if strings.Contains(x.aux, n) {
					return true
				}
			}
		}
	}
	return false
}

// payloadTypes are the concrete types of what is put into the containers that
// structs hold, by the field of the container.
func payloadTypes(p *Program) map[string]string {
	sets := map[string]map[string]bool{}
	for _, f := range repoFuncs(p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := call.Common()
				callee := cc.StaticCallee()
				if callee == nil || callee.Signature.Recv() == nil || inRepo(callee) || len(cc.Args) < 2 {
					continue
				}
				ld, ok := cc.Args[0].(*ssa.UnOp)
				if !ok {
					continue
				}
				fa, ok := ld.X.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				owner := fa.X.Type().Underlying().(*types.Pointer).Elem()
				key := typeName(owner) + "." + owner.Underlying().(*types.Struct).Field(fa.Field).Name()
				for _, a := range cc.Args[1:] {
					if _, ok := a.Type().Underlying().(*types.Interface); !ok {
						continue
					}
					t := "?"
					if mi, ok := a.(*ssa.MakeInterface); ok {
						t = tkey(mi.X.Type())
					}
					if sets[key] == nil {
						sets[key] = map[string]bool{}
					}
					sets[key][t] = true
				}
			}
		}
	}
	out := map[string]string{}
	for k, s := range sets {
		var l []string
		for t := range s {
			l = append(l, t)
		}
		sort.Strings(l)
		out[k] = strings.Join(l, ",")
	}
	return out
}
