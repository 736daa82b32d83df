package main

// ifaces.go: types implement the interfaces they are documented for, and what is
// taken out of a container has the type of what is put into it (P31).

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type implClaim struct{ pkg, typ, ipkg, iface string }

// documented lists what each type is documented to be.
var documented = func() []implClaim {
	var out []implClaim
	for _, t := range []string{"Mean", "EWMA", "Moment", "EWMMoment", "Std", "EWMStd", "Skewness", "Kurtosis"} {
		out = append(out, implClaim{"moment", t, "moment", "Metric"}, implClaim{"moment", t, "moment", "CoreWrapper"}, implClaim{"moment", t, "", "SimpleMetric"})
	}
	for _, t := range []string{"Cov", "Corr", "EWMCov", "EWMCorr"} {
		out = append(out, implClaim{"joint", t, "joint", "Metric"}, implClaim{"joint", t, "joint", "CoreWrapper"}, implClaim{"joint", t, "", "SimpleJointMetric"})
	}
	for _, t := range []string{"Autocov", "Autocorr"} {
		out = append(out, implClaim{"joint", t, "joint", "CoreWrapper"}, implClaim{"joint", t, "", "SimpleMetric"})
	}
	for _, t := range []string{"Min", "Max"} {
		out = append(out, implClaim{"minmax", t, "", "SimpleMetric"})
	}
	for _, t := range []string{"Median", "IQR", "HeapMedian"} {
		out = append(out, implClaim{"quantile", t, "", "SimpleMetric"})
	}
	out = append(out,
		implClaim{"quantile", "Quantile", "", "Metric"},
		implClaim{"aggregate", "SimpleAggregateMetric", "", "AggregateMetric"},
		implClaim{"aggregate", "SimpleJointAggregateMetric", "", "JointAggregateMetric"},
		implClaim{"quantile/ost/avl", "Tree", "quantile/ost", "Tree"}, implClaim{"quantile/ost/avl", "Tree", "quantile/order", "Statistic"},
		implClaim{"quantile/ost/rb", "Tree", "quantile/ost", "Tree"}, implClaim{"quantile/ost/rb", "Tree", "quantile/order", "Statistic"},
		implClaim{"quantile/ost/avl", "Node", "quantile/ost", "Node"}, implClaim{"quantile/ost/avl", "Node", "quantile/order", "Node"},
		implClaim{"quantile/ost/rb", "Node", "quantile/ost", "Node"}, implClaim{"quantile/ost/rb", "Node", "quantile/order", "Node"},
		implClaim{"quantile/skiplist", "SkipList", "quantile/order", "Statistic"}, implClaim{"quantile/skiplist", "Node", "quantile/order", "Node"},
	)
	return out
}()

// required lists the methods an interface documents.
var required = map[string][]string{
	"stream.Metric":               {"Push(float64) error", "String() string", "Clear()"},
	"stream.SimpleMetric":         {"Push(float64) error", "String() string", "Clear()", "Value() (float64, error)"},
	"stream.AggregateMetric":      {"Push(float64) error", "Values() (map[string]float64, error)", "Clear()"},
	"stream.JointMetric":          {"Push(...float64) error", "String() string", "Clear()"},
	"stream.SimpleJointMetric":    {"Push(...float64) error", "String() string", "Clear()", "Value() (float64, error)"},
	"stream.JointAggregateMetric": {"Push(...float64) error", "Values() (map[string]float64, error)", "Clear()"},
	"moment.CoreWrapper":          {"SetCore(*Core)", "Config() *CoreConfig"},
	"joint.CoreWrapper":           {"SetCore(*Core)", "Config() *CoreConfig"},
	"moment.Metric":               {"SetCore(*Core)", "Config() *CoreConfig", "Push(float64) error", "Value() (float64, error)", "String() string", "Clear()"},
	"joint.Metric":                {"SetCore(*Core)", "Config() *CoreConfig", "Push(...float64) error", "Value() (float64, error)", "String() string", "Clear()"},
	"quantile/order.Statistic":    {"Size() int", "Add(float64)", "Remove(float64)", "Select(int) Node", "Rank(float64) int", "Clear()"},
	"quantile/order.Node":         {"Value() float64"},
}

func analyseIfaces(p *Program, res *Result, _ string) {
	lookup := func(pkg, name string) types.Type {
		sp := p.SSA[pkg]
		if sp == nil {
			return nil
		}
		if o, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
			return o.Type()
		}
		return nil
	}
	short := func(pkg string) string {
		if pkg == "" {
			return "stream"
		}
		return pkg
	}
	for _, c := range documented {
		key := short(c.pkg) + "." + c.typ + " is a " + short(c.ipkg) + "." + c.iface
		t, i := lookup(c.pkg, c.typ), lookup(c.ipkg, c.iface)
		if t == nil || i == nil {
			res.bad("implements", key, "", key+": the type or the interface is gone", "P31")
			continue
		}
		it, ok := i.Underlying().(*types.Interface)
		if !ok {
			res.bad("implements", key, "", key+": it is no interface", "P31")
			continue
		}
		if m, wrong := types.MissingMethod(types.NewPointer(t), it, true); m != nil {
			how := "has no method"
			if wrong {
				how = "has another signature for the method"
			}
			pos := p.Prog.Fset.Position(t.(*types.Named).Obj().Pos())
			res.bad("implements", key, fmt.Sprintf("%s:%d", strings.TrimPrefix(pos.Filename, p.Dir+"/"), pos.Line), fmt.Sprintf("%s %s %s, so it cannot be used as a %s", key[:strings.Index(key, " ")], how, m.Name(), short(c.ipkg)+"."+c.iface), "P31")
			continue
		}
		res.ok("implements", key, "P31")
	}
	qual := func(o *types.Package) string { return "" }
	var names []string
	for n := range required {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		i := strings.LastIndex(n, ".")
		pkg := n[:i]
		if pkg == "stream" {
			pkg = ""
		}
		t := lookup(pkg, n[i+1:])
		var it *types.Interface
		if t != nil {
			it, _ = t.Underlying().(*types.Interface)
		}
		if it == nil {
			res.bad("interface-methods", n, "", n+" is no interface any more", "P31")
			continue
		}
		has := map[string]bool{}
		for k := 0; k < it.NumMethods(); k++ {
			m := it.Method(k)
			sig := m.Type().(*types.Signature)
			has[m.Name()+sigString(sig, qual)] = true
		}
		missing := ""
		for _, want := range required[n] {
			if !has[want] {
				missing = want
			}
		}
		if missing != "" {
			res.bad("interface-methods", n, "", fmt.Sprintf("the interface %s does not require %s", n, missing), "P31")
		} else {
			res.ok("interface-methods", n, "P31")
		}
	}
	payloads(p, res)
}

// sigString prints a signature without parameter names.
func sigString(s *types.Signature, q types.Qualifier) string {
	var ps []string
	for i := 0; i < s.Params().Len(); i++ {
		t := types.TypeString(s.Params().At(i).Type(), q)
		if s.Variadic() && i == s.Params().Len()-1 {
			t = "..." + strings.TrimPrefix(t, "[]")
		}
		ps = append(ps, t)
	}
	out := "(" + strings.Join(ps, ", ") + ")"
	var rs []string
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, types.TypeString(s.Results().At(i).Type(), q))
	}
	switch len(rs) {
	case 0:
	case 1:
		out += " " + rs[0]
	default:
		out += " (" + strings.Join(rs, ", ") + ")"
	}
	return out
}

// ---- containers of interface values ----

// payloadFlow finds the concrete types that flow into interface values, through
// assignments, parameters, results, fields and containers, over the whole repository.
type payloadFlow struct {
	p       *Program
	callers map[*ssa.Function][]ssa.CallInstruction
	cg      *calleeMap
	puts    map[string][]put // by container
	fields  map[*types.Var][]ssa.Value
}

type put struct {
	v  ssa.Value
	in ssa.Instruction
}

// container operations by method name: where the payload is
var putMethods = map[string]bool{"Put": true, "Offer": true, "PushBack": true, "PushFront": true, "Push": true, "Enqueue": true}
var getMethods = map[string]bool{"Get": true, "Poll": true, "PopFront": true, "PopBack": true, "Front": true, "Back": true, "At": true, "Pop": true}

func isContainer(t types.Type) bool {
	n := typeName(t)
	for _, k := range []string{"queue.RingBuffer", "deque.Deque", "list.List", "queue.Queue"} {
		if strings.HasSuffix(n, k) {
			return true
		}
	}
	return false
}

func payloads(p *Program, res *Result) {
	fl := &payloadFlow{p: p, callers: map[*ssa.Function][]ssa.CallInstruction{}, cg: newCallees(p), puts: map[string][]put{}, fields: map[*types.Var][]ssa.Value{}}
	fns := repoFuncs(p)
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, g := range fl.cg.call(c.Common()) {
						fl.callers[g] = append(fl.callers[g], c)
					}
				}
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						v := fieldVar(fa)
						fl.fields[v] = append(fl.fields[v], s.Val)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				g := cc.StaticCallee()
				if g == nil {
					continue
				}
				if g.Signature.Recv() != nil && isContainer(g.Signature.Recv().Type()) && putMethods[g.Name()] && len(cc.Args) >= 2 {
					for _, k := range fl.places(cc.Args[0], 0) {
						fl.puts[k] = append(fl.puts[k], put{cc.Args[1], in})
					}
				}
				if g.Pkg != nil && g.Pkg.Pkg.Path() == "container/heap" && g.Name() == "Push" {
					if m := fl.heapMethod(cc.Args[0], "Push"); m != nil {
						fl.callers[m] = append(fl.callers[m], c)
					}
				}
			}
		}
	}
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				a, ok := in.(*ssa.TypeAssert)
				if !ok || a.CommaOk {
					continue
				}
				key := fmt.Sprintf("%s in %s", a.AssertedType.String(), fnName(f))
				ts, complete := fl.concrete(a.X, map[ssa.Value]bool{})
				bad := false
				for t, at := range ts {
					ok := false
					if it, isI := a.AssertedType.Underlying().(*types.Interface); isI {
						ok = types.Implements(t, it)
					} else {
						ok = types.Identical(t, a.AssertedType)
					}
					if !ok {
						bad = true
						where := ""
						if at != nil {
							where = " (put there at " + p.posOf(at) + ")"
						}
						res.bad("payload-type", key, p.posOf(a), fmt.Sprintf("%s asserts %s, but what it takes out may be a %s%s", fnName(f), a.AssertedType, t, where), "P31")
					}
				}
				if bad {
					continue
				}
				if !complete || len(ts) == 0 {
					res.undecided("payload-type", key, "what flows there is not known", "P31")
					continue
				}
				res.ok("payload-type", key, "P31")
			}
		}
	}
}

func fieldVar(fa *ssa.FieldAddr) *types.Var {
	t := fa.X.Type().Underlying()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem().Underlying()
	}
	return t.(*types.Struct).Field(fa.Field)
}

// heapMethod finds the method of the concrete type behind a heap.Interface.
func (fl *payloadFlow) heapMethod(v ssa.Value, name string) *ssa.Function {
	mi, ok := v.(*ssa.MakeInterface)
	if !ok {
		return nil
	}
	if sel := fl.p.Prog.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, name); sel != nil {
		return fl.p.Prog.MethodValue(sel)
	}
	return nil
}

// places names the containers a value may be: the fields it is loaded from.
func (fl *payloadFlow) places(v ssa.Value, depth int) []string {
	if depth > 8 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		if v.Op == token.MUL {
			switch a := v.X.(type) {
			case *ssa.FieldAddr:
				return []string{fieldKey(a)}
			case *ssa.Alloc:
				var out []string
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == a {
						out = append(out, fl.places(s.Val, depth+1)...)
					}
				}
				return out
			}
		}
	case *ssa.FieldAddr: // embedded by value
		return []string{fieldKey(v)}
	case *ssa.Phi:
		var out []string
		for _, e := range v.Edges {
			out = append(out, fl.places(e, depth+1)...)
		}
		return out
	case *ssa.Parameter:
		var out []string
		for i, q := range v.Parent().Params {
			if q == v {
				for _, c := range fl.callers[v.Parent()] {
					if args := c.Common().Args; i < len(args) && !c.Common().IsInvoke() {
						out = append(out, fl.places(args[i], depth+1)...)
					}
				}
			}
		}
		return out
	case *ssa.FreeVar:
		return nil
	case *ssa.Call:
		// a fresh container: the fields it is stored in
		var out []string
		for _, u := range *v.Referrers() {
			if s, ok := u.(*ssa.Store); ok && s.Val == v {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
					out = append(out, fieldKey(fa))
				}
			}
		}
		return out
	}
	return nil
}

func fieldKey(fa *ssa.FieldAddr) string {
	return typeName(fa.X.Type()) + "." + fieldVar(fa).Name()
}

// concrete lists the concrete types an interface value may hold, with where each
// was put in; complete is false when some source is not known.
func (fl *payloadFlow) concrete(v ssa.Value, seen map[ssa.Value]bool) (map[types.Type]ssa.Instruction, bool) {
	out := map[types.Type]ssa.Instruction{}
	if seen[v] {
		return out, true
	}
	seen[v] = true
	complete := true
	merge := func(w ssa.Value, at ssa.Instruction) {
		ts, ok := fl.concrete(w, seen)
		for t, i := range ts {
			if i == nil {
				i = at
			}
			out[t] = i
		}
		complete = complete && ok
	}
	switch v := v.(type) {
	case *ssa.MakeInterface:
		out[v.X.Type()] = nil
	case *ssa.ChangeInterface:
		merge(v.X, nil)
	case *ssa.Phi:
		for _, e := range v.Edges {
			merge(e, nil)
		}
	case *ssa.Const: // nil
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			fl.result(c, v.Index, merge, &complete)
		} else {
			complete = false
		}
	case *ssa.Call:
		fl.result(v, 0, merge, &complete)
	case *ssa.Parameter:
		cs := fl.callers[v.Parent()]
		if len(cs) == 0 {
			complete = false
		}
		for i, q := range v.Parent().Params {
			if q != v {
				continue
			}
			for _, c := range cs {
				args := c.Common().Args
				j := i
				if g := c.Common().StaticCallee(); g != v.Parent() {
					// through an interface, or heap.Push(h, x)
					if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "container/heap" {
						j = 1
					} else {
						j = i - 1
					}
				}
				if j >= 0 && j < len(args) {
					merge(args[j], c)
				} else {
					complete = false
				}
			}
		}
	case *ssa.UnOp:
		if fa, ok := v.X.(*ssa.FieldAddr); ok && v.Op == token.MUL {
			for _, w := range fl.fields[fieldVar(fa)] {
				merge(w, nil)
			}
		} else if al, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			for _, u := range *al.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == al {
					merge(s.Val, nil)
				} else if _, ok := u.(*ssa.UnOp); !ok {
					complete = false
				}
			}
		} else {
			complete = false
		}
	default:
		complete = false
	}
	return out, complete
}

func (fl *payloadFlow) result(c *ssa.Call, idx int, merge func(ssa.Value, ssa.Instruction), complete *bool) {
	g := c.Call.StaticCallee()
	if g == nil {
		*complete = false
		return
	}
	if g.Signature.Recv() != nil && isContainer(g.Signature.Recv().Type()) && getMethods[g.Name()] {
		ks := fl.places(c.Call.Args[0], 0)
		if len(ks) == 0 {
			*complete = false
		}
		for _, k := range ks {
			for _, q := range fl.puts[k] {
				merge(q.v, q.in)
			}
		}
		return
	}
	if g.Pkg != nil && g.Pkg.Pkg.Path() == "container/heap" && (g.Name() == "Pop" || g.Name() == "Remove") {
		if m := fl.heapMethod(c.Call.Args[0], "Pop"); m != nil && len(m.Blocks) > 0 {
			returns(m, 0, merge)
			return
		}
		*complete = false
		return
	}
	if inRepo(g) && len(g.Blocks) > 0 {
		returns(g, idx, merge)
		return
	}
	*complete = false
}

func returns(g *ssa.Function, idx int, merge func(ssa.Value, ssa.Instruction)) {
	for _, b := range g.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(r.Results) {
			merge(r.Results[idx], nil)
		}
	}
}
