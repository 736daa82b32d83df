package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// repoFunctions lists the declared functions and methods of a program by name.
func (p *Program) repoFunctions() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	add := func(f *ssa.Function) {
		if f != nil && len(f.Blocks) > 0 && f.Synthetic == "" && f.TypeParams().Len() == 0 {
			out[fnName(f)] = f
		}
	}
	for _, pkg := range p.Pkgs {
		sp := p.SSA[relPkg(pkg.PkgPath)]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			}
		}
		sc := pkg.Types.Scope()
		for _, n := range sc.Names() {
			for _, f := range p.methodsOf(relPkg(pkg.PkgPath), n) {
				add(f)
			}
		}
	}
	return out
}

func callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	var scan func(g *ssa.Function)
	scan = func(g *ssa.Function) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if s := c.Common().StaticCallee(); s != nil && s.Parent() == nil {
						out = append(out, s)
					}
				}
				if mc, ok := in.(*ssa.MakeClosure); ok {
					scan(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	scan(f)
	return out
}

// reach is the set of repository functions that f may call statically.
func reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := callees(f)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] || !inRepo(g) {
			continue
		}
		seen[g] = true
		work = append(work, callees(g)...)
	}
	return seen
}

// status is the outcome of comparing one function with its reference.
type status struct {
	name     string
	impl     *ssa.Function
	spec     *ssa.Function
	ok       bool
	diffs    []mismatch
	err      error
	mode     string
	exported bool
	secs     float64
	bounded  int // equal where loops make at most so many iterations
}

// assumable: nothing definite was found against the function. Its callers are
// compared as if it were equal; what it does itself stays undecided.
func (s *status) assumable() bool {
	if s.ok {
		return true
	}
	if s.impl == nil || !sameSignature(s.impl, s.spec) {
		return false
	}
	for _, d := range s.diffs {
		if !d.unsure {
			return false
		}
	}
	return true
}

// pairing compares the functions of the code with those of the reference
// program, callees first.
type pairing struct {
	pi, ps *Program
	mi, ms *Machine
	fi, fs map[string]*ssa.Function
	st     map[string]*status
	order  []string
	rec    map[string]bool
	al     *alignment
}

func newPairing(pi, ps *Program) *pairing {
	p := &pairing{pi: pi, ps: ps, mi: newMachine(pi), ms: newMachine(ps), fi: pi.repoFunctions(), fs: ps.repoFunctions(),
		st: map[string]*status{}, rec: map[string]bool{}}
	p.al = alignTypes(pi, ps)
	p.mi.canon = alignFuncs(p.fi, p.fs)
	p.ms.allocN = refAllocBase
	p.mi.deadline, p.ms.deadline = machDeadline, machDeadline
	// callees first
	byFn := map[*ssa.Function]string{}
	for n, f := range p.fs {
		byFn[f] = n
		if reach(f)[f] {
			p.rec[n] = true
		}
	}
	var names []string
	for n := range p.fs {
		names = append(names, n)
	}
	sort.Strings(names)
	done := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if done[n] {
			return
		}
		done[n] = true
		var cs []string
		for _, c := range callees(p.fs[n]) {
			if m, ok := byFn[c]; ok {
				cs = append(cs, m)
			}
		}
		sort.Strings(cs)
		for _, c := range cs {
			visit(c)
		}
		p.order = append(p.order, n)
	}
	for _, n := range names {
		visit(n)
	}
	return p
}

func sameSignature(a, b *ssa.Function) bool {
	same := func(x, y *types.Tuple) bool {
		if x.Len() != y.Len() {
			return false
		}
		for i := 0; i < x.Len(); i++ {
			if tkey(x.At(i).Type()) != tkey(y.At(i).Type()) {
				return false
			}
		}
		return true
	}
	return len(a.Params) == len(b.Params) && a.Signature.Variadic() == b.Signature.Variadic() &&
		same(a.Signature.Params(), b.Signature.Params()) && same(a.Signature.Results(), b.Signature.Results())
}

// trivial: a few instructions that change nothing, so that calls are simpler when
// followed.
func trivial(f *ssa.Function, depth int) bool {
	if depth > 2 || len(f.Blocks) == 0 || len(f.Blocks) > 5 || f.Recover != nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return false
			}
		}
		for _, in := range b.Instrs {
			n++
			switch in := in.(type) {
			case *ssa.FieldAddr, *ssa.UnOp, *ssa.BinOp, *ssa.Return, *ssa.If, *ssa.Jump, *ssa.Phi, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			case *ssa.Call:
				g := in.Call.StaticCallee()
				if g == nil || !inRepo(g) || !trivial(g, depth+1) {
					return false
				}
			default:
				return false
			}
		}
	}
	return n <= 16
}

// setOpaque selects the functions that calls are not followed into.
func (p *pairing) setOpaque(modular bool) {
	p.mi.opaque, p.ms.opaque = map[*ssa.Function]string{}, map[*ssa.Function]string{}
	for n, s := range p.fs {
		i := p.fi[n]
		rec := p.rec[n]
		if i == nil {
			if rec {
				p.ms.opaque[s] = n
			}
			continue
		}
		st := p.st[n]
		if !rec && !(modular && st != nil && st.assumable()) {
			continue
		}
		if !rec && trivial(s, 0) && trivial(i, 0) {
			continue
		}
		ei, es := p.mi.effects(i), p.ms.effects(s)
		if ei.bad != "" || es.bad != "" {
			continue
		}
		p.mi.peer[i], p.ms.peer[s] = es, ei
		pr := p.ms.plainResults(s)
		p.mi.plain[i], p.ms.plain[s] = pr, pr
		p.mi.opaque[i], p.ms.opaque[s] = n, n
		if len(es.writes) > 0 && len(s.Blocks) > 1 && (st == nil || st.ok) {
			activeOps[n] = true
			ts := map[string]bool{}
			for _, e := range []*effects{ei, es} {
				for k := range e.reads {
					ts[k] = true
				}
				for k := range e.writes {
					ts[k] = true
				}
			}
			opTouches[n] = ts
		} else {
			delete(activeOps, n)
		}
	}
}

// compare decides one function.
func (p *pairing) compare(n string) *status {
	s := p.compareModes(n)
	if !s.ok && s.impl != nil && strings.HasPrefix(strings.TrimPrefix(n, "(*"), "quantile/ost/avl.") {
		// with what holds of the sizes in the trees of the code
		sizeInv = true
		t := p.compareModes(n)
		sizeInv = false
		t.secs += s.secs
		if t.ok {
			return t
		}
		p.st[n] = s
	}
	if s.ok || s.impl == nil || !sameSignature(s.impl, s.spec) {
		return s
	}
	start := time.Now()
	defer func() { s.secs += time.Since(start).Seconds() }()
	sure := false
	loopy := s.err != nil
	for _, d := range s.diffs {
		sure = sure || !d.unsure
		loopy = loopy || d.loopy
	}
	if sure && !loopy {
		return s
	}
	found := false // a difference that may be due to the calls not followed
	for _, modular := range []bool{true, false} {
		depths := unrollDepths
		if !modular {
			// with everything inlined, the shallowest runs are cheap
			depths = append([]int{1}, depths...)
		}
		for _, k := range depths {
			if k <= s.bounded {
				continue
			}
			ds, exact, err := p.compareUnrolled(s, k, modular, unrollBudget)
			if os.Getenv("DBGMODE") != "" {
				fmt.Println("UNROLLED", modular, k, n, exact, err)
				for _, d := range ds {
					fmt.Println("    ", d.unsure, d)
				}
			}
			if err != nil {
				break
			}
			if len(ds) == 0 && exact {
				s.ok, s.diffs, s.err, s.mode = true, nil, nil, "unrolled"
				return s
			}
			if len(ds) == 0 {
				// the two agree as far as they were followed
				s.bounded = k
				for i := range s.diffs {
					s.diffs[i].unsure = true
				}
				continue
			}
			any := false
			for _, d := range ds {
				any = any || !d.unsure && !d.ops
			}
			if any {
				for i := range ds {
					// what depends on calls that were not followed is not definite
					ds[i].unsure = ds[i].unsure || ds[i].ops
				}
				s.diffs, s.err = ds, nil
				s.mode = fmt.Sprintf("first %d iterations", k)
				return s
			}
			found = true
			break
		}
		if s.bounded > 0 && !found {
			break
		}
	}
	return s
}

func (p *pairing) compareModes(n string) *status {
	s := &status{name: n, spec: p.fs[n], impl: p.fi[n]}
	p.st[n] = s
	s.exported = s.spec.Object() != nil && s.spec.Object().Exported()
	start := time.Now()
	defer func() { s.secs = time.Since(start).Seconds() }()
	if s.impl == nil {
		s.err = fmt.Errorf("no function of this name in the code")
		return s
	}
	if !sameSignature(s.impl, s.spec) {
		s.err = fmt.Errorf("its signature is %s in the code and %s in the reference", tkey(s.impl.Signature), tkey(s.spec.Signature))
		return s
	}
	if os.Getenv("CHECKER_FAST") != "" && p.sameText(n) {
		s.ok = true
		return s
	}
	for _, mode := range []string{"modular", "inlined"} {
		p.setOpaque(mode == "modular")
		deadline = time.Now().Add(fnBudget)
		ds, err := compareFn(p.mi, p.ms, s.impl, s.spec, p.ms.invariant(s.spec), p.al)
		deadline = time.Time{}
		s.mode = mode
		if os.Getenv("DBGMODE") != "" && (err != nil || len(ds) > 0) {
			fmt.Println("MODE", mode, n, err)
			for _, d := range ds {
				fmt.Println("    ", d.unsure, d)
			}
		}
		if err == nil && len(ds) == 0 {
			s.ok, s.diffs, s.err = true, nil, nil
			return s
		}
		if mode == "inlined" && err != nil && s.diffs != nil {
			return s // keep what the modular comparison found
		}
		s.diffs, s.err = ds, err
	}
	return s
}

// cmpMain compares every function with its reference (development aid).
func cmpMain(repo, verif string, pats []string) {
	pi, err := load(repo, nil)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	ps, err := load(filepath.Join(verif, "spec"), nil)
	if err != nil {
		fmt.Println("ERROR", err)
		os.Exit(2)
	}
	p := newPairing(pi, ps)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	want := map[string]bool{}
	byFn := map[*ssa.Function]string{}
	for n, f := range p.fs {
		byFn[f] = n
	}
	for n, f := range p.fs {
		keep := len(pats) == 0
		for _, q := range pats {
			if strings.HasPrefix(q, "-") && strings.Contains(n, q[1:]) {
				keep = false
				break
			}
			if strings.Contains(n, q) {
				keep = true
			}
		}
		if keep {
			want[n] = true
			for g := range reach(f) {
				if m, ok := byFn[g]; ok {
					want[m] = true
				}
			}
		}
	}
	nOK, nDiff, nUnd := 0, 0, 0
	for _, n := range p.order {
		if !want[n] {
			continue
		}
		s := p.compare(n)
		if os.Getenv("SUBTREES") != "" && strings.HasPrefix(n, "(*quantile/ost/") {
			f := p.fi[n]
			got, paths, gu := runSubtrees(f, seqEffect[n[strings.LastIndexByte(n, '.')+1:]], func(f *ssa.Function) string {
				for m, g := range p.fi {
					if g == f {
						return seqEffect[m[strings.LastIndexByte(m, '.')+1:]]
					}
				}
				return ""
			})
			fmt.Println("SUBTREES", n, paths, got, gu)
		}
		t := ""
		if s.secs > 0.5 {
			t = fmt.Sprintf(" (%.1fs)", s.secs)
		}
		switch {
		case s.err != nil:
			nUnd++
			fmt.Println("UNDECIDED", n, s.err, t)
		case len(s.diffs) > 0:
			nDiff++
			fmt.Println("DIFF     ", n, s.mode, t)
			for _, d := range s.diffs {
				fmt.Println("         ", d)
			}
		default:
			nOK++
			if t != "" || len(pats) > 0 {
				fmt.Println("ok       ", n, s.mode, t)
			}
		}
	}
	fmt.Println(nOK, "ok", nDiff, "differ", nUnd, "undecided; terms", len(termList), "vals", valCount)
}

// bodyText is the SSA text of a function and its closures (development aid).
func bodyText(f *ssa.Function) string {
	var b strings.Builder
	var w func(g *ssa.Function)
	w = func(g *ssa.Function) {
		var t strings.Builder
		g.WriteTo(&t)
		for _, l := range strings.Split(t.String(), "\n") {
			if !strings.HasPrefix(l, "#") {
				b.WriteString(l + "\n")
			}
		}
		for _, a := range g.AnonFuncs {
			w(a)
		}
	}
	w(f)
	return b.String()
}

// sameText reports whether f and all it calls are written as in the reference.
func (p *pairing) sameText(n string) bool {
	i, s := p.fi[n], p.fs[n]
	if i == nil || bodyText(i) != bodyText(s) {
		return false
	}
	ri := map[string]string{}
	for g := range reach(i) {
		ri[fnName(g)] = bodyText(g)
	}
	rs := reach(s)
	if len(ri) != len(rs) {
		return false
	}
	for g := range rs {
		if ri[fnName(g)] != bodyText(g) {
			return false
		}
	}
	return true
}
