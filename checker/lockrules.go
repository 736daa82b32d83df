package main

// lockrules.go: the rules decided from the walks of walk.go.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// metricTypes are the types whose API is meant for concurrent use: those with
// a mutex of their own and those with a Push method.
func metricTypes(p *Program) []*types.Named {
	var out []*types.Named
	for _, n := range p.structTypes() {
		st := n.Underlying().(*types.Struct)
		ok := false
		for i := 0; i < st.NumFields(); i++ {
			if isMutexType(st.Field(i).Type()) {
				ok = true
			}
		}
		if o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), "Push"); o != nil {
			if f, isF := o.(*types.Func); isF && strings.Contains(f.Type().String(), "float64") {
				ok = true
			}
		}
		if ok {
			out = append(out, n)
		}
	}
	return out
}

func exportedMethods(p *Program, n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := p.Prog.MethodSets.MethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() {
			continue
		}
		fn := p.Prog.MethodValue(ms.At(i))
		if fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// allExported lists every exported function and method of the repository.
func allExported(p *Program) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, pkg := range p.Pkgs {
		sp := p.SSA[relPkg(pkg.PkgPath)]
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Object() != nil && m.Object().Exported() && len(m.Blocks) > 0 && !seen[m] {
					seen[m] = true
					out = append(out, m)
				}
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				if _, ok := n.Underlying().(*types.Interface); ok {
					continue
				}
				for _, fn := range exportedMethods(p, n) {
					if !seen[fn] {
						seen[fn] = true
						out = append(out, fn)
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return fnName(out[i]) < fnName(out[j]) })
	return out
}

// recvName is the receiver's type, "" for functions.
func recvName(fn *ssa.Function) string {
	if r := fn.Signature.Recv(); r != nil {
		return typeName(r.Type())
	}
	return ""
}

var lockMethods = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true}

// readOnly names the queries of the API: they report and do not change.
var readOnly = map[string]bool{
	"Value": true, "Values": true, "String": true, "Count": true, "Mean": true, "Sum": true,
	"UnsafeCount": true, "UnsafeMean": true, "UnsafeSum": true, "Config": true, "IsSetCore": true,
	"Sample": true, "Size": true, "Select": true, "Rank": true, "Height": true, "Left": true,
	"Right": true, "Color": true, "TreeString": true, "Len": true, "Less": true, "Peek": true, "Valid": true,
}

// callerParam reports whether a parameter is memory that stays the caller's:
// slices, maps and configs. Cores, wrappers and items are handed over by design.
func callerParam(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Map:
		return true
	case *types.Pointer:
		if _, ok := u.Elem().Underlying().(*types.Struct); ok {
			return strings.HasSuffix(typeName(t), "Config")
		}
		_, ok := u.Elem().Underlying().(*types.Basic)
		return ok
	}
	return false
}

func analyseWalks(p *Program, res *Result) {
	metrics := map[string]bool{}
	for _, n := range metricTypes(p) {
		metrics[typeName(n)] = true
	}
	entries := allExported(p)
	var walks []*walker
	for _, fn := range entries {
		walks = append(walks, walkEntry(p, fn))
	}
	fns := map[*ssa.Function]bool{}
	acq := map[string]bool{}
	for _, w := range walks {
		for f := range w.fnsSeen {
			fns[f] = true
		}
		for a := range w.acquires {
			acq[a] = true
		}
		res.count("abstract accesses", len(w.accesses))
	}
	res.count("entry points walked", len(walks))
	res.count("functions walked", len(fns))
	res.count("lock acquisition sites", len(acq))

	// self-test of the rules with an expected count of zero: the walk must see
	// the locks at all
	if len(acq) < 10 {
		res.undecided("lockset", "lock acquisition sites", fmt.Sprintf("only %d lock acquisition sites found", len(acq)), "P01", "P02", "P03")
	}

	// concurrent: may run concurrently with one another on one object
	concurrent := func(w *walker) bool {
		n := w.entry.Name()
		return metrics[recvName(w.entry)] && !strings.HasPrefix(n, "Unsafe") && n != "SetCore" && !lockMethods[n]
	}

	raceRule(p, walks, concurrent, res)
	goroutineRule(walks, res)

	for _, w := range walks {
		key := w.name
		name := w.entry.Name()
		isMetric := metrics[recvName(w.entry)]

		if w.unsure != "" {
			res.undecided("lockset", key, w.unsure, "P01", "P02", "P03")
			effectRules(p, w, res, isMetric)
			continue
		}

		// deadlock freedom: re-acquisition, release on every exit
		rules := map[string]bool{}
		for _, f := range sortedFinds(w) {
			rules[f.rule] = true
			prop := "P02"
			if f.rule == "goroutine-add" {
				prop = "P24"
			}
			res.bad(f.rule, f.key, f.where, f.msg, prop)
		}
		if len(w.acquires) > 0 {
			if !rules["reacquire"] {
				res.ok("no-reacquire", key, "P02")
			}
			if !rules["release"] {
				res.ok("balanced-unlock", key, "P02")
			}
		}
		for _, s := range w.retState.list() {
			var locks []string
			for l := range s.held {
				locks = append(locks, l)
			}
			sort.Strings(locks)
			for _, l := range locks {
				h := s.held[l]
				wantW, wantR := 0, 0
				if isMetric && name == "Lock" {
					wantW = 1
				}
				if isMetric && name == "RLock" {
					wantR = 1
				}
				if h.w != wantW || h.r != wantR {
					res.bad("held-at-exit", key+" "+l, p.fnPos(w.entry), fmt.Sprintf("%s may return holding %s (%d write, %d read) instead of (%d, %d)", key, l, h.w, h.r, wantW, wantR), "P02")
				} else {
					res.ok("held-at-exit", key+" "+l, "P02")
				}
			}
			if w.noJoin != "" {
				res.undecided("goroutine-join", key, w.noJoin, "P24", "P01")
			} else if len(s.live) > 0 {
				res.bad("goroutine-join", key, p.fnPos(w.entry), "may return while goroutines it started are still running", "P24", "P01")
			} else if len(w.threads) > 0 {
				res.ok("goroutine-join", key, "P24", "P01")
			}
		}
		if isMetric && lockMethods[name] {
			// the exported lock methods act on the object's own mutex
			if name == "Lock" || name == "RLock" {
				if len(w.acquires) == 1 {
					res.ok("lock-method", key, "P02")
				} else {
					res.bad("lock-method", key, p.fnPos(w.entry), fmt.Sprintf("%s makes %d acquisitions instead of 1", key, len(w.acquires)), "P02")
				}
			}
		}
		if strings.HasPrefix(name, "Unsafe") {
			shared := 0
			for a := range w.acquires {
				if !strings.HasPrefix(a, "F:") {
					shared++
				}
			}
			if shared > 0 {
				res.bad("unsafe-does-not-lock", key, p.fnPos(w.entry), "acquires a lock that its caller already holds", "P02")
			} else {
				res.ok("unsafe-does-not-lock", key, "P02")
			}
		}

		if concurrent(w) {
			sectionRule(p, w, res)
		}
		effectRules(p, w, res, isMetric)
	}
}

func sortedFinds(w *walker) []finding {
	var ks []string
	for k := range w.finds {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []finding
	for _, k := range ks {
		out = append(out, w.finds[k])
	}
	return out
}

func sortedAccesses(w *walker) []*access {
	var ks []string
	for k := range w.accesses {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := w.accesses[ks[i]], w.accesses[ks[j]]
		if a.loc != b.loc {
			return a.loc < b.loc
		}
		if a.where != b.where {
			return a.where < b.where
		}
		if a.write != b.write {
			return a.write
		}
		return ks[i] < ks[j]
	})
	var out []*access
	for _, k := range ks {
		out = append(out, w.accesses[k])
	}
	return out
}

// raceRule: every location of shared state that some operation writes is
// accessed by all operations under one common lock, held exclusively for
// writes.
func raceRule(p *Program, walks []*walker, concurrent func(*walker) bool, res *Result) {
	byLoc := map[string][]*access{}
	for _, w := range walks {
		if !concurrent(w) || w.unsure != "" {
			continue
		}
		for _, a := range sortedAccesses(w) {
			if a.region == "R" {
				byLoc[a.loc] = append(byLoc[a.loc], a)
			}
		}
	}
	var locs []string
	for l := range byLoc {
		locs = append(locs, l)
	}
	sort.Strings(locs)
	guarded := 0
	for _, l := range locs {
		as := byLoc[l]
		written := false
		cnt := map[string]int{}
		for _, a := range as {
			if a.write {
				written = true
			}
			for k := range a.locks {
				cnt[k]++
			}
		}
		if !written {
			continue
		}
		best, bestN := "", 0
		for _, k := range sortedKeys(cnt) {
			if cnt[k] > bestN {
				best, bestN = k, cnt[k]
			}
		}
		if bestN == len(as) {
			guarded++
			res.ok("lockset", l+" guarded by "+best, "P01")
			continue
		}
		done := map[string]bool{}
		for _, a := range as {
			if best != "" && a.locks[best] || done[a.where] {
				continue
			}
			done[a.where] = true
			kind := "read"
			if a.write {
				kind = "write"
			}
			res.bad("lockset", l+" in "+a.fn, a.where, fmt.Sprintf("%s of %s in %s (entry %s) without %s held for a %s, which %d of %d accesses hold", kind, l, a.fn, a.entry, best, kind, bestN, len(as)), "P01")
		}
	}
	res.count("guarded shared locations", guarded)
	if guarded < 10 {
		res.undecided("lockset", "guarded locations", fmt.Sprintf("only %d guarded shared locations found", guarded), "P01")
	}
}

func sortedKeys(m map[string]int) []string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return s
}

// goroutineRule: variables shared between a function and the goroutines it
// starts are accessed under a common lock while the goroutines run.
func goroutineRule(walks []*walker, res *Result) {
	n := 0
	for _, w := range walks {
		if len(w.threads) == 0 {
			continue
		}
		if why := w.unsure + w.noJoin; why != "" {
			res.undecided("goroutine-lockset", w.name, why, "P01", "P24")
			continue
		}
		byLoc := map[string][]*access{}
		for _, a := range sortedAccesses(w) {
			if strings.HasPrefix(a.region, "F:") && !strings.HasPrefix(a.region, "F:go:") {
				byLoc[a.region+"|"+a.loc] = append(byLoc[a.region+"|"+a.loc], a)
			}
		}
		var locs []string
		for l := range byLoc {
			locs = append(locs, l)
		}
		sort.Strings(locs)
		for _, l := range locs {
			as := byLoc[l]
			inThread, bad := false, false
			for _, a := range as {
				if a.thread != nil {
					inThread = true
				}
			}
			if !inThread {
				continue
			}
			n++
			for i, a := range as {
				for j, b := range as {
					if j < i || bad || !(a.write || b.write) {
						continue
					}
					if !mayOverlap(a, b) || disjoint(a, b) {
						continue
					}
					common := false
					for k := range a.locks {
						if b.locks[k] {
							common = true
						}
					}
					if !common {
						bad = true
						res.bad("goroutine-lockset", a.loc, a.where, fmt.Sprintf("access of %s may race with the access at %s while goroutines run", a.loc, b.where), "P01", "P24")
					}
				}
			}
			if !bad {
				res.ok("goroutine-lockset", as[0].loc, "P01", "P24")
			}
		}
		res.count("goroutine launch sites", len(w.threads))
	}
	res.count("variables shared with goroutines", n)
}

func mayOverlap(a, b *access) bool {
	switch {
	case a.thread == nil && b.thread == nil:
		return false
	case a.thread != nil && b.thread != nil:
		return true
	case a.thread != nil:
		a, b = b, a
	}
	// a in the spawning function, b in a goroutine
	for _, g := range a.live {
		if g == b.thread {
			return true
		}
	}
	return false
}

// sectionRule: the state that flows into a returned value is read in one
// critical section, and a mutation is one critical section.
func sectionRule(p *Program, w *walker, res *Result) {
	if w.rets != nil {
		bad := false
		for l, i := range lockIndex {
			bits := w.rets.secs >> uint((i%10)*3) & 7
			if bits&(bits-1) != 0 {
				bad = true
				res.bad("one-snapshot", w.name+" "+l, p.fnPos(w.entry), fmt.Sprintf("the result of %s combines state read in different critical sections of %s", w.name, l), "P03")
			}
		}
		if !bad && w.rets.secs != 0 {
			res.ok("one-snapshot", w.name, "P03")
		}
	}
	secs := map[string]uint32{}
	writes := false
	for _, a := range sortedAccesses(w) {
		if a.thread != nil || a.region != "R" {
			continue
		}
		if a.write {
			writes = true
		}
		for l, i := range lockIndex {
			secs[l] |= a.sec >> uint((i%10)*3) & 7
		}
	}
	if !writes {
		return
	}
	bad := false
	for l, bits := range secs {
		if bits&(bits-1) != 0 {
			bad = true
			res.bad("one-critical-section", w.name+" "+l, p.fnPos(w.entry), fmt.Sprintf("%s changes state in more than one critical section of %s", w.name, l), "P03")
		}
	}
	if !bad {
		res.ok("one-critical-section", w.name, "P03")
	}
}

// effectRules: no writes to package-level state, no writes to or retention of
// caller memory, queries do not modify, results do not alias internal state.
func effectRules(p *Program, w *walker, res *Result, isMetric bool) {
	key := w.name
	pt := map[string]types.Type{}
	for _, prm := range w.entry.Params {
		pt[prm.Name()] = prm.Type()
	}
	heapPkg := w.entry.Pkg != nil && relPkg(w.entry.Pkg.Pkg.Path()) == "quantile/heap"
	badG, badP, badR, hasP := false, false, false, false
	for i, prm := range w.entry.Params {
		if i == 0 && w.entry.Signature.Recv() != nil {
			continue
		}
		if callerParam(prm.Type()) {
			hasP = true
		}
	}
	for _, a := range sortedAccesses(w) {
		if !a.write {
			continue
		}
		switch {
		case strings.HasPrefix(a.region, "G:"), strings.HasPrefix(a.region, "G?:"):
			badG = true
			res.bad("no-global-write", a.region[strings.Index(a.region, ":")+1:]+" in "+a.fn, a.where, fmt.Sprintf("%s (entry %s) writes package-level state %s, which all instances share", a.fn, key, a.loc), "P04")
		case strings.HasPrefix(a.region, "P:"), strings.HasPrefix(a.region, "P?:"):
			name := a.region[strings.Index(a.region, ":")+1:]
			t := pt[name]
			if t == nil || !callerParam(t) || heapPkg {
				continue
			}
			badP = true
			res.bad("no-caller-write", name+" in "+key, a.where, fmt.Sprintf("%s writes to memory of its caller (parameter %s, %s)", a.fn, name, a.loc), "P05")
		case a.region == "R" && readOnly[w.entry.Name()]:
			badR = true
			res.bad("query-does-not-write", a.loc+" in "+key, a.where, fmt.Sprintf("the query %s modifies %s in %s", key, a.loc, a.fn), "P33")
		}
	}
	if !badG {
		res.ok("no-global-write", key, "P04")
	}
	if hasP && !badP {
		res.ok("no-caller-write", key, "P05")
	}
	if readOnly[w.entry.Name()] && w.entry.Signature.Recv() != nil && !badR {
		res.ok("query-does-not-write", key, "P33")
	}
	if !heapPkg {
		badT := false
		var ks []string
		for k := range w.retains {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			name := strings.TrimPrefix(strings.SplitN(k, "->", 2)[0], "P:")
			if t := pt[name]; t != nil && callerParam(t) {
				badT = true
				res.bad("no-retention", name+" in "+key, w.retains[k], fmt.Sprintf("%s keeps memory of its caller (parameter %s) in %s", key, name, strings.SplitN(k, "->", 2)[1]), "P05")
			}
		}
		// memory of the caller inside the returned object
		if w.rets != nil {
			for _, pr := range w.reachable(w.rets) {
				if !strings.HasPrefix(pr.region, "P:") {
					continue
				}
				name := pr.region[2:]
				t := pt[name]
				if t == nil || !callerParam(t) || pr.path != "*"+name {
					continue
				}
				if w.returnsParam(name) {
					continue
				}
				badT = true
				res.bad("no-retention", name+" in "+key, p.fnPos(w.entry), fmt.Sprintf("the object that %s returns refers to memory of the caller (parameter %s)", key, name), "P05")
			}
		}
		if hasP && !badT {
			res.ok("no-retention", key, "P05")
		}
	}
	// results
	if w.entry.Signature.Recv() != nil && w.rets != nil {
		sig := w.entry.Signature.Results()
		for i := 0; i < sig.Len(); i++ {
			switch sig.At(i).Type().Underlying().(type) {
			case *types.Slice, *types.Map:
				alias := false
				for pr := range w.rets.ptrs {
					if pr.region == "R" {
						alias = true
					}
				}
				if alias {
					res.bad("result-is-a-copy", key, p.fnPos(w.entry), fmt.Sprintf("%s returns a slice or map that aliases the object's state", key), "P05")
				} else {
					res.ok("result-is-a-copy", key, "P05")
				}
			}
		}
	}
}

// returnsParam: the function returns the parameter itself (MergeConfigs of one
// config), which makes no new object that would keep it.
func (w *walker) returnsParam(name string) bool {
	for p := range w.rets.ptrs {
		if p.region == "P:"+name {
			return true
		}
	}
	return false
}

// reachable lists what the memory allocated by the entry refers to, from a
// value.
func (w *walker) reachable(a *aval) []aptr {
	seen := map[string]bool{}
	out := map[aptr]bool{}
	var visit func(a *aval)
	visit = func(a *aval) {
		for p := range a.ptrs {
			out[p] = true
			if strings.HasPrefix(p.region, "F:") && !seen[p.region] {
				seen[p.region] = true
				for q, c := range w.mem {
					if q.region == p.region {
						visit(c)
					}
				}
			}
		}
	}
	visit(a)
	o := newAval()
	o.ptrs = out
	return o.sortedPtrs()
}
