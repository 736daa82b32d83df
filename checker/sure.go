package main

import (
	"go/token"
	"go/types"
	"runtime/metrics"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A difference between normal forms is reported only when it is a definite one.
// Straight-line code has canonical forms, so a difference there is a difference
// of behaviour. Loops without a closed form do not: the same loop may be written
// with other variables. There a difference counts when the two loops agree but
// for one place, and that place is itself definite.

// loopAux: binders that stand for loops.
func loopAux(t *Term) bool {
	if t.op != "bind" {
		return false
	}
	for _, p := range []string{"while", "fold", "looppanic", "exists:", "sum:", "prod:", "first:"} {
		if strings.HasPrefix(t.aux, p) {
			return true
		}
	}
	return false
}

func isOp(t *Term) bool {
	return t.op == "app" && (strings.HasPrefix(t.aux, "op:") || strings.HasPrefix(t.aux, "opmem:"))
}

var loopishM = map[*Term]bool{}

// loopish: contains a loop or a call that was not followed.
func loopish(t *Term) bool {
	if r, ok := loopishM[t]; ok {
		return r
	}
	r := false
	for _, x := range collectTerms(leaf(t)) {
		if loopAux(x) || isOp(x) {
			r = true
			break
		}
	}
	loopishM[t] = r
	return r
}

func loopishV(v *Val) bool {
	for _, x := range collectTerms(v) {
		if loopAux(x) || isOp(x) {
			return true
		}
	}
	return false
}

// subjects of the decisions of a graph.
func subjectsOf(v *Val, out map[*Term]bool, seen map[*Val]bool) {
	if v == nil || v.leaf != nil || seen[v] {
		return
	}
	seen[v] = true
	out[v.subj.t] = true
	for _, k := range v.kids {
		subjectsOf(k, out, seen)
	}
	subjectsOf(v.nan, out, seen)
}

// pathUnsure: the decisions on the path that only one side makes, when they
// cannot be related to those of the other side.
func (c *comparer) pathUnsure(care, x, y *Val, path []cons) bool {
	sx, sy := map[*Term]bool{}, map[*Term]bool{}
	subjectsOf(x, sx, map[*Val]bool{})
	subjectsOf(y, sy, map[*Val]bool{})
	subjectsOf(care, sy, map[*Val]bool{})
	// decisions of one side alone, which may stand for a call that the other did not follow
	rx, ry := map[*Term]bool{}, map[*Term]bool{}
	subjectsOf(x, rx, map[*Val]bool{})
	subjectsOf(y, ry, map[*Val]bool{})
	var a, b []*Term
	plainA, plainB := false, false
	for _, k := range path {
		t := k.s.t
		if !loopish(t) {
			plainA = plainA || rx[t] && !ry[t]
			plainB = plainB || ry[t] && !rx[t]
			continue
		}
		if t.op == "bind" && t.aux == "looppanic" && !(sx[t] && sy[t]) {
			if k.lo == nil && !rx[t] && !ry[t] {
				continue // the reference does not panic
			}
			return true
		}
		if sx[t] && !sy[t] {
			a = append(a, t)
		}
		if sy[t] && !sx[t] {
			b = append(b, t)
		}
	}
	if len(b) > 0 && plainA && anyOp(b) || len(a) > 0 && plainB && anyOp(a) {
		return true
	}
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	if len(a) == 1 && len(b) == 1 {
		n, vague := c.places(a[0], b[0], 0)
		return vague || n > 1
	}
	return true
}

func anyOp(ts []*Term) bool {
	for _, t := range ts {
		for _, u := range collectTerms(leaf(t)) {
			if isOp(u) {
				return true
			}
		}
	}
	return false
}

// places counts where two terms differ; vague: in a way that may be a different
// way to write the same.
func (c *comparer) places(x, y *Term, depth int) (n int, vague bool) {
	if x == y {
		return 0, false
	}
	if depth > 12 {
		return 1, true
	}
	lx, ly := loopish(x), loopish(y)
	if !lx && !ly {
		return 1, false
	}
	if x.op == "num" || y.op == "num" {
		return c.numPlaces(x, y, depth)
	}
	if longer(x, y) || longer(y, x) {
		return 1, false
	}
	if x.op != y.op || x.aux != y.aux || len(x.args) != len(y.args) || len(x.vals) != len(y.vals) {
		if loopAux(x) && loopAux(y) || isOp(x) != isOp(y) || lx != ly && (loopAux(x) || loopAux(y)) && !isPlain(x) && !isPlain(y) {
			return 1, true
		}
		if lx && ly {
			return 1, true
		}
		return 1, false
	}
	if c.eq(x, y, nil) == vTrue {
		return 0, false
	}
	if x.op == "app" {
		for i := range x.args {
			if isAlloc(x) && i == 0 {
				continue
			}
			m, v := c.places(x.args[i], y.args[i], depth+1)
			n += m
			vague = vague || v
			if m > 0 && isOp(x) && i >= opArgs(x) && besideArgs(x, x.args[i], y.args[i]) {
				vague = true // the call need not look at what differs
			}
		}
		return n, vague
	}
	if x.op != "bind" {
		return 1, false
	}
	// a binder: relate the components of loops by what they start with
	ax, ay := x.args, y.args
	bx, by := bindSyms[x], bindSyms[y]
	if len(bx) != len(by) {
		return 1, true
	}
	perm := make([]int, len(y.vals))
	for i := range perm {
		perm[i] = i
	}
	if strings.HasPrefix(x.aux, "while") || strings.HasPrefix(x.aux, "fold") {
		k := len(x.args) - 1 // components
		used := make([]bool, k)
		for i := 0; i < k; i++ {
			perm[i] = -1
			for j := 0; j < k; j++ {
				if !used[j] && ax[i+1] == ay[j+1] {
					perm[i] = j
					used[j] = true
					break
				}
			}
		}
		for i := 0; i < k; i++ {
			for j := 0; perm[i] < 0 && j < k; j++ {
				if !used[j] {
					perm[i] = j
					used[j] = true
				}
			}
		}
		s := valSubst{}
		for i := 0; i < k; i++ {
			if bx[i] != by[perm[i]] {
				s[by[perm[i]]] = leafOf(bx[i])
			}
		}
		for i := k; i < len(bx); i++ {
			if bx[i] != by[i] {
				s[by[i]] = leafOf(bx[i])
			}
		}
		m, v := c.places(ax[0], ay[0], depth+1)
		n, vague = n+m, vague || v
		for i := 0; i < k; i++ {
			m, v := c.places(ax[i+1], ay[perm[i]+1], depth+1)
			n, vague = n+m, vague || v
		}
		for i := range x.vals {
			j := i
			if i < k {
				j = perm[i]
			}
			m, v := c.graphPlaces(x.vals[i], substVal(y.vals[j], s), depth+1)
			n, vague = n+m, vague || v
		}
		return n, vague || n > 1
	}
	s := valSubst{}
	for i := range bx {
		if bx[i] != by[i] {
			s[by[i]] = leafOf(bx[i])
		}
	}
	for i := range ax {
		m, v := c.places(ax[i], ay[i], depth+1)
		n, vague = n+m, vague || v
	}
	for i := range x.vals {
		m, v := c.graphPlaces(x.vals[i], substVal(y.vals[i], s), depth+1)
		n, vague = n+m, vague || v
	}
	if loopAux(x) && n > 1 {
		vague = true
	}
	return n, vague
}

// longer: the queue x is the queue y with more values at its end.
func longer(x, y *Term) bool {
	for x.op == "app" && x.aux == "qput" {
		if x = x.args[0]; x == y {
			return true
		}
	}
	return false
}

// isPlain: a constant or a part of the initial state.
func isPlain(t *Term) bool {
	if t.op == "num" {
		return constOf(t) != nil
	}
	return t.op != "bind" && !loopish(t)
}

func (c *comparer) numPlaces(x, y *Term, depth int) (int, bool) {
	ax, ay := map[*Term]bool{}, map[*Term]bool{}
	collect := func(t *Term, out map[*Term]bool) {
		for _, m := range toPoly(t).m {
			for _, f := range m.fs {
				if loopish(f.atom) {
					out[f.atom] = true
				}
			}
		}
	}
	d := subT(x, y)
	dAtoms := map[*Term]bool{}
	collect(d, dAtoms)
	if len(dAtoms) == 0 {
		return 1, false
	}
	collect(x, ax)
	collect(y, ay)
	var a, b []*Term
	for t := range ax {
		if !ay[t] {
			a = append(a, t)
		}
	}
	for t := range ay {
		if !ax[t] {
			b = append(b, t)
		}
	}
	switch {
	case len(a) == 0 && len(b) == 0:
		return 1, false // the same loops, combined otherwise
	case len(a) == 1 && len(b) == 1:
		n, vague := c.places(a[0], b[0], depth+1)
		if !eqNum(x, replaceAtom(y, b[0], a[0])) {
			n++
		}
		return n, vague || n > 1
	case len(a) == 0 && isPlain(x) || len(b) == 0 && isPlain(y):
		return 1, false
	}
	return 1, true
}

// opArgs is how many arguments a call that was not followed has; the rest is memory.
func opArgs(t *Term) int {
	n := len(t.args)
	if i := strings.LastIndexByte(t.aux, '/'); i >= 0 {
		if k, err := strconv.Atoi(t.aux[i+1:]); err == nil {
			n = k
		}
	}
	return n
}

// besideArgs: the memories x and y of a call differ only in objects that are not
// arguments of the call.
func besideArgs(call, x, y *Term) bool {
	stores := func(t *Term) (map[*Term]*Term, *Term) {
		m := map[*Term]*Term{}
		for t.op == "app" && t.aux == "store" {
			if m[t.args[1]] == nil {
				m[t.args[1]] = t.args[2]
			}
			t = t.args[0]
		}
		return m, t
	}
	sx, rx := stores(x)
	sy, ry := stores(y)
	if rx != ry {
		return false
	}
	isArg := func(b *Term) bool {
		for _, a := range call.args[:opArgs(call)] {
			if a == b {
				return true
			}
		}
		return false
	}
	for b, v := range sx {
		if sy[b] != v && isArg(b) {
			return false
		}
	}
	for b, v := range sy {
		if sx[b] != v && isArg(b) {
			return false
		}
	}
	return true
}

// graphPlaces: places for decision graphs.
func (c *comparer) graphPlaces(x, y *Val, depth int) (int, bool) {
	if x == y {
		return 0, false
	}
	if x.leaf != nil && y.leaf != nil {
		return c.places(x.leaf, y.leaf, depth)
	}
	save := c.sureDepth
	c.sureDepth = depth
	ds := c.enumerateWith(vTrue, "", x, y, func(p, q *Term) *Val { return c.eq(p, q, nil) }, 4)
	c.sureDepth = save
	if len(ds) == 0 {
		return 0, false
	}
	for _, d := range ds {
		if d.judge != nil && d.judge() {
			return 1, true
		}
	}
	return 1, false
}

// unsureDiff: the difference of leaves x and y, found below path in the
// comparison of gx with gy, is not definite.
func (c *comparer) unsureDiff(care, gx, gy *Val, x, y *Term, path []cons) bool {
	if c.usesUnknown(x, path) || mentions(x, c.al.newTypes) || mentions(y, c.al.newTypes) {
		return true
	}
	if c.sureDepth > 12 || c.aliases(path) {
		return true
	}
	if c.pathUnsure(care, gx, gy, path) {
		return true
	}
	if unsureAlloc(x) || unsureAlloc(y) {
		return true
	}
	if omitsCall(gx, gy, x, y, path) {
		omission = true
		return false
	}
	_, vague := c.places(x, y, c.sureDepth)
	omission = false
	return vague
}

// aliases reports whether the path takes two places for one where the functions
// do not ask: whether they can be one is not known.
func (c *comparer) aliases(path []cons) bool {
	for _, k := range path {
		t := k.s.t
		if t.op == "app" && t.aux == "is:ptreq" && k.lo != nil && (!c.ptrTests || isSliceTerm(t.args[0]) || isSliceTerm(t.args[1])) {
			return true
		}
	}
	return false
}

// testsPointers reports whether a function compares pointers with each other.
func testsPointers(f *ssa.Function) bool {
	for g := range reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				op, ok := in.(*ssa.BinOp)
				if !ok || op.Op != token.EQL && op.Op != token.NEQ {
					continue
				}
				switch op.X.Type().Underlying().(type) {
				case *types.Basic, *types.Slice, *types.Map, *types.Signature:
					continue
				}
				_, cx := op.X.(*ssa.Const)
				_, cy := op.Y.(*ssa.Const)
				if !cx && !cy {
					return true
				}
			}
		}
	}
	return false
}

// activeOps: calls that are not followed, of functions that change memory in a
// way that depends on a decision.
var activeOps = map[string]bool{}

// opName is the function of a call that was not followed.
func opName(t *Term) string {
	s := t.aux
	if rest, ok := strings.CutPrefix(s, "opmem:"); ok {
		if i := strings.LastIndex(rest, ":"); i >= 0 {
			return rest[:i]
		}
		return rest
	}
	s = strings.TrimPrefix(s, "op:")
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[:i]
	}
	return s
}

// omitsCall: under the same decisions, the reference calls a function that
// changes memory and the code calls neither that function nor any other that
// the reference does not call, and makes no decision of its own. The function
// itself decides what to do, so its work is not part of the code either.
func omitsCall(gx, gy *Val, x, y *Term, path []cons) bool {
	sx, sy := map[*Term]bool{}, map[*Term]bool{}
	subjectsOf(gx, sx, map[*Val]bool{})
	subjectsOf(gy, sy, map[*Val]bool{})
	var own, theirs []*Term // decisions of one side only
	shared := map[*Subj]cons{}
	for _, k := range path {
		switch {
		case sx[k.s.t] && !sy[k.s.t]:
			own = append(own, k.s.t)
		case sy[k.s.t] && !sx[k.s.t]:
			theirs = append(theirs, k.s.t)
		default:
			shared[k.s] = k
		}
	}
	ox, oy := map[string]bool{}, map[string]bool{}
	bx, by := map[string]int{}, map[string]int{}
	scan := func(t *Term, ops map[string]bool, binds map[string]int) {
		for _, u := range collectTerms(leaf(t)) {
			if isOp(u) {
				ops[opName(u)] = true
			} else if loopAux(u) {
				binds[strings.SplitN(u.aux, ":", 2)[0]]++
			}
		}
	}
	scan(x, ox, bx)
	scan(y, oy, by)
	for n := range ox {
		if !oy[n] {
			return false
		}
	}
	for b, n := range bx {
		if n > by[b] {
			return false
		}
	}
	for n := range oy {
		if !ox[n] && activeOps[n] && unrelated(own, n) &&
			(unrelated(theirs, n) || callsAnyway(gy, n, shared)) {
			return true
		}
	}
	return false
}

// callsAnyway: whatever else v decides, function n is called below the shared
// decisions.
func callsAnyway(v *Val, n string, shared map[*Subj]cons) bool {
	memo := map[*Val]bool{}
	var walk func(v *Val) bool
	walk = func(v *Val) bool {
		if r, ok := memo[v]; ok {
			return r
		}
		if v.leaf != nil {
			r := false
			for _, u := range collectTerms(v) {
				if isOp(u) && opName(u) == n {
					r = true
					break
				}
			}
			memo[v] = r
			return r
		}
		k, ok := shared[v.subj]
		r := true
		for i, kid := range v.kids {
			if ok && k.hi != nil && i > 0 && k.hi.cmp(v.bounds[i-1]) <= 0 ||
				ok && k.lo != nil && i < len(v.bounds) && k.lo.cmp(v.bounds[i]) >= 0 {
				continue
			}
			r = r && walk(kid)
		}
		if v.nan != nil && !(ok && (k.lo != nil || k.hi != nil)) {
			r = r && walk(v.nan)
		}
		memo[v] = r
		return r
	}
	return walk(v)
}

// opTouches: the memory that a call which is not followed may read or write.
var opTouches = map[string]map[string]bool{}

// unrelated: the decisions are on memory that function n does not get to, so that
// they do not stand for what n decides.
func unrelated(ts []*Term, n string) bool {
	for _, t := range ts {
		if !beside(t, n, false) {
			return false
		}
	}
	return true
}

func beside(t *Term, n string, off bool) bool {
	switch t.op {
	case "num":
		for _, m := range toPoly(t).m {
			for _, f := range m.fs {
				if !beside(f.atom, n, off) {
					return false
				}
			}
		}
		return true
	case "app":
		if isOp(t) {
			return false
		}
		if t.aux == "select" && len(t.args) == 2 {
			if r := t.args[0]; r.op == "sym" {
				k, ok := strings.CutPrefix(r.aux, "M:")
				if !ok {
					return false
				}
				return beside(t.args[1], n, off || !opTouches[n][k])
			}
		}
		for _, a := range t.args {
			if !beside(a, n, off) {
				return false
			}
		}
		return true
	case "sym":
		return off
	}
	return false
}

// judge delays the decision whether a difference is definite to when it is
// known that the difference is reported.
func (c *comparer) judge(unsureCond bool, care, gx, gy *Val, x, y *Term, path []cons) func() bool {
	if unsureCond {
		return func() bool { return true }
	}
	depth := c.sureDepth
	path = append([]cons{}, path...)
	return func() (r bool) {
		save := c.sureDepth
		c.sureDepth = depth
		defer func() {
			c.sureDepth = save
			if e := recover(); e != nil {
				if _, ok := e.(undecided); !ok {
					panic(e)
				}
				r = true
			}
		}()
		return c.unsureDiff(care, gx, gy, x, y, path)
	}
}

// omission: the difference last judged is a call that the code does not make.
var omission bool

func judged(ds []mismatch) []mismatch {
	for i := range ds {
		if ds[i].judge != nil {
			omission = false
			ds[i].unsure = ds[i].judge()
			ds[i].ops = ds[i].ops && !omission
		}
	}
	return ds
}

// deadline ends the comparison of one function.
var (
	deadline time.Time
	ticks    int
)

// memLimit bounds the memory that comparisons may take.
const memLimit = 10 << 30

var memSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func tooMuchMemory() bool {
	metrics.Read(memSample)
	return memSample[0].Value.Uint64() > memLimit
}

func checkDeadline() {
	ticks++
	if ticks&0xfff == 0 && tooMuchMemory() {
		giveUp("out of memory")
	}
	if ticks&255 == 0 && !deadline.IsZero() && time.Now().After(deadline) {
		giveUp("out of time")
	}
}

// anyAt reports whether f holds of either side of a difference or a decision on
// the path to it.
func anyAt(f func(t *Term) bool, x, y *Term, path []cons) bool {
	if f(x) || f(y) {
		return true
	}
	for _, k := range path {
		if f(k.s.t) {
			return true
		}
	}
	return false
}

var hasOpM = map[*Term]bool{}

// hasOp: contains a call that was not followed.
func hasOp(t *Term) bool {
	if r, ok := hasOpM[t]; ok {
		return r
	}
	r := false
	for _, x := range collectTerms(leaf(t)) {
		if isOp(x) {
			r = true
			break
		}
	}
	hasOpM[t] = r
	return r
}

func usedMemory() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}
