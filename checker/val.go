package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// A Val is a gated value: a reduced ordered decision diagram whose inner nodes
// partition the range of a subject (a numeric term, or a 0/1 term for booleans
// and nil-ness) into regions, and whose leaves are terms. Diagrams with the
// same function are the same *Val.
type Val struct {
	id     int
	leaf   *Term
	subj   *Subj
	bounds []Bound
	kids   []*Val // len(bounds)+1
	nan    *Val   // float subjects when NaN is distinguished
	sy     map[*Term]bool
}

// Subj is what a decision is about; subjects are ordered by id.
type Subj struct {
	id       int
	t        *Term
	isInt    bool
	min, max *big.Rat
}

// Bound is a cut just before c, or just after it.
type Bound struct {
	c     *big.Rat
	after bool
}

func (b Bound) cmp(o Bound) int {
	if r := b.c.Cmp(o.c); r != 0 {
		return r
	}
	switch {
	case b.after == o.after:
		return 0
	case b.after:
		return 1
	}
	return -1
}

var (
	subjTab  = map[*Term]*Subj{}
	valTab   = map[string]*Val{}
	valCount int
	valBase  int // valCount when the function being followed was begun
	nanAware bool
	subjCnt  int
)

func leaf(t *Term) *Val {
	k := fmt.Sprintf("L%d", t.id)
	if v, ok := valTab[k]; ok {
		return v
	}
	checkDeadline()
	v := &Val{id: valCount, leaf: t}
	valCount++
	valTab[k] = v
	return v
}

func (v *Val) syms() map[*Term]bool {
	if v.leaf != nil {
		return v.leaf.syms
	}
	if v.sy == nil {
		v.sy = map[*Term]bool{}
		for s := range v.subj.t.syms {
			v.sy[s] = true
		}
		for _, k := range v.kids {
			for s := range k.syms() {
				v.sy[s] = true
			}
		}
		if v.nan != nil {
			for s := range v.nan.syms() {
				v.sy[s] = true
			}
		}
	}
	return v.sy
}

var (
	vTrue  = leaf(tTrue)
	vFalse = leaf(tFalse)
	vNil   = leaf(tNil)
	vErr   = leaf(tErr)
	rOne   = big.NewRat(1, 1)
	rZero  = new(big.Rat)
	rHalf  = big.NewRat(1, 2)
)

func boolVal(b bool) *Val {
	if b {
		return vTrue
	}
	return vFalse
}

func subject(t *Term) *Subj {
	if s, ok := subjTab[t]; ok {
		return s
	}
	s := &Subj{id: subjCnt, t: t, isInt: t.isInt}
	subjCnt++
	if t.op == "app" && (t.aux == "isnil" || strings.HasPrefix(t.aux, "is:")) || isBoolType(t.typ) {
		s.isInt = true
		s.min, s.max = rZero, rOne
	} else if t.isInt && t.nn {
		s.min = rZero
	}
	if t.op == "app" && t.aux == "rem" {
		if c := constOf(t.args[1]); c != nil && c.Sign() > 0 {
			s.max = new(big.Rat).Sub(c, rOne)
			s.min = new(big.Rat).Neg(s.max)
			if t.args[0].nn {
				s.min = rZero
			}
		}
	}
	subjTab[t] = s
	return s
}

// norm normalises a bound for an integer subject: always just before an integer.
func (s *Subj) norm(b Bound) Bound {
	if !s.isInt {
		return b
	}
	c := b.c
	if !c.IsInt() {
		f := new(big.Int).Div(c.Num(), c.Denom()) // floor (denominator > 0, Euclidean)
		return Bound{new(big.Rat).SetInt(f.Add(f, big.NewInt(1))), false}
	}
	if b.after {
		return Bound{new(big.Rat).Add(c, rOne), false}
	}
	return b
}

func mkNode(s *Subj, bounds []Bound, kids []*Val, nan *Val) *Val {
	// drop regions outside the subject's domain
	if s.min != nil {
		for len(bounds) > 0 && bounds[0].cmp(Bound{s.min, false}) <= 0 {
			bounds, kids = bounds[1:], kids[1:]
		}
	}
	if s.max != nil {
		for n := len(bounds); n > 0 && bounds[n-1].cmp(Bound{s.max, true}) >= 0; n = len(bounds) {
			bounds, kids = bounds[:n-1], kids[:n]
		}
		if s.isInt {
			for n := len(bounds); n > 0 && bounds[n-1].c.Cmp(s.max) > 0; n = len(bounds) {
				bounds, kids = bounds[:n-1], kids[:n]
			}
		}
	}
	nb := []Bound{}
	nk := []*Val{kids[0]}
	for i, b := range bounds {
		if kids[i+1] == nk[len(nk)-1] {
			continue
		}
		if len(nb) > 0 && nb[len(nb)-1].cmp(b) == 0 {
			nk[len(nk)-1] = kids[i+1]
			continue
		}
		nb = append(nb, b)
		nk = append(nk, kids[i+1])
	}
	if len(nk) == 1 && (nan == nil || nan == nk[0]) {
		return nk[0]
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "N%d", s.id)
	for i, k := range nk {
		if i > 0 {
			fmt.Fprintf(&sb, "|%s%v", nb[i-1].c.RatString(), nb[i-1].after)
		}
		fmt.Fprintf(&sb, ":%d", k.id)
	}
	if nan != nil {
		fmt.Fprintf(&sb, "~%d", nan.id)
	}
	key := sb.String()
	if v, ok := valTab[key]; ok {
		return v
	}
	checkDeadline()
	v := &Val{id: valCount, subj: s, bounds: nb, kids: nk, nan: nan}
	valCount++
	valTab[key] = v
	return v
}

func topOf(vs ...*Val) *Subj {
	var s *Subj
	for _, v := range vs {
		if v != nil && v.leaf == nil && (s == nil || v.subj.id < s.id) {
			s = v.subj
		}
	}
	return s
}

func unionBounds(s *Subj, vs ...*Val) ([]Bound, bool) {
	var bs []Bound
	nan := false
	for _, v := range vs {
		if v != nil && v.leaf == nil && v.subj == s {
			bs = append(bs, v.bounds...)
			if v.nan != nil {
				nan = true
			}
		}
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].cmp(bs[j]) < 0 })
	out := []Bound{}
	for _, b := range bs {
		if len(out) == 0 || out[len(out)-1].cmp(b) != 0 {
			out = append(out, b)
		}
	}
	return out, nan
}

// cofs returns v's kid for each region of bounds (a refinement of v's own).
func cofs(v *Val, s *Subj, bounds []Bound) []*Val {
	out := make([]*Val, len(bounds)+1)
	if v.leaf != nil || v.subj != s {
		for i := range out {
			out[i] = v
		}
		return out
	}
	j := 0
	for i := range out {
		// region i starts at bounds[i-1]
		for i > 0 && j < len(v.bounds) && v.bounds[j].cmp(bounds[i-1]) <= 0 {
			j++
		}
		out[i] = v.kids[j]
	}
	return out
}

func cofNan(v *Val, s *Subj) *Val {
	if v.leaf != nil || v.subj != s {
		return v
	}
	if v.nan != nil {
		return v.nan
	}
	return v.kids[0]
}

// ordered builds a node whose kids may have any top subject.
func ordered(s *Subj, bounds []Bound, kids []*Val, nan *Val) *Val {
	all := kids
	if nan != nil {
		all = append(append([]*Val{}, kids...), nan)
	}
	m := topOf(all...)
	if m == nil || m.id > s.id {
		return mkNode(s, bounds, kids, nan)
	}
	if m == s {
		// specialise kid i to region i
		var nb []Bound
		var nk []*Val
		ub, hasNan := unionBounds(s, kids...)
		full := append(append([]Bound{}, bounds...), ub...)
		sort.Slice(full, func(i, j int) bool { return full[i].cmp(full[j]) < 0 })
		for _, b := range full {
			if len(nb) == 0 || nb[len(nb)-1].cmp(b) != 0 {
				nb = append(nb, b)
			}
		}
		j := 0
		for i := 0; i <= len(nb); i++ {
			for i > 0 && j < len(bounds) && bounds[j].cmp(nb[i-1]) <= 0 {
				j++
			}
			nk = append(nk, cofs(kids[j], s, nb)[i])
		}
		if nan != nil {
			nan = cofNan(nan, s)
		} else if hasNan {
			nan = nil
		}
		return ordered(s, nb, nk, nan)
	}
	bs, hasNan := unionBounds(m, all...)
	res := make([]*Val, len(bs)+1)
	cof := make([][]*Val, len(kids))
	for i, k := range kids {
		cof[i] = cofs(k, m, bs)
	}
	var nanCof []*Val
	if nan != nil {
		nanCof = cofs(nan, m, bs)
	}
	for r := range res {
		ks := make([]*Val, len(kids))
		for i := range kids {
			ks[i] = cof[i][r]
		}
		var n *Val
		if nan != nil {
			n = nanCof[r]
		}
		res[r] = ordered(s, bounds, ks, n)
	}
	var rn *Val
	if hasNan {
		ks := make([]*Val, len(kids))
		for i, k := range kids {
			ks[i] = cofNan(k, m)
		}
		var n *Val
		if nan != nil {
			n = cofNan(nan, m)
		}
		rn = ordered(s, bounds, ks, n)
	}
	return mkNode(m, bs, res, rn)
}

func liftN(vs []*Val, f func([]*Term) *Val) *Val {
	memo := map[string]*Val{}
	return liftRec(vs, f, memo)
}

func liftRec(vs []*Val, f func([]*Term) *Val, memo map[string]*Val) *Val {
	s := topOf(vs...)
	if s == nil {
		ts := make([]*Term, len(vs))
		for i, v := range vs {
			ts[i] = v.leaf
		}
		return f(ts)
	}
	var kb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&kb, "%d,", v.id)
	}
	key := kb.String()
	if v, ok := memo[key]; ok {
		return v
	}
	bs, hasNan := unionBounds(s, vs...)
	cof := make([][]*Val, len(vs))
	for i, v := range vs {
		cof[i] = cofs(v, s, bs)
	}
	kids := make([]*Val, len(bs)+1)
	for r := range kids {
		a := make([]*Val, len(vs))
		for i := range vs {
			a[i] = cof[i][r]
		}
		kids[r] = liftRec(a, f, memo)
	}
	var nan *Val
	if hasNan {
		a := make([]*Val, len(vs))
		for i, v := range vs {
			a[i] = cofNan(v, s)
		}
		nan = liftRec(a, f, memo)
	}
	out := ordered(s, bs, kids, nan)
	memo[key] = out
	return out
}

func lift1(a *Val, f func(*Term) *Val) *Val {
	return liftN([]*Val{a}, func(t []*Term) *Val { return f(t[0]) })
}

func lift2(a, b *Val, f func(x, y *Term) *Val) *Val {
	return liftN([]*Val{a, b}, func(t []*Term) *Val { return f(t[0], t[1]) })
}

// asBool turns a boolean leaf into a decision.
func asBool(t *Term) *Val {
	if t == tTrue || t == tFalse {
		return leaf(t)
	}
	return mkNode(subject(t), []Bound{{rOne, false}}, []*Val{vFalse, vTrue}, nil)
}

func boolize(v *Val) *Val { return lift1(v, asBool) }

func ite(c, a, b *Val) *Val {
	if c == vTrue || a == b {
		return a
	}
	if c == vFalse {
		return b
	}
	memo := map[[3]int]*Val{}
	return iteRec(boolize(c), a, b, memo)
}

func iteRec(c, a, b *Val, memo map[[3]int]*Val) *Val {
	if c == vTrue || a == b {
		return a
	}
	if c == vFalse {
		return b
	}
	key := [3]int{c.id, a.id, b.id}
	if v, ok := memo[key]; ok {
		return v
	}
	s := topOf(c, a, b)
	bs, hasNan := unionBounds(s, c, a, b)
	cc, ca, cb := cofs(c, s, bs), cofs(a, s, bs), cofs(b, s, bs)
	kids := make([]*Val, len(bs)+1)
	for i := range kids {
		kids[i] = iteRec(cc[i], ca[i], cb[i], memo)
	}
	var nan *Val
	if hasNan {
		nan = iteRec(cofNan(c, s), cofNan(a, s), cofNan(b, s), memo)
	}
	out := mkNode(s, bs, kids, nan)
	memo[key] = out
	return out
}

func andV(a, b *Val) *Val { return ite(a, boolize(b), vFalse) }
func orV(a, b *Val) *Val  { return ite(a, vTrue, boolize(b)) }
func notV(a *Val) *Val    { return ite(a, vFalse, vTrue) }

// restrict simplifies v where care is false.
func restrict(v, care *Val) *Val {
	if care == vTrue || v.leaf != nil {
		return v
	}
	if care == vFalse {
		return v
	}
	return restrictRec(v, care, map[[2]int]*Val{})
}

func restrictRec(v, care *Val, memo map[[2]int]*Val) *Val {
	if care == vFalse {
		return nil
	}
	if v.leaf != nil || care == vTrue {
		return v
	}
	key := [2]int{v.id, care.id}
	if r, ok := memo[key]; ok {
		return r
	}
	var out *Val
	if care.subj.id < v.subj.id {
		c := vFalse
		for _, k := range care.kids {
			c = orV(c, k)
		}
		if care.nan != nil {
			c = orV(c, care.nan)
		}
		out = restrictRec(v, c, memo)
	} else {
		s := v.subj
		bs, hasNan := unionBounds(s, v, care)
		cv, cc := cofs(v, s, bs), cofs(care, s, bs)
		kids := make([]*Val, len(bs)+1)
		var first *Val
		for i := range kids {
			kids[i] = restrictRec(cv[i], cc[i], memo)
			if kids[i] != nil && first == nil {
				first = kids[i]
			}
		}
		var nan *Val
		if hasNan {
			nan = restrictRec(cofNan(v, s), cofNan(care, s), memo)
			if first == nil {
				first = nan
			}
		}
		for i := range kids {
			if kids[i] == nil {
				if i > 0 {
					kids[i] = kids[i-1]
				} else {
					kids[i] = first
				}
			}
		}
		if hasNan && nan == nil {
			nan = kids[0]
		}
		if !hasNan {
			nan = nil
		}
		out = mkNode(s, bs, kids, nan)
	}
	memo[key] = out
	return out
}

// nanFloat reports whether a comparison of these floats distinguishes NaN.
func floaty(t *Term) bool { return !t.isInt }

// cmpVal is the decision a OP b for numeric terms, OP in < <= == != > >=.
func cmpVal(op string, a, b *Term) *Val {
	return cmpValF(op, a, b, nanAware && (floaty(a) || floaty(b)))
}

// numBool: the decision on a truth value is made at one.
func numBool(t *Term) *Term {
	switch t {
	case tTrue:
		return intTerm(1)
	case tFalse:
		return intTerm(0)
	}
	return t
}

func cmpValF(op string, a, b *Term, nan bool) *Val {
	a, b = numBool(a), numBool(b)
	d := subT(a, b)
	if c := constOf(d); c != nil && !(nan && false) {
		s := c.Sign()
		return boolVal(map[string]bool{"<": s < 0, "<=": s <= 0, "==": s == 0, "!=": s != 0, ">": s > 0, ">=": s >= 0}[op])
	}
	// A quotient is zero where its numerator is; other comparisons keep d.
	p := toPoly(d)
	c0 := new(big.Rat)
	if m, ok := p.m[""]; ok {
		c0.Set(m.coef)
	}
	rest := newPoly()
	var lead *mono
	var leadKey string
	for _, k := range p.keys() {
		if k == "" {
			continue
		}
		m := p.m[k]
		rest.addMono(m.coef, m.fs)
		if lead == nil || monoLess(m.fs, lead.fs) {
			lead, leadKey = m, k
		}
	}
	_ = leadKey
	rt := fromPoly(rest)
	scale := new(big.Rat).Set(lead.coef)
	if allIntAtoms(rest) {
		// primitive integer polynomial
		scale = content(rest)
		if lead.coef.Sign() < 0 {
			scale.Neg(scale)
		}
	}
	st := scaleT(rt, new(big.Rat).Inv(scale))
	cut := new(big.Rat).Neg(new(big.Rat).Quo(c0, scale))
	if scale.Sign() < 0 {
		op = map[string]string{"<": ">", "<=": ">=", "==": "==", "!=": "!=", ">": "<", ">=": "<="}[op]
	}
	s := subject(st)
	lo, hi := s.norm(Bound{cut, false}), s.norm(Bound{cut, true})
	var n *Val
	nf := func(v *Val) *Val {
		if nan {
			return v
		}
		return nil
	}
	_ = n
	switch op {
	case "<":
		return mkNode(s, []Bound{lo}, []*Val{vTrue, vFalse}, nf(vFalse))
	case ">=":
		return mkNode(s, []Bound{lo}, []*Val{vFalse, vTrue}, nf(vFalse))
	case "<=":
		return mkNode(s, []Bound{hi}, []*Val{vTrue, vFalse}, nf(vFalse))
	case ">":
		return mkNode(s, []Bound{hi}, []*Val{vFalse, vTrue}, nf(vFalse))
	}
	eq, ne := vTrue, vFalse
	nanv := vFalse
	if op == "!=" {
		eq, ne = vFalse, vTrue
		nanv = vTrue
	}
	if lo.cmp(hi) == 0 { // non-integer cut of an integer subject
		return ne
	}
	return mkNode(s, []Bound{lo, hi}, []*Val{ne, eq, ne}, nf(nanv))
}

func monoLess(a, b []fac) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].atom.id != b[i].atom.id {
			return a[i].atom.id < b[i].atom.id
		}
		if c := a[i].exp.Cmp(b[i].exp); c != 0 {
			return c > 0
		}
	}
	return len(a) > len(b)
}

func allIntAtoms(p *Poly) bool {
	for _, m := range p.m {
		for _, f := range m.fs {
			if !f.atom.isInt || f.exp.Sign() < 0 {
				return false
			}
		}
	}
	return true
}

// content is the positive gcd of the coefficients.
func content(p *Poly) *big.Rat {
	num, den := new(big.Int), big.NewInt(1)
	for _, m := range p.m {
		num.GCD(nil, nil, num, new(big.Int).Abs(m.coef.Num()))
		g := new(big.Int).GCD(nil, nil, den, m.coef.Denom())
		den.Mul(den, new(big.Int).Quo(m.coef.Denom(), g))
	}
	return new(big.Rat).SetFrac(num, den)
}

// nonNil holds the inputs that are assumed not to be nil (receivers).
var nonNil = map[*Term]bool{}

// isNil is the decision whether a pointer, interface, map or slice is nil.
func isNil(t *Term) *Val {
	switch {
	case t == tNil:
		return vTrue
	case t == tErr:
		return vFalse
	case t.op == "app":
		if strings.HasPrefix(t.aux, "iface:") {
			return vFalse
		}
		switch t.aux {
		case "alloc", "fieldaddr", "elemaddr", "structelem", "closure", "merr", "global", "struct", "slice":
			return vFalse
		case "select":
			if fixedSumsOf(t) != nil || madeField(t) {
				return vFalse
			}
		}
	case t.op == "num", t.op == "bool", t.op == "str":
		return vFalse
	case nonNil[t]:
		return vFalse
	case loopNonNil(t):
		return vFalse
	}
	return asBool(rawApp("isnil", nil, t))
}

// loopNonNil: what a loop computes is not nil when it starts from something that
// is not nil and each iteration keeps it so.
func loopNonNil(t *Term) bool {
	if t.op != "bind" || !(strings.HasPrefix(t.aux, "while.") || strings.HasPrefix(t.aux, "fold:")) {
		return false
	}
	k, err := strconv.Atoi(t.aux[strings.LastIndexByte(t.aux, '.')+1:])
	open := bindSyms[t]
	if err != nil || k+1 >= len(t.args) || k >= len(t.vals) || k >= len(open) || isNil(t.args[k+1]) != vFalse {
		return false
	}
	for _, l := range leavesOf(t.vals[k]) {
		if l != open[k] && isNil(l) != vFalse {
			return false
		}
	}
	return true
}

func substVal(v *Val, s valSubst) *Val {
	return substValM(v, newSubst(s))
}

func substValM(v *Val, s *substState) *Val {
	if !s.hitsSet(v.syms()) {
		return v
	}
	if v.leaf != nil {
		return substRec(v.leaf, s)
	}
	if o, ok := s.vals[v]; ok {
		return o
	}
	out := substNode(v, s)
	s.vals[v] = out
	return out
}

func substNode(v *Val, s *substState) *Val {
	kids := make([]*Val, len(v.kids))
	for i, k := range v.kids {
		kids[i] = substValM(k, s)
	}
	var nan *Val
	if v.nan != nil {
		nan = substValM(v.nan, s)
	}
	if !s.hits(v.subj.t) {
		return ordered(v.subj, v.bounds, kids, nan)
	}
	st := substRec(v.subj.t, s)
	boolean := v.subj.min != nil && v.subj.max != nil && v.subj.min.Sign() == 0 && v.subj.max.Cmp(rOne) == 0
	// rebuild the decision as nested comparisons
	out := kids[len(kids)-1]
	for i := len(v.bounds) - 1; i >= 0; i-- {
		b := v.bounds[i]
		var c *Val // subject is below bound b
		if boolean {
			c = notV(lift1(st, func(t *Term) *Val {
				if t.op == "bool" {
					return leaf(t)
				}
				if cc := constOf(t); cc != nil {
					return boolVal(cc.Sign() != 0)
				}
				if t.op == "app" && t.aux == "isnil" {
					return isNil(t.args[0])
				}
				return asBool(t)
			}))
		} else {
			op := "<"
			if b.after {
				op = "<="
			}
			c = lift1(st, func(t *Term) *Val { return cmpValF(op, t, ratTerm(b.c), v.nan != nil) })
		}
		out = ite(c, kids[i], out)
	}
	if nan != nil {
		out = ite(lift1(st, func(t *Term) *Val {
			return notV(orV(cmpValF("<=", t, intTerm(0), true), cmpValF(">", t, intTerm(0), true)))
		}), nan, out)
	}
	return out
}

func (v *Val) String() string { return v.str(0) }

func (v *Val) str(d int) string {
	if v.leaf != nil {
		return v.leaf.str(d)
	}
	if d > 10 {
		return "…"
	}
	var parts []string
	for i, k := range v.kids {
		parts = append(parts, v.region(i)+" → "+k.str(d+1))
	}
	if v.nan != nil {
		parts = append(parts, "NaN → "+v.nan.str(d+1))
	}
	return "{" + strings.Join(parts, "; ") + "}"
}

func (v *Val) region(i int) string {
	s := v.subj
	t := s.t.String()
	boolean := s.min != nil && s.max != nil && s.min.Sign() == 0 && s.max.Cmp(rOne) == 0
	if boolean {
		if i == 0 {
			return "!" + t
		}
		return t
	}
	lo, hi := "", ""
	if i > 0 {
		b := v.bounds[i-1]
		op := ">="
		if b.after {
			op = ">"
		}
		lo = t + op + b.c.RatString()
	}
	if i < len(v.bounds) {
		b := v.bounds[i]
		op := "<"
		if b.after {
			op = "<="
		}
		hi = t + op + b.c.RatString()
		if i > 0 && b.after && !v.bounds[i-1].after && b.c.Cmp(v.bounds[i-1].c) == 0 {
			return t + "==" + b.c.RatString()
		}
		if i > 0 && s.isInt {
			if new(big.Rat).Sub(b.c, v.bounds[i-1].c).Cmp(rOne) == 0 {
				return t + "==" + v.bounds[i-1].c.RatString()
			}
		}
	}
	if lo != "" && hi != "" {
		return lo + "," + hi
	}
	return lo + hi
}
