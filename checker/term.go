package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// A Term is a hash-consed value number: two expressions that the
// normalisation rules make equal are the same *Term.
//
//	op "sym"   a symbolic input (aux is its name)
//	op "num"   a normalised rational function over other terms
//	op "bool", "str", "nil", "err"  constants
//	op "app"   an application of the function named aux
//	op "bind"  a binder application (sum, first, amap, ...): body is in vals,
//	           the bound symbols are canonical per nesting depth
type Term struct {
	id    int
	op    string
	aux   string
	args  []*Term
	vals  []*Val // binder bodies
	poly  *Poly
	typ   types.Type
	isInt bool
	nn    bool // known to be >= 0
	syms  map[*Term]bool
}

var (
	termTab    = map[string]*Term{}
	termList   []*Term
	appIndex   = map[string][]*Term{} // op|aux -> terms with arguments
	messyIndex = map[string][]*Term{} // those of them that do
)

func internTerm(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.aux)
	if t.typ != nil && t.op == "sym" {
		sb.WriteByte('|')
		sb.WriteString(t.typ.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, v := range t.vals {
		fmt.Fprintf(&sb, ";%d", v.id)
	}
	if t.poly != nil {
		sb.WriteByte('#')
		sb.WriteString(t.poly.key())
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	checkDeadline()
	// Arguments that are equal as rational functions but have different
	// normal forms must not give different terms.
	if len(t.args) > 0 {
		messy := false
		for _, a := range t.args {
			if hasDenominator(a) {
				messy = true
			}
		}
		ik := t.op + "|" + t.aux + fmt.Sprint(len(t.args), len(t.vals))
		others := appIndex[ik]
		if !messy {
			others = messyIndex[ik]
		}
		for _, o := range others {
			same := true
			for i := range t.args {
				if t.args[i] != o.args[i] && !(isNumeric(t.args[i]) && isNumeric(o.args[i]) && eqNum(t.args[i], o.args[i])) {
					same = false
					break
				}
			}
			for i := range t.vals {
				if same && t.vals[i] != o.vals[i] {
					same = false
				}
			}
			if same {
				termTab[k] = o
				return o
			}
		}
		appIndex[ik] = append(appIndex[ik], t)
		if messy {
			messyIndex[ik] = append(messyIndex[ik], t)
		}
	}
	t.id = len(termList)
	t.syms = map[*Term]bool{}
	if t.op == "sym" {
		t.syms[t] = true
	}
	for _, a := range t.args {
		for s := range a.syms {
			t.syms[s] = true
		}
	}
	for _, v := range t.vals {
		for s := range v.syms() {
			t.syms[s] = true
		}
	}
	if t.poly != nil {
		for _, m := range t.poly.m {
			for _, f := range m.fs {
				for s := range f.atom.syms {
					t.syms[s] = true
				}
			}
		}
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

func isNumeric(t *Term) bool {
	return t.op == "num" || t.op == "sym" || t.op == "app" || t.op == "bind"
}

func hasDenominator(t *Term) bool {
	if t.poly == nil {
		return false
	}
	for _, m := range t.poly.m {
		for _, f := range m.fs {
			if f.atom.op == "app" && f.atom.aux == "poly" {
				return true
			}
		}
	}
	return false
}

func sym(name string, typ types.Type) *Term {
	return internTerm(&Term{op: "sym", aux: name, typ: typ, isInt: isIntType(typ)})
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

var (
	tTrue  = internTerm(&Term{op: "bool", aux: "true"})
	tFalse = internTerm(&Term{op: "bool", aux: "false"})
	tNil   = internTerm(&Term{op: "nil"})
	tErr   = internTerm(&Term{op: "err"})
	tUnit  = internTerm(&Term{op: "unit"})
)

func strTerm(s string) *Term { return internTerm(&Term{op: "str", aux: s}) }

// rawApp makes an application without simplification.
func rawApp(aux string, typ types.Type, args ...*Term) *Term {
	nn := nonNegApp[aux] || aux == "select" && args[0].op == "sym" && nonNegField[args[0].aux]
	return internTerm(&Term{op: "app", aux: aux, args: args, typ: typ, isInt: isIntType(typ), nn: nn})
}

var nonNegApp = map[string]bool{"len": true, "qlen": true, "dlen": true, "qcap": true, "abs": true, "first": true, "hlen": true}

// nonNegField: the fields that are never negative in an object its constructor
// accepted (state invariants, kept by every function as the comparison shows).
var nonNegField = map[string]bool{
	"M:moment.Core.count": true, "M:moment.Core.window": true,
	"M:joint.Core.count": true, "M:joint.Core.window": true,
	"M:joint.Autocorr.lag": true, "M:joint.Autocov.lag": true,
	"M:minmax.Min.window": true, "M:minmax.Min.count": true,
	"M:minmax.Max.window": true, "M:minmax.Max.count": true,
	"M:quantile.Quantile.window": true, "M:quantile.HeapMedian.window": true,
	"M:quantile/ost/avl.Node.size": true, "M:quantile/ost/rb.Node.size": true,
	"M:quantile/skiplist.SkipList.length": true, "M:quantile/skiplist.SkipList.maxLevel": true,
	"M:sample.Reservoir.count": true,
}

/*** Rational functions ***/

type fac struct {
	atom *Term
	exp  *big.Rat
}

type mono struct {
	coef *big.Rat
	fs   []fac
}

// Poly is a sum of monomials; a factor app "poly"(p) with a negative
// exponent is a polynomial denominator.
type Poly struct {
	m map[string]*mono
	k string
}

func monoKey(fs []fac) string {
	var sb strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&sb, "%d^%s,", f.atom.id, f.exp.RatString())
	}
	return sb.String()
}

func (p *Poly) keys() []string {
	ks := make([]string, 0, len(p.m))
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Poly) key() string {
	if p.k == "" {
		var sb strings.Builder
		for _, k := range p.keys() {
			sb.WriteString(p.m[k].coef.RatString())
			sb.WriteByte('*')
			sb.WriteString(k)
			sb.WriteByte('+')
		}
		p.k = sb.String() + "."
	}
	return p.k
}

func newPoly() *Poly { return &Poly{m: map[string]*mono{}} }

func (p *Poly) addMono(c *big.Rat, fs []fac) {
	k := monoKey(fs)
	if o, ok := p.m[k]; ok {
		n := new(big.Rat).Add(o.coef, c)
		if n.Sign() == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{n, o.fs}
		}
		return
	}
	if c.Sign() != 0 {
		p.m[k] = &mono{new(big.Rat).Set(c), fs}
	}
}

func toPoly(t *Term) *Poly {
	if t.op == "num" {
		return t.poly
	}
	p := newPoly()
	p.addMono(big.NewRat(1, 1), []fac{{t, big.NewRat(1, 1)}})
	return p
}

func fromPoly(p *Poly) *Term {
	if len(p.m) == 1 {
		for _, m := range p.m {
			if m.coef.Cmp(big.NewRat(1, 1)) == 0 && len(m.fs) == 1 && m.fs[0].exp.Cmp(big.NewRat(1, 1)) == 0 && m.fs[0].atom.aux != "poly" {
				return m.fs[0].atom
			}
		}
	}
	t := &Term{op: "num", poly: p}
	t.isInt = true
	t.nn = true
	for _, m := range p.m {
		if !m.coef.IsInt() {
			t.isInt = false
		}
		if m.coef.Sign() < 0 {
			t.nn = false
		}
		for _, f := range m.fs {
			if !f.atom.isInt || !f.exp.IsInt() || f.exp.Sign() < 0 {
				t.isInt = false
			}
			if !f.atom.nn {
				t.nn = false
			}
		}
	}
	return internTerm(t)
}

func ratTerm(r *big.Rat) *Term {
	p := newPoly()
	p.addMono(r, nil)
	return fromPoly(p)
}

func intTerm(i int64) *Term { return ratTerm(big.NewRat(i, 1)) }

// constOf returns the constant value of t, or nil.
func constOf(t *Term) *big.Rat {
	if t.op != "num" {
		return nil
	}
	if len(t.poly.m) == 0 {
		return new(big.Rat)
	}
	if len(t.poly.m) == 1 {
		if m, ok := t.poly.m[""]; ok {
			return m.coef
		}
	}
	return nil
}

func addT(a, b *Term) *Term {
	pa, pb := toPoly(a), toPoly(b)
	r := newPoly()
	for _, m := range pa.m {
		r.addMono(m.coef, m.fs)
	}
	for _, m := range pb.m {
		r.addMono(m.coef, m.fs)
	}
	return fromPoly(r)
}

func scaleT(a *Term, c *big.Rat) *Term {
	r := newPoly()
	for _, m := range toPoly(a).m {
		r.addMono(new(big.Rat).Mul(m.coef, c), m.fs)
	}
	return fromPoly(r)
}

func negT(a *Term) *Term    { return scaleT(a, big.NewRat(-1, 1)) }
func subT(a, b *Term) *Term { return addT(a, negT(b)) }

func mulFacs(a, b []fac) []fac {
	out := []fac{}
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || i < len(a) && a[i].atom.id < b[j].atom.id:
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j].atom.id < a[i].atom.id:
			out = append(out, b[j])
			j++
		default:
			e := new(big.Rat).Add(a[i].exp, b[j].exp)
			if isSignAtom(a[i].atom) && e.IsInt() {
				// (-1)^n squared is 1
				e = new(big.Rat).SetInt(new(big.Int).Mod(e.Num(), big.NewInt(2)))
			}
			if e.Sign() != 0 {
				out = append(out, fac{a[i].atom, e})
			}
			i++
			j++
		}
	}
	return out
}

// isSignAtom reports whether t is (-1)^n.
func isSignAtom(t *Term) bool {
	if t.op != "app" || t.aux != "pow" {
		return false
	}
	c := constOf(t.args[0])
	return c != nil && c.Cmp(big.NewRat(-1, 1)) == 0
}

func mulT(a, b *Term) *Term {
	pa, pb := toPoly(a), toPoly(b)
	r := newPoly()
	var extra *Term
	for _, x := range pa.m {
		for _, y := range pb.m {
			fs := mulFacs(x.fs, y.fs)
			c := new(big.Rat).Mul(x.coef, y.coef)
			// a polynomial factor that reached a positive power is expanded
			pos := -1
			for i, f := range fs {
				if f.atom.op == "app" && f.atom.aux == "poly" && f.exp.Cmp(big.NewRat(1, 1)) >= 0 {
					pos = i
				}
			}
			if pos >= 0 {
				f := fs[pos]
				rest := append(append([]fac{}, fs[:pos]...), fs[pos+1:]...)
				whole := new(big.Int).Quo(f.exp.Num(), f.exp.Denom())
				frac := new(big.Rat).Sub(f.exp, new(big.Rat).SetInt(whole))
				if frac.Sign() != 0 {
					rest = mulFacs(rest, []fac{{f.atom, frac}})
				}
				p := newPoly()
				p.addMono(c, rest)
				t := fromPoly(p)
				for n := whole.Int64(); n > 0; n-- {
					t = mulT(t, f.atom.args[0])
				}
				if extra == nil {
					extra = t
				} else {
					extra = addT(extra, t)
				}
				continue
			}
			r.addMono(c, fs)
		}
	}
	t := fromPoly(r)
	if extra != nil {
		t = addT(t, extra)
	}
	return t
}

func onlyMono(t *Term) *mono {
	p := toPoly(t)
	if len(p.m) != 1 {
		return nil
	}
	for _, m := range p.m {
		return m
	}
	return nil
}

// polyAtom returns (atom, content) with t = content * atom's polynomial.
func polyAtom(t *Term) (*Term, *Term) {
	p := toPoly(t)
	ks := p.keys()
	// factor out the constant and the atoms common to all monomials
	lead := p.m[ks[0]]
	common := append([]fac{}, lead.fs...)
	for _, k := range ks[1:] {
		var nc []fac
		for _, f := range common {
			for _, g := range p.m[k].fs {
				if g.atom == f.atom {
					e := f.exp
					if g.exp.Cmp(e) < 0 {
						e = g.exp
					}
					nc = append(nc, fac{f.atom, e})
				}
			}
		}
		common = nc
	}
	inv := make([]fac, len(common))
	for i, f := range common {
		inv[i] = fac{f.atom, new(big.Rat).Neg(f.exp)}
	}
	cp := newPoly()
	cp.addMono(lead.coef, common)
	ip := newPoly()
	ip.addMono(new(big.Rat).Inv(lead.coef), inv)
	prim := mulT(t, fromPoly(ip))
	return rawApp("poly", nil, prim), fromPoly(cp)
}

func invT(t *Term) *Term {
	if m := onlyMono(t); m != nil {
		fs := make([]fac, len(m.fs))
		for i, f := range m.fs {
			fs[i] = fac{f.atom, new(big.Rat).Neg(f.exp)}
		}
		// (-1)^-n is (-1)^n
		for i, f := range fs {
			if isSignAtom(f.atom) {
				fs[i].exp = new(big.Rat).Abs(f.exp)
			}
		}
		p := newPoly()
		p.addMono(new(big.Rat).Inv(m.coef), fs)
		return fromPoly(p)
	}
	if c := constOf(t); c != nil { // zero
		return rawApp("inv0", nil, t)
	}
	a, content := polyAtom(t)
	p := newPoly()
	p.addMono(big.NewRat(1, 1), []fac{{a, big.NewRat(-1, 1)}})
	return mulT(fromPoly(p), invT(content))
}

func divT(a, b *Term) *Term { return mulT(a, invT(b)) }

// powT is a^b over the reals; identities such as x^(i+1) = x * x^i are applied
// formally.
func powT(a, b *Term) *Term {
	if c := constOf(b); c != nil {
		if c.IsInt() {
			n := c.Num().Int64()
			if n >= 0 && n <= 16 {
				r := intTerm(1)
				for ; n > 0; n-- {
					r = mulT(r, a)
				}
				return r
			}
			if n < 0 && n >= -16 {
				return invT(powT(a, intTerm(-n)))
			}
		} else {
			return ratPow(a, c)
		}
	}
	pb := toPoly(b)
	if len(pb.m) > 1 || pb.m[""] != nil {
		// x^(s+t) = x^s * x^t
		r := intTerm(1)
		for _, k := range pb.keys() {
			p := newPoly()
			p.addMono(pb.m[k].coef, pb.m[k].fs)
			r = mulT(r, powT(a, fromPoly(p)))
		}
		return r
	}
	// b is a single non-constant monomial c*t
	bm := onlyMono(b)
	tp := newPoly()
	tp.addMono(big.NewRat(1, 1), bm.fs)
	base := fromPoly(tp)
	c := bm.coef
	if !c.IsInt() {
		base = b
		c = big.NewRat(1, 1)
	}
	if ca := constOf(a); ca != nil {
		if ca.Cmp(big.NewRat(1, 1)) == 0 {
			return intTerm(1)
		}
		if ca.Sign() < 0 && ca.Cmp(big.NewRat(-1, 1)) != 0 {
			return mulT(powT(intTerm(-1), b), powT(negT(a), b))
		}
		return atomPow(a, base, c)
	}
	if m := onlyMono(a); m != nil {
		r := intTerm(1)
		if m.coef.Cmp(big.NewRat(1, 1)) != 0 {
			r = powT(ratTerm(m.coef), b)
		}
		for _, f := range m.fs {
			e := new(big.Rat).Mul(c, f.exp)
			at, ex := f.atom, base
			if at.op == "app" && at.aux == "pow" {
				// (x^s)^t = x^(s*t)
				r = mulT(r, powT(at.args[0], scaleT(mulT(at.args[1], base), e)))
				continue
			}
			if !e.IsInt() {
				ex, e = scaleT(base, e), big.NewRat(1, 1)
			}
			r = mulT(r, atomPow(at, ex, e))
		}
		return r
	}
	pa, content := polyAtom(a)
	r := atomPow(pa.args[0], base, c)
	if cc := constOf(content); cc == nil || cc.Cmp(big.NewRat(1, 1)) != 0 {
		r = mulT(r, powT(content, b))
	}
	return r
}

func atomPow(base, e *Term, exp *big.Rat) *Term {
	at := rawApp("pow", nil, base, e)
	if isSignAtom(at) {
		exp = new(big.Rat).SetInt(new(big.Int).Mod(exp.Num(), big.NewInt(2)))
		if exp.Sign() == 0 {
			return intTerm(1)
		}
	}
	p := newPoly()
	p.addMono(big.NewRat(1, 1), []fac{{at, exp}})
	return fromPoly(p)
}

// ratPow is a^c for a constant non-integer c (c = 1/2 is the square root).
func ratPow(a *Term, c *big.Rat) *Term {
	if m := onlyMono(a); m != nil {
		ok := m.coef.Sign() > 0
		fs := make([]fac, len(m.fs))
		for i, f := range m.fs {
			e := new(big.Rat).Mul(f.exp, c)
			if e.IsInt() && f.exp.IsInt() && new(big.Int).Mod(f.exp.Num(), big.NewInt(2)).Sign() == 0 {
				ok = false // sqrt(x^2) is |x|
			}
			fs[i] = fac{f.atom, e}
		}
		if ok {
			p := newPoly()
			p.addMono(big.NewRat(1, 1), fs)
			r := fromPoly(p)
			if m.coef.Cmp(big.NewRat(1, 1)) != 0 {
				cp := rawApp("pow", nil, ratTerm(m.coef), ratTerm(c))
				r = mulT(r, cp)
			}
			return r
		}
		return rawApp("pow", nil, a, ratTerm(c))
	}
	if constOf(a) != nil {
		return rawApp("pow", nil, a, ratTerm(c))
	}
	pa, content := polyAtom(a)
	p := newPoly()
	p.addMono(big.NewRat(1, 1), []fac{{pa, c}})
	r := fromPoly(p)
	if cc := constOf(content); cc == nil || cc.Cmp(big.NewRat(1, 1)) != 0 {
		r = mulT(r, ratPow(content, c))
	}
	return r
}

// eqNum decides equality as rational functions, by clearing denominators.
func eqNum(a, b *Term) bool {
	if a == b {
		return true
	}
	d := subT(a, b)
	for n := 0; n < 40; n++ {
		if c := constOf(d); c != nil {
			return c.Sign() == 0
		}
		var at *Term
		var least *big.Rat
		for _, m := range toPoly(d).m {
			for _, f := range m.fs {
				if f.atom.op == "app" && f.atom.aux == "poly" && f.exp.Sign() < 0 && (at == nil || at == f.atom) {
					at = f.atom
					if least == nil || f.exp.Cmp(least) < 0 {
						least = f.exp
					}
				}
			}
		}
		if at == nil {
			return false
		}
		// multiply by at^-least, monomial by monomial
		r := intTerm(0)
		up := new(big.Rat).Neg(least)
		for _, m := range toPoly(d).m {
			p := newPoly()
			fs := mulFacs(m.fs, []fac{{at, up}})
			p.addMono(m.coef, fs)
			r = addT(r, mulT(fromPoly(p), intTerm(1)))
		}
		d = r
	}
	return false
}

/*** Substitution ***/

type substMap map[*Term]*Term

func (s substMap) hits(t *Term) bool {
	for k := range s {
		if t.syms[k] {
			return true
		}
	}
	return false
}

// substT replaces symbols in t; since re-simplification may introduce
// decisions, the result is a Val.
func substT(t *Term, s substMap) *Val {
	return substTV(t, toValSubst(s))
}

type valSubst map[*Term]*Val

func toValSubst(s substMap) valSubst {
	m := valSubst{}
	for k, v := range s {
		m[k] = leaf(v)
	}
	return m
}

// substState is one substitution with its memo tables.
type substState struct {
	m     valSubst
	list  []*Term
	terms map[*Term]*Val
	vals  map[*Val]*Val
}

func newSubst(s valSubst) *substState {
	st := &substState{m: s, terms: map[*Term]*Val{}, vals: map[*Val]*Val{}}
	seen := map[*Term]bool{}
	for k := range s {
		if k.op == "sym" {
			st.list = append(st.list, k)
			continue
		}
		// a compound term: it occurs only where one of its symbols does
		for x := range k.syms {
			if !seen[x] {
				seen[x] = true
				st.list = append(st.list, x)
			}
		}
	}
	return st
}

func (s *substState) hitsSet(syms map[*Term]bool) bool {
	for _, k := range s.list {
		if syms[k] {
			return true
		}
	}
	return false
}

func (s *substState) hits(t *Term) bool { return s.hitsSet(t.syms) }

func substTV(t *Term, s valSubst) *Val {
	return substRec(t, newSubst(s))
}

func substRec(t *Term, s *substState) *Val {
	if !s.hits(t) {
		return leaf(t)
	}
	if v, ok := s.m[t]; ok {
		return v
	}
	if v, ok := s.terms[t]; ok {
		return v
	}
	var out *Val
	switch t.op {
	case "num":
		acc := leaf(intTerm(0))
		for _, k := range t.poly.keys() {
			m := t.poly.m[k]
			cur := leaf(ratTerm(m.coef))
			for _, f := range m.fs {
				av := substRec(f.atom, s)
				e := f.exp
				at := f.atom
				cur = lift2(cur, av, func(x, y *Term) *Val {
					if at.op == "app" && at.aux == "poly" && y.op == "app" && y.aux == "poly" {
						y = y.args[0]
					}
					return leaf(mulT(x, expT(y, e)))
				})
			}
			acc = lift2(acc, cur, func(x, y *Term) *Val { return leaf(addT(x, y)) })
		}
		out = acc
	case "app":
		args := make([]*Val, len(t.args))
		for i, a := range t.args {
			args[i] = substRec(a, s)
		}
		out = liftN(args, func(as []*Term) *Val { return rebuild(t, as) })
	case "bind":
		args := make([]*Val, len(t.args))
		for i, a := range t.args {
			args[i] = substRec(a, s)
		}
		vals := make([]*Val, len(t.vals))
		for i, v := range t.vals {
			vals[i] = substValM(v, s)
		}
		out = liftN(args, func(as []*Term) *Val { return rebuildBind(t, as, vals) })
	default:
		out = leaf(t)
	}
	s.terms[t] = out
	return out
}

func expT(y *Term, e *big.Rat) *Term {
	if e.IsInt() {
		n := e.Num().Int64()
		if n >= -16 && n <= 16 {
			return powT(y, ratTerm(e))
		}
	}
	return ratPow(y, e)
}

/*** Printing ***/

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if d > 12 {
		return "…"
	}
	switch t.op {
	case "sym":
		return t.aux
	case "bool":
		return t.aux
	case "str":
		return fmt.Sprintf("%q", t.aux)
	case "nil", "err", "unit":
		return t.op
	case "num":
		if len(t.poly.m) == 0 {
			return "0"
		}
		var parts []string
		for _, k := range t.poly.keys() {
			m := t.poly.m[k]
			var fs []string
			if len(m.fs) == 0 || m.coef.Cmp(big.NewRat(1, 1)) != 0 {
				fs = append(fs, m.coef.RatString())
			}
			for _, f := range m.fs {
				s := f.atom.str(d + 1)
				if f.exp.Cmp(big.NewRat(1, 1)) != 0 {
					s += "^" + f.exp.RatString()
				}
				fs = append(fs, s)
			}
			parts = append(parts, strings.Join(fs, "*"))
		}
		if len(parts) == 1 {
			return parts[0]
		}
		return "(" + strings.Join(parts, " + ") + ")"
	}
	var as []string
	for _, a := range t.args {
		as = append(as, a.str(d+1))
	}
	for _, v := range t.vals {
		as = append(as, v.str(d+1))
	}
	name := t.aux
	switch name {
	case "init":
		return as[0]
	case "poly":
		return "(" + strings.Join(as, ",") + ")"
	case "pow":
		return "(" + as[0] + ")^{" + as[1] + "}"
	}
	return name + "(" + strings.Join(as, ", ") + ")"
}
