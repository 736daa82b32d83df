package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// mkApp makes a simplified application; args are leaves.
func mkApp(aux string, typ types.Type, args ...*Term) *Val {
	switch aux {
	case "isnil":
		return isNil(args[0])
	case "select":
		return selectT(args[0], args[1], typ)
	case "has":
		return hasT(args[0], args[1])
	case "store":
		return storeT(args[0], args[1], args[2])
	case "shift":
		if c := constOf(args[1]); c != nil && c.Sign() == 0 {
			return leaf(args[0])
		}
		if args[0].op == "app" && args[0].aux == "shift" {
			return mkApp("shift", nil, args[0].args[0], addT(args[0].args[1], args[1]))
		}
		return leaf(rawApp(aux, typ, args...))
	case "is:has":
		return hasT(args[0], args[1])
	case "is:ptreq":
		return ptrEq(args[0], args[1])
	case "is:streq":
		return mkApp("streq", typ, args...)
	case "pow":
		return leaf(powT(args[0], args[1]))
	case "poly":
		return leaf(args[0])
	case "inv0":
		return leaf(invT(args[0]))
	case "trunc":
		if args[0].isInt {
			return leaf(args[0])
		}
		if c := constOf(args[0]); c != nil {
			q := new(big.Int).Quo(c.Num(), c.Denom())
			return leaf(ratTerm(new(big.Rat).SetInt(q)))
		}
		return leaf(rawApp("trunc", types.Typ[types.Int], args...))
	case "quo":
		a, b := constOf(args[0]), constOf(args[1])
		if a != nil && b != nil && a.IsInt() && b.IsInt() && b.Sign() != 0 {
			return leaf(ratTerm(new(big.Rat).SetInt(new(big.Int).Quo(a.Num(), b.Num()))))
		}
		if b != nil && b.Cmp(rOne) == 0 {
			return leaf(args[0])
		}
		return leaf(rawApp("quo", types.Typ[types.Int], args...))
	case "rem":
		a, b := constOf(args[0]), constOf(args[1])
		if a != nil && b != nil && a.IsInt() && b.IsInt() && b.Sign() != 0 {
			return leaf(ratTerm(new(big.Rat).SetInt(new(big.Int).Rem(a.Num(), b.Num()))))
		}
		return leaf(rawApp("rem", types.Typ[types.Int], args...))
	case "len":
		return lenT(args[0])
	case "binom":
		n, k := args[0], args[1]
		if c := constOf(k); c != nil && c.Sign() == 0 {
			return leaf(intTerm(1))
		}
		if n == k {
			return leaf(intTerm(1))
		}
		// C(n,k) = C(n,n-k)
		if o := subT(n, k); o.id < k.id {
			k = o
		}
		return leaf(rawApp("binom", types.Typ[types.Int], n, k))
	case "concat":
		return leaf(concatT(args))
	case "qlen":
		return qlenT(args[0])
	case "dlen":
		return dlenT(args[0])
	case "abs": // sum of a tuple
		return leaf(rawApp("abs", types.Typ[types.Int], args...))
	case "veq":
		if args[0] == args[1] {
			return vTrue
		}
		if args[1].id < args[0].id {
			args[0], args[1] = args[1], args[0]
		}
		return asBool(rawApp("veq", nil, args...))
	case "ptreq":
		return ptrEq(args[0], args[1])
	case "streq":
		if args[0] == args[1] {
			return vTrue
		}
		if args[0].op == "str" && args[1].op == "str" {
			return vFalse
		}
		if args[1].id < args[0].id {
			args[0], args[1] = args[1], args[0]
		}
		return asBool(rawApp("is:streq", nil, args...))
	case "max0":
		return ite(cmpVal("<", args[0], intTerm(0)), leaf(intTerm(0)), leaf(args[0]))
	}
	if strings.HasPrefix(aux, "is:type:") {
		if args[0].op == "app" && strings.HasPrefix(args[0].aux, "iface:") {
			return boolVal(strings.TrimPrefix(args[0].aux, "iface:") == strings.TrimPrefix(aux, "is:type:"))
		}
		if args[0] == tNil {
			return vFalse
		}
	}
	if strings.HasPrefix(aux, "unbox:") && args[0].op == "app" && args[0].aux == "iface:"+strings.TrimPrefix(aux, "unbox:") {
		return leaf(args[0].args[0])
	}
	if strings.HasPrefix(aux, "field:") && args[0].op == "app" && args[0].aux == "struct" {
		for i, n := range fieldOrder(args[0].typ).names {
			if n == strings.TrimPrefix(aux, "field:") {
				return leaf(args[0].args[i])
			}
		}
	}
	if strings.HasPrefix(aux, "is:") || isBoolType(typ) {
		return asBool(rawApp(aux, typ, args...))
	}
	return leaf(rawApp(aux, typ, args...))
}

func rebuild(t *Term, args []*Term) *Val { return mkApp(t.aux, t.typ, args...) }

func isMapContent(t *Term) bool {
	for t.op == "app" && t.aux == "store" || t.op == "bind" && t.aux == "amap" {
		t = t.args[0]
	}
	return t.op == "app" && (t.aux == "mapc" || t.aux == "emptymap")
}

func ptrEq(a, b *Term) *Val {
	if a == b {
		return vTrue
	}
	if a == tNil {
		return isNil(b)
	}
	if b == tNil {
		return isNil(a)
	}
	if isAlloc(a) && isAlloc(b) {
		if a.args[0] != b.args[0] {
			return vFalse
		}
		r := vTrue
		for i := 1; i < len(a.args) && i < len(b.args); i++ {
			r = andV(r, keyEq(a.args[i], b.args[i]))
		}
		return r
	}
	if distinct(a, b) || distinct(b, a) || ownMaps(a, b) {
		return vFalse
	}
	if r := treePath(a); r != nil && r == treePath(b) {
		// different places in one tree
		return andV(isNil(a), isNil(b))
	}
	if x, y := ownArray(a), ownArray(b); x != nil && y != nil {
		// arrays that objects have for themselves
		if a.args[0] != b.args[0] {
			return vFalse
		}
		return ptrEq(x, y)
	}
	if before(a, b) || before(b, a) {
		return vFalse
	}
	if a.op == "app" && b.op == "app" && a.aux == b.aux {
		switch {
		case (a.aux == "structelem" || a.aux == "elemaddr") && a.args[2] == b.args[2]:
			return andV(ptrEq(a.args[0], b.args[0]), keyEq(a.args[1], b.args[1]))
		case a.aux == "fieldaddr" && a.args[1] == b.args[1]:
			return ptrEq(a.args[0], b.args[0])
		}
	}
	if b.id < a.id {
		a, b = b, a
	}
	return asBool(rawApp("is:ptreq", nil, a, b))
}

// treePath returns the root of a path through the links of a tree in the state
// in which the function starts.
func treePath(t *Term) *Term {
	for t.op == "app" && t.aux == "select" && t.args[0].op == "sym" && treeLinks[t.args[0].aux] {
		t = t.args[1]
	}
	if t.op == "sym" && nonNilOrNode(t) {
		return t
	}
	return nil
}

// ownArrays: fields that hold a slice of an array of the object's own.
var ownArrays = map[string]bool{
	"M:quantile/skiplist.Node.next": true, "M:quantile/skiplist.Node.width": true,
	"M:quantile/skiplist.SkipList.prevs": true, "M:quantile/skiplist.SkipList.probs": true,
}

// ownArray returns the object whose own array t is, in the state in which the
// function starts.
func ownArray(t *Term) *Term {
	if t.op == "app" && t.aux == "select" && t.args[0].op == "sym" && ownArrays[t.args[0].aux] {
		return t.args[1]
	}
	return nil
}

// before reports whether the node b of a skip list is on the way to a: the
// links of a list form no cycles.
func before(b, a *Term) bool {
	for {
		// select(elements, select(next, node)), level
		if a.op != "app" || a.aux != "select" {
			return false
		}
		arr := a.args[0]
		if arr.op != "app" || arr.aux != "select" || arr.args[0].op != "sym" || !strings.HasPrefix(arr.args[0].aux, "M:elem:") {
			return false
		}
		n := arr.args[1]
		if n.op != "app" || n.aux != "select" || n.args[0].op != "sym" || n.args[0].aux != "M:quantile/skiplist.Node.next" {
			return false
		}
		a = n.args[1]
		if a == b {
			return true
		}
	}
}

// treeLinks are fields through which nodes form trees: no node is reached from
// another, or from itself, in two ways.
var treeLinks = map[string]bool{
	"M:quantile/ost/avl.Node.left": true, "M:quantile/ost/avl.Node.right": true,
	"M:quantile/ost/rb.Node.left": true, "M:quantile/ost/rb.Node.right": true,
}

// sizeInv: nodes of balanced trees are taken to have the sizes and heights that
// their subtrees have when a function starts.
var sizeInv bool

func treeSize(a, i *Term, typ types.Type) *Val {
	switch a.aux {
	case "M:quantile/ost/avl.Node.size", "M:quantile/ost/avl.Node.height":
	default:
		return nil
	}
	root := treePath(i)
	if root == nil || root != i && i.args[1] != root {
		return nil
	}
	child := func(link string) (*Val, *Val) {
		c := rawApp("select", nil, sym("M:quantile/ost/avl.Node."+link, nil), i)
		n := isNil(c)
		return n, selectT(a, c, typ)
	}
	ln, l := child("left")
	rn, r := child("right")
	if strings.HasSuffix(a.aux, ".size") {
		zero := leaf(intTerm(0))
		return lift2(ite(ln, zero, l), ite(rn, zero, r), func(x, y *Term) *Val {
			return leaf(addT(intTerm(1), addT(x, y)))
		})
	}
	none := leaf(intTerm(-1))
	return lift2(ite(ln, none, l), ite(rn, none, r), func(x, y *Term) *Val {
		return ite(cmpVal(">", x, y), leaf(addT(x, intTerm(1))), leaf(addT(y, intTerm(1))))
	})
}

func nonNilOrNode(t *Term) bool {
	return strings.HasPrefix(t.aux, "arg")
}

// distinct reports whether b cannot be the fresh object a.
func distinct(a, b *Term) bool {
	switch {
	case a.op == "app" && a.aux == "tup":
		return true // a tuple handed to a callback is storage of its own
	case a.op == "app" && (a.aux == "vbase" || a.aux == "global" || a.aux == "fieldaddr"):
		// an appended slice's storage, a variable, a part of an object
		return b.op == "app" && (b.aux == "vbase" && a.aux != "vbase" || isAlloc(b) && a.aux != "alloc" || b.aux == "global" && a.aux == "fieldaddr" || a.aux == "global" && b.aux == "global")
	case !isAlloc(a):
		return false
	}
	if b.op == "sym" {
		// an input, or what a loop carries
		return !strings.Contains(b.aux, "'")
	}
	if b.op == "app" && (b.aux == "global" || b.aux == "fieldaddr" || b.aux == "structelem" || b.aux == "vbase" || b.aux == "slice") {
		return true
	}
	// something computed from the initial state alone cannot be a new object
	return !mentionsAlloc(b, a) && !loopCarried(b)
}

func loopCarried(t *Term) bool {
	for s := range t.syms {
		if strings.Contains(s.aux, "'") || strings.HasPrefix(s.aux, "β") {
			if s.isInt || isFloatType(s.typ) {
				continue
			}
			return true
		}
	}
	return false
}

var mentionMemo = map[[2]*Term]bool{}

func mentionsAlloc(t, a *Term) bool {
	k := [2]*Term{t, a}
	if r, ok := mentionMemo[k]; ok {
		return r
	}
	r := false
	for _, x := range collectTerms(leaf(t)) {
		if isAlloc(x) && x.args[0] == a.args[0] {
			r = true
		}
	}
	mentionMemo[k] = r
	return r
}

func concatT(args []*Term) *Term {
	var out []*Term
	for _, a := range args {
		if a.op == "app" && a.aux == "concat" {
			out = append(out, a.args...)
		} else {
			out = append(out, a)
		}
	}
	var m []*Term
	for _, a := range out {
		if a.op == "str" && a.aux == "" {
			continue
		}
		if a.op == "str" && len(m) > 0 && m[len(m)-1].op == "str" {
			m[len(m)-1] = strTerm(m[len(m)-1].aux + a.aux)
			continue
		}
		m = append(m, a)
	}
	if len(m) == 0 {
		return strTerm("")
	}
	if len(m) == 1 {
		return m[0]
	}
	return rawApp("concat", types.Typ[types.String], m...)
}

func lenT(t *Term) *Val {
	if t == tNil {
		return leaf(intTerm(0))
	}
	if t.op == "app" {
		switch t.aux {
		case "subslice":
			return leaf(subT(t.args[2], t.args[1]))
		case "lenof": // a view with a known length: lenof(base, n)
			return leaf(t.args[1])
		case "heap.Push":
			return lift1(lenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(1))) })
		case "heap.Pop", "heap.Remove":
			return lift1(lenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(-1))) })
		case "heap.Fix", "heap.Init":
			return lenT(t.args[0])
		case "sub", "tup":
			return lenT(t.args[0])
		case "vec":
			return leaf(intTerm(int64(len(t.args))))
		case "vecn":
			return leaf(t.args[0])
		}
	}
	if t.op == "bind" && t.aux == "val" {
		return lift1(t.vals[0], lenT)
	}
	if t.op == "sym" {
		if n, ok := symLen[t]; ok {
			return lenT(n)
		}
	}
	return leaf(rawApp("len", types.Typ[types.Int], t))
}

// symLen maps a bound vector to the tuple whose length it has.
var symLen = map[*Term]*Term{}

func qlenT(t *Term) *Val {
	if t.op == "app" {
		switch t.aux {
		case "qempty":
			return leaf(intTerm(0))
		case "qput":
			return lift1(qlenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(1))) })
		case "qtail":
			return lift1(qlenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(-1))) })
		}
	}
	return leaf(rawApp("qlen", types.Typ[types.Int], t))
}

func dlenT(t *Term) *Val {
	if t.op == "app" {
		switch t.aux {
		case "dempty":
			return leaf(intTerm(0))
		case "dpushb", "dpushf":
			return lift1(dlenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(1))) })
		case "dpopb", "dpopf":
			return lift1(dlenT(t.args[0]), func(n *Term) *Val { return leaf(addT(n, intTerm(-1))) })
		}
	}
	return leaf(rawApp("dlen", types.Typ[types.Int], t))
}

// keyEq is the decision whether two indices or keys are equal.
func keyEq(i, j *Term) *Val {
	if i == j {
		return vTrue
	}
	num := func(t *Term) bool { return t.isInt || t.op == "num" }
	if num(i) && num(j) {
		// distinct hashes stand for distinct tuples
		return cmpValF("==", i, j, false)
	}
	if i.op == "str" && j.op == "str" {
		return vFalse
	}
	isB := func(t *Term) bool { return t.op == "bool" || isBoolType(t.typ) }
	if isB(i) && isB(j) {
		x, y := asBool(i), asBool(j)
		return ite(x, y, notV(y))
	}
	return ptrEq(i, j)
}

func selectT(a, i *Term, typ types.Type) *Val {
	if a.op == "sym" && a.aux == "M:map:int:bool" {
		if c := constSums(i); c != nil {
			return leaf(c)
		}
	}
	if a.op == "sym" && i.op == "app" && i.aux == "select" && i.args[0].op == "sym" {
		if v := partOf(a, i, typ); v != nil {
			return v
		}
	}
	if sizeInv && a.op == "sym" {
		if v := treeSize(a, i, typ); v != nil {
			return v
		}
	}
	if a.op == "app" {
		switch a.aux {
		case "store":
			j, v := a.args[1], a.args[2]
			eq := keyEq(i, j)
			if eq == vTrue {
				return leaf(v)
			}
			return ite(eq, leaf(v), selectT(a.args[0], i, typ))
		case "constarr":
			return leaf(a.args[0])
		case "emptymap":
			return zeroVal(typ)
		case "mix:cnt":
			var before *Val
			if constOf(a.args[3]).Sign() > 0 {
				before = cmpValF("<", i, a.args[2], false)
			} else {
				before = cmpValF(">", i, a.args[2], false)
			}
			return ite(before, selectT(a.args[1], i, typ), selectT(a.args[0], i, typ))
		case "mix:keys":
			if keyEq(i, a.args[2]) == vTrue {
				return selectT(a.args[0], i, typ)
			}
		case "mix:box":
			if v := mixBox(a, i, func(x, k *Term) *Val { return selectT(x, k, typ) }); v != nil {
				return v
			}
		case "shift": // shift(a, off)
			return selectT(a.args[0], addT(i, a.args[1]), typ)
		case "acat": // acat(a, n, b): a's first n elements, then b's
			return ite(cmpVal("<", i, a.args[1]), selectT(a.args[0], i, typ), selectT(a.args[2], subT(i, a.args[1]), typ))
		}
	}
	if i.op == "app" && i.aux == "vbase" && (a.op == "sym" && (strings.HasPrefix(a.aux, "M:elem:") || strings.HasPrefix(a.aux, "W:elem:")) ||
		a.op == "app" && strings.HasPrefix(a.aux, "opmem:")) {
		// the content of a value is what it is
		return leaf(i.args[0])
	}
	if a.op == "bind" && a.aux == "amap" {
		return selectAmap(a, i, typ)
	}
	if a.op == "bind" && a.aux == "fam" {
		// objects made by the iterations of a loop
		bs := bindSyms[a]
		base := a.vals[0].leaf
		if isAlloc(i) && isAlloc(base) && i.args[0] == base.args[0] && len(i.args) == len(base.args) {
			s := valSubst{}
			ok := true
			for n := range i.args {
				if base.args[n] == bs[0] {
					s[bs[0]] = leaf(i.args[n])
				} else if base.args[n] != i.args[n] {
					ok = false
				}
			}
			if ok {
				return substVal(a.vals[1], s)
			}
		}
		if !isAlloc(i) || i.args[0] != base.args[0] {
			return selectT(a.args[0], i, typ)
		}
	}
	if a.op == "sym" {
		if z, ok := arrZero[a]; ok {
			x := i
			for isStructPart(x) {
				x = x.args[0]
			}
			if isAlloc(x) && allocNum(x) > arrBorn[a] {
				return leafB(z)
			}
		}
	}
	if isBoolType(typ) {
		return asBool(rawApp("select", typ, a, i))
	}
	return leaf(rawApp("select", typ, a, i))
}

// mixBox reads a map that a loop over the tuples below t is replacing, at the
// key of the current tuple or of one less than it.
func mixBox(a, i *Term, get func(arr, k *Term) *Val) *Val {
	idx := a.args[2]
	if i == idx {
		return get(a.args[0], i)
	}
	if i.op == "app" && i.aux == "hash" && idx.aux == "hash" {
		x := i.args[0]
		if x.op == "app" && x.aux == "sub" && x.args[0] == idx.args[0] {
			zero := lift1(mkApp("abs", nil, x.args[1]), func(n *Term) *Val { return cmpValF("==", n, intTerm(0), false) })
			less := get(a.args[0], i)
			if constOf(a.args[3]).Sign() > 0 {
				less = get(a.args[1], i)
			}
			return ite(zero, get(a.args[0], idx), less)
		}
	}
	return nil
}

func hasT(m, k *Term) *Val {
	if m.op == "app" {
		switch m.aux {
		case "store":
			eq := keyEq(k, m.args[1])
			if eq == vTrue {
				return vTrue
			}
			return ite(eq, vTrue, hasT(m.args[0], k))
		case "delete":
			return ite(keyEq(k, m.args[1]), vFalse, hasT(m.args[0], k))
		case "emptymap":
			return vFalse
		case "mix:keys":
			if keyEq(k, m.args[2]) == vTrue {
				return hasT(m.args[0], k)
			}
		case "mix:box":
			if v := mixBox(m, k, hasT); v != nil {
				return v
			}
		}
	}
	if m.op == "bind" && m.aux == "val" {
		return lift1(m.vals[0], func(c *Term) *Val { return hasT(c, k) })
	}
	if m.op == "bind" && m.aux == "amap" {
		in := amapIn(m, k)
		if in != nil {
			return ite(in, vTrue, hasT(m.args[0], k))
		}
	}
	return asBool(rawApp("is:has", nil, m, k))
}

/*** Binders ***/

// A Dom is what a loop variable ranges over.
//
//	cnt:  0 <= B < args[0]
//	box:  every tuple B <= args[0]
//	keys: every key B of the map content args[0]
type Dom struct {
	kind string
	arg  *Term
	rev  bool // box only: decreasing order
	typ  types.Type
}

var heights = map[*Term]int{}

func height(t *Term) int {
	if h, ok := heights[t]; ok {
		return h
	}
	h := 0
	up := func(n int) {
		if n > h {
			h = n
		}
	}
	for _, a := range t.args {
		up(height(a))
	}
	for _, v := range t.vals {
		up(heightV(v))
	}
	if t.poly != nil {
		for _, m := range t.poly.m {
			for _, f := range m.fs {
				up(height(f.atom))
			}
		}
	}
	if t.op == "bind" {
		h = 0
		for _, a := range t.args {
			up(height(a))
		}
		bh := 0
		for _, v := range t.vals {
			if x := heightV(v); x > bh {
				bh = x
			}
		}
		up(bh + 1)
	}
	heights[t] = h
	return h
}

var heightsV = map[*Val]int{}

func heightV(v *Val) int {
	if v.leaf != nil {
		return height(v.leaf)
	}
	if h, ok := heightsV[v]; ok {
		return h
	}
	h := height(v.subj.t)
	for _, k := range v.kids {
		if x := heightV(k); x > h {
			h = x
		}
	}
	if v.nan != nil {
		if x := heightV(v.nan); x > h {
			h = x
		}
	}
	heightsV[v] = h
	return h
}

var freshN int

func freshSym(prefix string, typ types.Type, nn bool) *Term {
	freshN++
	t := sym(fmt.Sprintf("%s'%d", prefix, freshN), typ)
	t.nn = nn
	return t
}

// bsyms of a bind term, by term.
var bindSyms = map[*Term][]*Term{}

// mkBind closes vals over the open symbols and interns the binder.
func mkBind(aux string, typ types.Type, args []*Term, open []*Term, vals []*Val) *Term {
	h := 0
	for _, v := range vals {
		if x := heightV(v); x > h {
			h = x
		}
	}
	h++
	s := valSubst{}
	bs := make([]*Term, len(open))
	for i, o := range open {
		b := sym(fmt.Sprintf("β%d.%d", h, i), o.typ)
		if o.nn {
			b = sym(fmt.Sprintf("β%d.%d+", h, i), o.typ)
			b.nn = true
		}
		bs[i] = b
		if b != o {
			s[o] = leaf(b)
		}
	}
	nv := make([]*Val, len(vals))
	for i, v := range vals {
		nv[i] = substVal(v, s)
	}
	t := internTerm(&Term{op: "bind", aux: aux, args: args, vals: nv, typ: typ, isInt: isIntType(typ)})
	bindSyms[t] = bs
	t.syms = map[*Term]bool{}
	for _, a := range args {
		for x := range a.syms {
			t.syms[x] = true
		}
	}
	for _, v := range nv {
		for x := range v.syms() {
			t.syms[x] = true
		}
	}
	for _, b := range bs {
		delete(t.syms, b)
	}
	return t
}

// boxLen restores what is known of the length of the tuple that ranges over a box.
func boxLen(aux string, args []*Term, open []*Term) {
	switch {
	case strings.HasPrefix(aux, "fold:box"):
		symLen[open[len(open)-1]] = args[0].args[0]
	case strings.HasSuffix(aux, ":box"):
		symLen[open[0]] = args[0]
	case aux == "amap" && len(args) == 2 && args[1].aux == "dom:box":
		symLen[open[0]] = args[1].args[0]
	}
}

// valTerm makes one term of a value under decisions.
func valTerm(v *Val) *Term {
	if v.leaf != nil {
		return v.leaf
	}
	return mkBind("val", nil, nil, nil, []*Val{v})
}

// keysOf is a map content with the same keys, without changes that only replace
// values.
func keysOf(t *Term) *Term {
	for {
		switch {
		case t.op == "app" && t.aux == "store" && hasT(t.args[0], t.args[1]) == vTrue:
			t = t.args[0]
		case t.op == "bind" && t.aux == "amap" && len(t.args) == 2 && t.args[1].aux == "dom:keys" && keysOf(t.args[1].args[0]) == keysOf(t.args[0]):
			t = t.args[0]
		case t.op == "app" && t.aux == "select" && t.args[0].op == "sym" && t.args[0].aux == "M:map:uint64:float64" && ownMap(t.args[1]) && t.args[1].args[0].aux != "M:joint.Core.sums":
			// the constructor gives both maps the same keys
			return rawApp("select", t.typ, t.args[0], rawApp("select", t.args[1].typ, sym("M:joint.Core.sums", nil), t.args[1].args[1]))
		default:
			return t
		}
	}
}

// openBind returns the bodies with fresh symbols for the bound ones.
func openBind(t *Term) ([]*Term, []*Val) {
	bs := bindSyms[t]
	s := valSubst{}
	open := make([]*Term, len(bs))
	for i, b := range bs {
		o := freshSym("o", b.typ, b.nn)
		open[i] = o
		s[b] = leaf(o)
	}
	boxLen(t.aux, t.args, open)
	vals := make([]*Val, len(t.vals))
	for i, v := range t.vals {
		vals[i] = substVal(v, s)
	}
	return open, vals
}

// rebuildBind rebuilds a binder after a substitution of its free symbols; vals
// are the substituted bodies, still over t's bound symbols.
func rebuildBind(t *Term, args []*Term, vals []*Val) *Val {
	bs := bindSyms[t]
	s := valSubst{}
	open := make([]*Term, len(bs))
	for i, b := range bs {
		o := freshSym("o", b.typ, b.nn)
		open[i] = o
		s[b] = leaf(o)
	}
	boxLen(t.aux, args, open)
	nv := make([]*Val, len(vals))
	for i, v := range vals {
		nv[i] = substVal(v, s)
	}
	switch {
	case t.aux == "val":
		return leaf(valTerm(nv[0]))
	case strings.HasPrefix(t.aux, "sum:"):
		return mkSum(Dom{kind: t.aux[4:], arg: args[0]}, open[0], nv[0])
	case strings.HasPrefix(t.aux, "exists:"):
		return mkExists(Dom{kind: t.aux[7:], arg: args[0]}, open[0], nv[0])
	case strings.HasPrefix(t.aux, "first:"):
		return mkFirst(Dom{kind: t.aux[6:], arg: args[0]}, open[0], nv[0])
	case t.aux == "amap":
		return liftOuter(nv[0], open, func(body *Val) *Val {
			return leaf(mkBind("amap", t.typ, args, open, []*Val{body}))
		})
	}
	return leaf(mkBind(t.aux, t.typ, args, open, nv))
}

// liftOuter moves decisions that do not depend on the open symbols out of body.
func liftOuter(body *Val, open []*Term, f func(*Val) *Val) *Val {
	s := outerSubj(body, open)
	if s == nil {
		return f(body)
	}
	bs, nan := allBounds(s, body)
	kids := make([]*Val, len(bs)+1)
	for i := range kids {
		kids[i] = liftOuter(cofactor(body, s, bs, i), open, f)
	}
	var nk *Val
	if nan {
		nk = liftOuter(cofactorNan(body, s), open, f)
	}
	return ordered(s, bs, kids, nk)
}

func outerSubj(v *Val, open []*Term) *Subj {
	var best *Subj
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.leaf != nil || seen[v] {
			return
		}
		seen[v] = true
		dep := false
		for _, o := range open {
			if v.subj.t.syms[o] {
				dep = true
			}
		}
		if !dep && (best == nil || v.subj.id < best.id) {
			best = v.subj
		}
		for _, k := range v.kids {
			walk(k)
		}
		if v.nan != nil {
			walk(v.nan)
		}
	}
	walk(v)
	return best
}

func allBounds(s *Subj, v *Val) ([]Bound, bool) {
	var bs []Bound
	nan := false
	seen := map[*Val]bool{}
	var walk func(v *Val)
	walk = func(v *Val) {
		if v.leaf != nil || seen[v] {
			return
		}
		seen[v] = true
		if v.subj == s {
			bs = append(bs, v.bounds...)
			if v.nan != nil {
				nan = true
			}
		}
		for _, k := range v.kids {
			walk(k)
		}
		if v.nan != nil {
			walk(v.nan)
		}
	}
	walk(v)
	sort.Slice(bs, func(i, j int) bool { return bs[i].cmp(bs[j]) < 0 })
	out := []Bound{}
	for _, b := range bs {
		if len(out) == 0 || out[len(out)-1].cmp(b) != 0 {
			out = append(out, b)
		}
	}
	return out, nan
}

// cofactor specialises v to region r of the bounds of subject s, anywhere in v.
func cofactor(v *Val, s *Subj, bs []Bound, r int) *Val {
	memo := map[*Val]*Val{}
	var walk func(v *Val) *Val
	walk = func(v *Val) *Val {
		if v.leaf != nil {
			return v
		}
		if o, ok := memo[v]; ok {
			return o
		}
		var out *Val
		if v.subj == s {
			out = walk(cofs(v, s, bs)[r])
		} else {
			kids := make([]*Val, len(v.kids))
			for i, k := range v.kids {
				kids[i] = walk(k)
			}
			var nan *Val
			if v.nan != nil {
				nan = walk(v.nan)
			}
			out = mkNode(v.subj, v.bounds, kids, nan)
		}
		memo[v] = out
		return out
	}
	return walk(v)
}

func cofactorNan(v *Val, s *Subj) *Val {
	memo := map[*Val]*Val{}
	var walk func(v *Val) *Val
	walk = func(v *Val) *Val {
		if v.leaf != nil {
			return v
		}
		if o, ok := memo[v]; ok {
			return o
		}
		var out *Val
		if v.subj == s {
			out = walk(cofNan(v, s))
		} else {
			kids := make([]*Val, len(v.kids))
			for i, k := range v.kids {
				kids[i] = walk(k)
			}
			var nan *Val
			if v.nan != nil {
				nan = walk(v.nan)
			}
			out = mkNode(v.subj, v.bounds, kids, nan)
		}
		memo[v] = out
		return out
	}
	return walk(v)
}

func has(m map[*Term]bool, syms ...*Term) bool {
	for _, s := range syms {
		if m[s] {
			return true
		}
	}
	return false
}

// mkSum is the sum of body over the domain.
func mkSum(d Dom, b *Term, body *Val) *Val {
	return liftOuter(body, []*Term{b}, func(body *Val) *Val {
		if body.leaf == nil {
			return leaf(sumAtom(d, b, body))
		}
		acc := leaf(intTerm(0))
		p := toPoly(body.leaf)
		for _, k := range p.keys() {
			m := p.m[k]
			var inner, outer []fac
			for _, f := range m.fs {
				if f.atom.syms[b] {
					inner = append(inner, f)
				} else {
					outer = append(outer, f)
				}
			}
			op := newPoly()
			op.addMono(m.coef, outer)
			var s *Val
			if len(inner) == 0 {
				s = domCount(d)
			} else {
				ip := newPoly()
				ip.addMono(rOne, inner)
				s = leaf(sumAtom(d, b, leaf(fromPoly(ip))))
			}
			acc = lift2(acc, s, func(x, y *Term) *Val { return leaf(addT(x, mulT(fromPoly(op), y))) })
		}
		return acc
	})
}

func domCount(d Dom) *Val {
	if d.kind == "cnt" {
		return mkApp("max0", nil, d.arg)
	}
	return leaf(rawApp("count:"+d.kind, types.Typ[types.Int], d.arg))
}

func sumAtom(d Dom, b *Term, body *Val) *Term {
	t := mkBind("sum:"+d.kind, nil, []*Term{d.arg}, []*Term{b}, []*Val{body})
	if d.kind == "cnt" {
		// a sum may be taken in either direction
		refl := substVal(body, valSubst{b: leaf(subT(subT(d.arg, intTerm(1)), b))})
		u := mkBind("sum:"+d.kind, nil, []*Term{d.arg}, []*Term{b}, []*Val{refl})
		if u.id < t.id {
			t = u
		}
	}
	return t
}

// mkExists is the decision whether body holds somewhere in the domain.
func mkExists(d Dom, b *Term, body *Val) *Val {
	body = boolize(body)
	return liftOuter(body, []*Term{b}, func(body *Val) *Val {
		if body == vFalse {
			return vFalse
		}
		if d.kind == "cnt" {
			if c := constOf(d.arg); c != nil && c.IsInt() && c.Num().Int64() <= 4 {
				r := vFalse
				for i := int64(0); i < c.Num().Int64(); i++ {
					r = orV(r, substVal(body, valSubst{b: leaf(intTerm(i))}))
				}
				return r
			}
			if body == vTrue {
				return cmpVal(">", d.arg, intTerm(0))
			}
		}
		t := mkBind("exists:"+d.kind, types.Typ[types.Bool], []*Term{d.arg}, []*Term{b}, []*Val{body})
		if d.kind == "cnt" {
			refl := substVal(body, valSubst{b: leaf(subT(subT(d.arg, intTerm(1)), b))})
			u := mkBind("exists:"+d.kind, types.Typ[types.Bool], []*Term{d.arg}, []*Term{b}, []*Val{refl})
			if u.id < t.id {
				t = u
			}
		}
		return asBool(t)
	})
}

// mkFirst is the first index in the domain where body holds.
func mkFirst(d Dom, b *Term, body *Val) *Val {
	body = boolize(body)
	return liftOuter(body, []*Term{b}, func(body *Val) *Val {
		t := mkBind("first:"+d.kind, b.typ, []*Term{d.arg}, []*Term{b}, []*Val{body})
		t.nn = b.nn
		return leaf(t)
	})
}

// mkAmap is the array a0 with element idx(b) replaced by body(b) for every b in
// the domain; rec (which may occur in body) stands for the resulting array.
// For cnt domains idx must be b + c or c - b.
func mkAmap(a0 *Val, d Dom, b, rec *Term, idx *Term, body *Val, typ types.Type) *Val {
	switch d.kind {
	case "cnt":
		c1 := coefOf(idx, b)
		rest := subT(idx, scaleT(b, c1))
		var lo *Term
		if c1.Cmp(rOne) == 0 {
			lo = rest
		} else {
			lo = addT(subT(rest, d.arg), intTerm(1))
		}
		hi := addT(lo, d.arg)
		j := freshSym("j", types.Typ[types.Int], lo.nn)
		var inv *Term
		if c1.Cmp(rOne) == 0 {
			inv = subT(j, rest)
		} else {
			inv = subT(rest, j)
		}
		nb := substVal(body, valSubst{b: leaf(inv)})
		return lift1(a0, func(a *Term) *Val {
			return liftOuter(nb, []*Term{j, rec}, func(bd *Val) *Val {
				return leaf(mkBind("amap", typ, []*Term{a, lo, hi}, []*Term{j, rec}, []*Val{bd}))
			})
		})
	case "keys":
		if d.arg.op == "bind" && d.arg.aux == "val" {
			return lift1(d.arg.vals[0], func(c *Term) *Val {
				return mkAmap(a0, Dom{kind: "keys", arg: c}, b, rec, idx, body, typ)
			})
		}
		if d.arg.op == "app" && d.arg.aux == "emptymap" {
			return a0
		}
		if keys := listedKeys(d.arg); keys != nil && !body.syms()[rec] {
			for _, k := range keys {
				v := substVal(body, valSubst{b: leaf(k)})
				a0 = lift2(a0, v, func(a, v *Term) *Val { return leaf(rawApp("store", typ, a, k, v)) })
			}
			return a0
		}
		return lift1(a0, func(a *Term) *Val {
			return liftOuter(body, []*Term{b, rec}, func(bd *Val) *Val {
				return leaf(mkBind("amap", typ, []*Term{a, rawApp("dom:keys", nil, keysOf(d.arg))}, []*Term{b, rec}, []*Val{bd}))
			})
		})
	}
	return lift1(a0, func(a *Term) *Val {
		return liftOuter(body, []*Term{b, rec}, func(bd *Val) *Val {
			return leaf(mkBind("amap", typ, []*Term{a, rawApp("dom:"+d.kind, nil, d.arg)}, []*Term{b, rec}, []*Val{bd, leaf(idx)}))
		})
	})
}

// listedKeys are the keys of a map that was made from nothing with constant
// keys, in the order in which they were added.
func listedKeys(c *Term) []*Term {
	var keys []*Term
	for c.op == "app" && c.aux == "store" {
		if constOf(c.args[1]) == nil {
			return nil
		}
		keys = append([]*Term{c.args[1]}, keys...)
		c = c.args[0]
	}
	if c.op != "app" || c.aux != "emptymap" {
		return nil
	}
	return keys
}

// ownStorage: fields that hold a map of their own from the construction on.
var ownStorage = map[string]bool{"M:joint.Core.sums": true, "M:joint.Core.newSums": true}

func ownMap(t *Term) bool {
	return t.op == "app" && t.aux == "select" && t.args[0].op == "sym" && ownStorage[t.args[0].aux] && t.args[1].op == "sym"
}

// ownMaps reports whether two terms are different maps of one object.
func ownMaps(a, b *Term) bool {
	return ownMap(a) && ownMap(b) && a.args[0] != b.args[0] && a.args[1] == b.args[1]
}

// madeFields are set by the constructors to something that is not nil, and
// stay so.
var madeFields = map[string]bool{
	"M:moment.Kurtosis.variance": true, "M:moment.Kurtosis.moment4": true, "M:moment.Kurtosis.config": true,
	"M:moment.Skewness.variance": true, "M:moment.Skewness.moment3": true, "M:moment.Skewness.config": true,
	"M:moment.Std.variance": true, "M:moment.EWMStd.variance": true, "M:moment.Core.queue": true,
	"M:joint.Autocov.cov": true, "M:joint.Autocov.queue": true,
	"M:joint.Autocorr.corr": true, "M:joint.Autocorr.queue": true,
	"M:joint.Core.queue": true, "M:joint.Core.sums": true, "M:joint.Core.newSums": true,
	"M:minmax.Min.queue": true, "M:minmax.Min.deque": true, "M:minmax.Max.queue": true, "M:minmax.Max.deque": true,
	"M:quantile.Quantile.queue": true, "M:quantile.Quantile.statistic": true,
	"M:quantile.HeapMedian.queue": true, "M:quantile.HeapMedian.lowHeap": true, "M:quantile.HeapMedian.highHeap": true,
	"M:quantile.IQR.quantile": true, "M:quantile.Median.quantile": true,
	"M:quantile/skiplist.SkipList.head": true,
}

func madeField(t *Term) bool {
	if t.op != "app" || t.aux != "select" || t.args[0].op != "sym" {
		return false
	}
	if t.args[0].aux == "M:moment.CoreConfig.Window" {
		c := t.args[1]
		return c.op == "app" && c.aux == "select" && c.args[0].op == "sym" && fixedSums[c.args[0].aux] != nil
	}
	return madeFields[t.args[0].aux]
}

// parts: what the components of a metric have in common with it, or always hold.
var partCore = map[string]string{
	"M:moment.Kurtosis.variance": "M:moment.Kurtosis.core", "M:moment.Kurtosis.moment4": "M:moment.Kurtosis.core",
	"M:moment.Skewness.variance": "M:moment.Skewness.core", "M:moment.Skewness.moment3": "M:moment.Skewness.core",
	"M:joint.Autocov.cov": "M:joint.Autocov.core", "M:joint.Autocorr.corr": "M:joint.Autocorr.core",
}

var partK = map[string]int64{
	"M:moment.Kurtosis.variance": 2, "M:moment.Kurtosis.moment4": 4,
	"M:moment.Skewness.variance": 2, "M:moment.Skewness.moment3": 3,
	"M:moment.Std.variance": 2, "M:moment.EWMStd.variance": 2,
}

func partOf(a, i *Term, typ types.Type) *Val {
	owner, part := i.args[1], i.args[0].aux
	switch a.aux {
	case "M:moment.Moment.core", "M:joint.Cov.core", "M:joint.Corr.core":
		if core := partCore[part]; core != "" {
			return selectT(sym(core, nil), owner, typ)
		}
	case "M:moment.Moment.k", "M:moment.EWMMoment.k":
		if k := partK[part]; k != 0 {
			return leaf(intTerm(k))
		}
	case "M:moment.Moment.window":
		for _, t := range []string{"Kurtosis", "Skewness"} {
			if strings.HasPrefix(part, "M:moment."+t+".") {
				c := rawApp("select", nil, sym("M:moment."+t+".config", nil), owner)
				w := rawApp("select", nil, sym("M:moment.CoreConfig.Window", nil), c)
				return leaf(rawApp("select", typ, sym("M:cell:int", nil), w))
			}
		}
	}
	return nil
}

// fixedSums: the sums in the configs that these types keep, which their
// constructors set (compared with their references) and nothing changes.
var fixedSums = map[string][]int64{
	"M:moment.Kurtosis.config": {2, 4},
	"M:moment.Skewness.config": {2, 3},
}

func fixedSumsOf(i *Term) []int64 {
	if i.op != "app" || i.aux != "select" || i.args[0].aux != "M:moment.CoreConfig.Sums" {
		return nil
	}
	if k := i.args[1]; k.op == "app" && k.aux == "select" && k.args[0].op == "sym" {
		return fixedSums[k.args[0].aux]
	}
	return nil
}

func constSums(i *Term) *Term {
	ks := fixedSumsOf(i)
	if ks == nil {
		return nil
	}
	t := rawApp("emptymap", nil)
	for _, k := range ks {
		t = rawApp("store", nil, t, intTerm(k), tTrue)
	}
	return t
}

// coefOf returns the constant coefficient of the symbol b in t, or nil if t is
// not linear in b.
func coefOf(t, b *Term) *big.Rat {
	c := new(big.Rat)
	for _, m := range toPoly(t).m {
		n := 0
		for _, f := range m.fs {
			if f.atom == b {
				n++
				if f.exp.Cmp(rOne) != 0 || len(m.fs) != 1 {
					return nil
				}
			} else if f.atom.syms[b] {
				return nil
			}
		}
		if n == 1 {
			c.Set(m.coef)
		}
	}
	return c
}

// amapIn is the decision whether index i is one that the amap replaced.
func amapIn(a, i *Term) *Val {
	if len(a.args) == 3 {
		return andV(cmpVal("<=", a.args[1], i), cmpVal("<", i, a.args[2]))
	}
	if len(a.args) == 2 && a.args[1].aux == "dom:keys" {
		return hasT(a.args[1].args[0], i)
	}
	return nil
}

func selectAmap(a, i *Term, typ types.Type) *Val {
	in := amapIn(a, i)
	if in == nil {
		return leaf(rawApp("select", typ, a, i))
	}
	if in == vFalse {
		return selectT(a.args[0], i, typ)
	}
	bs := bindSyms[a]
	var v *Val
	if a.vals[0].syms()[bs[1]] {
		// elements are defined by recursion on earlier ones: not unfolded
		v = leafB(rawApp("select", typ, a, i))
	} else {
		v = substVal(a.vals[0], valSubst{bs[0]: leaf(i), bs[1]: leaf(a)})
	}
	return ite(in, v, selectT(a.args[0], i, typ))
}

// zeroVal is the zero value of a type.
func zeroVal(typ types.Type) *Val {
	if typ == nil {
		return leaf(intTerm(0))
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return vFalse
		case u.Info()&types.IsString != 0:
			return leaf(strTerm(""))
		case u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer:
			return vNil
		}
		return leaf(intTerm(0))
	case *types.Struct:
		args := make([]*Term, u.NumFields())
		for i := range args {
			z := zeroVal(u.Field(i).Type())
			args[i] = z.leaf
		}
		return leaf(structTerm(typ, args))
	case *types.Array:
		return leaf(rawApp("constarr", nil, zeroVal(u.Elem()).leaf))
	}
	return vNil
}

// mkProd is the product of body over the domain.
func mkProd(d Dom, b *Term, body *Val) *Val {
	return liftOuter(body, []*Term{b}, func(body *Val) *Val {
		if body == leaf(intTerm(1)) {
			return body
		}
		t := mkBind("prod:"+d.kind, nil, []*Term{d.arg}, []*Term{b}, []*Val{body})
		if d.kind == "cnt" {
			refl := substVal(body, valSubst{b: leaf(subT(subT(d.arg, intTerm(1)), b))})
			u := mkBind("prod:"+d.kind, nil, []*Term{d.arg}, []*Term{b}, []*Val{refl})
			if u.id < t.id {
				t = u
			}
		}
		return leaf(t)
	})
}
