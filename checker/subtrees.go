package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The subtree rule: on every path, a function of a tree keeps the sequence of
// the nodes in order. A node is its left subtree, its value and its right
// subtree; a subtree that is not looked into is one opaque piece. What a called
// function does to the sequence is known from its counterpart in the reference
// (it keeps it, takes the first value off it, or adds or removes one value), and
// the function analysed has to do the same: a piece that is nowhere in the
// result, or is there twice or out of order, is a violation on that path.
//
// The rule is applied to functions that could not be compared with the
// reference. Paths that the reference treats the same way are no violation.

const subtreesRule = "keeps-subtrees"

// seqEffect is what a function of a tree does to the sequence of its receiver.
var seqEffect = map[string]string{
	"rotateLeft": "keep", "rotateRight": "keep", "balance": "keep", "addBalance": "keep",
	"removeBalance": "keep", "moveRedLeft": "keep", "moveRedRight": "keep",
	"removeMin": "tail", "min": "min", "add": "add", "remove": "remove",
	"flipColors": "none", "Size": "size", "Height": "height", "Color": "color", "heightDiff": "diff", "contains": "pure",
}

type pval struct {
	kind string // nil tok obj key val int size height color cond unknown addr
	id   int
	atom string
	n    int64
	toks []int // what arithmetic is on
	// addr
	field string
	// cond
	cond *pcond
}

type pcond struct {
	kind string // nilp size height color key
	v    pval
	op   token.Token
	n    int64
	neg  bool
}

type ptok struct {
	null   int // 0 unknown, 1 nil, 2 not nil
	obj    int // exploded into this object (0: not)
	used   bool
	sz, ht [2]int64
	vague  bool
	as     []string // what it is made of, when that is not part of the tree as it was
}

type pobj struct {
	left, right pval
	key         string
	tok         int // the token it came from (0: none)
	sizeOf      int
}

type pstate struct {
	toks   map[int]*ptok
	objs   map[int]*pobj
	seq    []string
	mins   map[string][]string
	rel    map[string]int // 1 less, 2 equal, 4 greater: the argument against a value
	next   int
	called string
}

func (s *pstate) clone() *pstate {
	c := &pstate{toks: map[int]*ptok{}, objs: map[int]*pobj{}, mins: map[string][]string{}, rel: map[string]int{}, next: s.next, called: s.called}
	for k, v := range s.toks {
		x := *v
		c.toks[k] = &x
	}
	for k, v := range s.objs {
		x := *v
		c.objs[k] = &x
	}
	for k, v := range s.mins {
		c.mins[k] = v
	}
	for k, v := range s.rel {
		c.rel[k] = v
	}
	c.seq = append([]string{}, s.seq...)
	return c
}

const far = int64(1) << 40

func (s *pstate) newTok() pval {
	s.next++
	s.toks[s.next] = &ptok{sz: [2]int64{0, far}, ht: [2]int64{-far, far}}
	return pval{kind: "tok", id: s.next}
}

func replaceAtomSeq(seq []string, a string, with []string) []string {
	var out []string
	for _, x := range seq {
		if x == a {
			out = append(out, with...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

func (s *pstate) subst(a string, with []string) {
	s.seq = replaceAtomSeq(s.seq, a, with)
	for k, v := range s.mins {
		s.mins[k] = replaceAtomSeq(v, a, with)
	}
	for _, t := range s.toks {
		if t.as != nil {
			t.as = replaceAtomSeq(t.as, a, with)
		}
	}
}

func tokAtom(id int) string { return fmt.Sprintf("T%d", id) }

// setNil records whether token id is nil; false: this cannot be.
func (s *pstate) setNil(id int, null bool) bool {
	t := s.toks[id]
	want := 2
	if null {
		want = 1
	}
	if t.null != 0 {
		return t.null == want
	}
	if !null && t.sz[1] <= 0 {
		return false
	}
	if null && t.sz[0] > 0 {
		return false
	}
	t.null = want
	if null && !t.used {
		s.subst(tokAtom(id), nil)
	}
	return true
}

type pathGiveUp struct{ why string }

func stopPath(f string, a ...any) { panic(pathGiveUp{fmt.Sprintf(f, a...)}) }

// object is the node that v points to (v is not nil).
func (s *pstate) object(v pval) int {
	switch v.kind {
	case "obj":
		return v.id
	case "tok":
		t := s.toks[v.id]
		if t.obj != 0 {
			return t.obj
		}
		if t.used {
			stopPath("a node is used after it was passed on")
		}
		if t.as != nil {
			stopPath("what is passed on is not part of the tree as it was")
		}
		if t.null == 1 {
			stopPath("nil dereference")
		}
		s.setNil(v.id, false)
		l, r := s.newTok(), s.newTok()
		s.next++
		o := s.next
		s.objs[o] = &pobj{left: l, right: r, key: fmt.Sprintf("K%d", v.id), tok: v.id}
		t.obj = o
		s.subst(tokAtom(v.id), []string{tokAtom(l.id), s.objs[o].key, tokAtom(r.id)})
		if t.sz[1] <= 1 {
			s.setNil(l.id, true)
			s.setNil(r.id, true)
		}
		return o
	}
	stopPath("a node that is not known: %s", v.kind)
	return 0
}

func (s *pstate) flatten(v pval, depth int) []string {
	if depth > 12 {
		stopPath("the nodes form a cycle")
	}
	switch v.kind {
	case "nil":
		return nil
	case "tok":
		t := s.toks[v.id]
		if t.obj != 0 {
			return s.flatten(pval{kind: "obj", id: t.obj}, depth+1)
		}
		if t.null == 1 {
			return nil
		}
		if t.used {
			stopPath("a node is used after it was passed on")
		}
		if t.as != nil {
			return append([]string{}, t.as...)
		}
		return []string{tokAtom(v.id)}
	case "obj":
		o := s.objs[v.id]
		out := append([]string{}, s.flatten(o.left, depth+1)...)
		out = append(out, o.key)
		return append(out, s.flatten(o.right, depth+1)...)
	}
	stopPath("a subtree that is not known: %s", v.kind)
	return nil
}

// consume marks what v is made of as passed on.
func (s *pstate) consume(v pval) {
	switch v.kind {
	case "tok":
		t := s.toks[v.id]
		if t.obj != 0 {
			s.consume(pval{kind: "obj", id: t.obj})
			return
		}
		t.used = true
	case "obj":
		o := s.objs[v.id]
		s.consume(o.left)
		s.consume(o.right)
		o.left, o.right, o.key = pval{kind: "gone"}, pval{kind: "gone"}, ""
	}
}

func findSeq(hay, needle []string) int {
	if len(needle) == 0 {
		return -1
	}
	for i := 0; i+len(needle) <= len(hay); i++ {
		ok := true
		for j := range needle {
			if hay[i+j] != needle[j] {
				ok = false
				break
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

func (s *pstate) splice(sub, with []string) bool {
	i := findSeq(s.seq, sub)
	if i < 0 {
		return false
	}
	s.seq = append(append(append([]string{}, s.seq[:i]...), with...), s.seq[i+len(sub):]...)
	return true
}

func (s *pstate) minAtom(sub []string) string {
	key := strings.Join(sub, " ")
	names := make([]string, 0, len(s.mins))
	for k := range s.mins {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if strings.Join(s.mins[k], " ") == key {
			return k
		}
	}
	s.next++
	k := fmt.Sprintf("M%d", s.next)
	s.mins[k] = sub
	return k
}

// subtreeRun analyses one function.
type subtreeRun struct {
	effect func(f *ssa.Function) string // of a function that may be relied on
	fn     *ssa.Function
	what   string
	node   types.Type
	left   int
	right  int
	val    int
	paths  int
	found  map[string]string // signature -> description
	gaveUp []string
}

type pframe struct {
	fn   *ssa.Function
	env  map[ssa.Value]pval
	seen map[*ssa.BasicBlock]bool
	ret  func(s *pstate, vs []pval)
	deep int
}

func (fr *pframe) clone() *pframe {
	c := &pframe{fn: fr.fn, env: map[ssa.Value]pval{}, seen: map[*ssa.BasicBlock]bool{}, ret: fr.ret, deep: fr.deep}
	for k, v := range fr.env {
		c.env[k] = v
	}
	for k, v := range fr.seen {
		c.seen[k] = v
	}
	return c
}

// nodeFields finds the two children and the value of a node type.
func nodeFields(t types.Type) (left, right, val int, ok bool) {
	p, isPtr := t.(*types.Pointer)
	if !isPtr {
		return
	}
	st, isStruct := p.Elem().Underlying().(*types.Struct)
	if !isStruct {
		return
	}
	left, right, val = -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch {
		case types.Identical(f.Type(), t) && f.Name() == "left":
			left = i
		case types.Identical(f.Type(), t) && f.Name() == "right":
			right = i
		case f.Name() == "val":
			val = i
		}
	}
	return left, right, val, left >= 0 && right >= 0 && val >= 0
}

// runSubtrees reports, by signature, the paths of fn that do not keep the nodes.
func runSubtrees(fn *ssa.Function, what string, effect func(f *ssa.Function) string) (found map[string]string, paths int, gaveUp []string) {
	if len(fn.Params) == 0 || fn.Signature.Results().Len() != 1 {
		return nil, 0, nil
	}
	t := fn.Params[0].Type()
	l, r, v, ok := nodeFields(t)
	if !ok || !types.Identical(fn.Signature.Results().At(0).Type(), t) {
		return nil, 0, nil
	}
	run := &subtreeRun{effect: effect, fn: fn, what: what, node: t, left: l, right: r, val: v, found: map[string]string{}}
	s := &pstate{toks: map[int]*ptok{}, objs: map[int]*pobj{}, mins: map[string][]string{}, rel: map[string]int{}}
	n := s.newTok()
	s.seq = []string{tokAtom(n.id)}
	if what == "tail" || what == "keep" {
		s.toks[n.id].null = 2 // called on a node
	}
	fr := &pframe{fn: fn, env: map[ssa.Value]pval{fn.Params[0]: n}, seen: map[*ssa.BasicBlock]bool{}, ret: run.check}
	for _, p := range fn.Params[1:] {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			fr.env[p] = pval{kind: "val"}
		} else {
			fr.env[p] = pval{kind: "unknown"}
		}
	}
	run.block(s, fr, fn.Blocks[0], nil)
	return run.found, run.paths, run.gaveUp
}

func (r *subtreeRun) block(s *pstate, fr *pframe, b, from *ssa.BasicBlock) {
	r.paths++
	if r.paths > 20000 {
		return
	}
	defer func() {
		if x := recover(); x != nil {
			g, ok := x.(pathGiveUp)
			if !ok {
				panic(x)
			}
			r.gaveUp = append(r.gaveUp, g.why)
		}
	}()
	if fr.seen[b] {
		stopPath("a loop")
	}
	fr.seen[b] = true
	if from != nil {
		idx := -1
		for i, p := range b.Preds {
			if p == from {
				idx = i
			}
		}
		vals := map[ssa.Value]pval{}
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				vals[phi] = r.value(fr, phi.Edges[idx])
			}
		}
		for k, v := range vals {
			fr.env[k] = v
		}
	}
	r.instrs(s, fr, b, 0)
}

func (r *subtreeRun) value(fr *pframe, v ssa.Value) pval {
	if c, ok := v.(*ssa.Const); ok {
		if c.Value == nil {
			if _, isPtr := c.Type().Underlying().(*types.Pointer); isPtr {
				return pval{kind: "nil"}
			}
			return pval{kind: "unknown"}
		}
		switch c.Value.Kind() {
		case constant.Int:
			n, _ := constant.Int64Val(c.Value)
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				return pval{kind: "int", n: n}
			}
		case constant.Bool:
			if constant.BoolVal(c.Value) {
				return pval{kind: "bool", n: 1}
			}
			return pval{kind: "bool"}
		}
		return pval{kind: "unknown"}
	}
	if p, ok := fr.env[v]; ok {
		return p
	}
	return pval{kind: "unknown"}
}

func (r *subtreeRun) instrs(s *pstate, fr *pframe, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Alloc:
			if types.Identical(in.Type(), r.node) {
				s.next++
				s.objs[s.next] = &pobj{left: pval{kind: "nil"}, right: pval{kind: "nil"}, key: ""}
				fr.env[in] = pval{kind: "obj", id: s.next}
			}
		case *ssa.FieldAddr:
			if !types.Identical(in.X.Type(), r.node) {
				continue
			}
			o := s.object(r.value(fr, in.X))
			f := "other"
			switch in.Field {
			case r.left:
				f = "left"
			case r.right:
				f = "right"
			case r.val:
				f = "val"
			default:
				f = r.node.(*types.Pointer).Elem().Underlying().(*types.Struct).Field(in.Field).Name()
			}
			fr.env[in] = pval{kind: "addr", id: o, field: f}
		case *ssa.UnOp:
			x := r.value(fr, in.X)
			switch {
			case in.Op == token.MUL && x.kind == "addr":
				o := s.objs[x.id]
				switch x.field {
				case "left", "right":
					v := o.left
					if x.field == "right" {
						v = o.right
					}
					if v.kind == "gone" {
						stopPath("a node is used after it was passed on")
					}
					fr.env[in] = v
				case "val":
					fr.env[in] = pval{kind: "key", atom: o.key}
				case "size", "height":
					if o.tok != 0 && o.left.kind == "tok" && o.right.kind == "tok" {
						fr.env[in] = pval{kind: x.field, id: o.tok}
					}
				}
			case in.Op == token.NOT && x.kind == "cond":
				c := *x.cond
				c.neg = !c.neg
				fr.env[in] = pval{kind: "cond", cond: &c}
			case in.Op == token.NOT && x.kind == "bool":
				fr.env[in] = pval{kind: "bool", n: 1 - x.n}
			}
		case *ssa.Store:
			a := r.value(fr, in.Addr)
			v := r.value(fr, in.Val)
			if a.kind != "addr" {
				if types.Identical(in.Val.Type(), r.node) {
					stopPath("a node is kept elsewhere")
				}
				continue
			}
			o := s.objs[a.id]
			switch a.field {
			case "left":
				o.left = v
			case "right":
				o.right = v
			case "val":
				switch v.kind {
				case "key":
					o.key = v.atom
				case "val":
					o.key = "val"
				default:
					stopPath("a value that is not known")
				}
			}
		case *ssa.BinOp:
			fr.env[in] = r.binop(s, in, r.value(fr, in.X), r.value(fr, in.Y))
		case *ssa.ChangeType:
			fr.env[in] = r.value(fr, in.X)
		case *ssa.Convert:
			fr.env[in] = r.value(fr, in.X)
		case *ssa.Call:
			if r.call(s, fr, b, i, in) {
				return // continued in the callee
			}
		case *ssa.Return:
			var vs []pval
			for _, x := range in.Results {
				vs = append(vs, r.value(fr, x))
			}
			fr.ret(s, vs)
			return
		case *ssa.Jump:
			r.block(s, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := r.value(fr, in.Cond)
			for k, want := range []bool{true, false} {
				if c.kind == "bool" && (c.n == 1) != want {
					continue
				}
				s2, fr2 := s.clone(), fr.clone()
				if c.kind == "cond" && !s2.assume(c.cond, want) {
					continue
				}
				n := int64(0)
				if want {
					n = 1
				}
				fr2.env[in.Cond] = pval{kind: "bool", n: n}
				r.block(s2, fr2, b.Succs[k], b)
			}
			return
		case *ssa.Panic:
			return
		default:
			// what is computed by anything else is not known
			if _, ok := in.(ssa.Value); !ok {
				stopPath("%T", in)
			}
		}
	}
}

func (r *subtreeRun) binop(s *pstate, in *ssa.BinOp, x, y pval) pval {
	flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ, token.EQL: token.EQL, token.NEQ: token.NEQ}
	if _, ok := flip[in.Op]; !ok {
		// arithmetic on sizes and heights
		m := pval{kind: "unknown"}
		for _, v := range []pval{x, y} {
			switch v.kind {
			case "size", "height":
				m.kind, m.toks = "mixed", append(m.toks, v.id)
			case "mixed":
				m.kind, m.toks = "mixed", append(m.toks, v.toks...)
			}
		}
		return m
	}
	isNode := func(v pval) bool { return v.kind == "tok" || v.kind == "obj" || v.kind == "nil" }
	op := in.Op
	if x.kind == "nil" || x.kind == "int" || x.kind == "bool" || x.kind == "val" {
		x, y, op = y, x, flip[op]
	}
	cond := func(c pcond) pval { return pval{kind: "cond", cond: &c} }
	switch {
	case isNode(x) && y.kind == "nil":
		return cond(pcond{kind: "nilp", v: x, neg: op == token.NEQ})
	case (x.kind == "size" || x.kind == "height") && y.kind == "int":
		return cond(pcond{kind: x.kind, v: x, op: op, n: y.n})
	case x.kind == "color" && y.kind == "bool":
		return cond(pcond{kind: "color", v: x, n: y.n, neg: op == token.NEQ})
	case x.kind == "key" && y.kind == "val":
		return cond(pcond{kind: "key", v: x, op: flip[op]})
	}
	for _, v := range []pval{x, y} {
		switch v.kind {
		case "size", "height":
			s.blur(v.id)
		case "mixed":
			for _, id := range v.toks {
				s.blur(id)
			}
		}
	}
	return pval{kind: "unknown"}
}

// blur: how large token id is was decided on in a way that is not followed, so
// it or its children may be empty.
func (s *pstate) blur(id int) {
	t := s.toks[id]
	t.vague = true
	if t.obj == 0 {
		return
	}
	for _, v := range []pval{s.objs[t.obj].left, s.objs[t.obj].right} {
		if v.kind == "tok" {
			s.toks[v.id].vague = true
		}
	}
}

// assume records that condition c is want; false: it cannot be.
func (s *pstate) assume(c *pcond, want bool) bool {
	if c.neg {
		want = !want
	}
	switch c.kind {
	case "nilp":
		switch c.v.kind {
		case "nil":
			return want
		case "obj":
			return !want
		case "tok":
			if s.toks[c.v.id].used && s.toks[c.v.id].null == 0 {
				return true
			}
			return s.setNil(c.v.id, want)
		}
	case "color":
		if want == (c.n == 1) && c.v.id != 0 { // red
			if t := s.toks[c.v.id]; t != nil && !t.used {
				return s.setNil(c.v.id, false)
			}
		}
	case "size", "height":
		t := s.toks[c.v.id]
		if t == nil || t.used {
			return true
		}
		rng := &t.sz
		if c.kind == "height" {
			rng = &t.ht
		}
		lo, hi := -far, far
		op := c.op
		if !want {
			op = map[token.Token]token.Token{token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS, token.EQL: token.NEQ, token.NEQ: token.EQL}[op]
		}
		switch op {
		case token.LSS:
			hi = c.n - 1
		case token.LEQ:
			hi = c.n
		case token.GTR:
			lo = c.n + 1
		case token.GEQ:
			lo = c.n
		case token.EQL:
			lo, hi = c.n, c.n
		case token.NEQ:
			if rng[0] == c.n {
				lo = c.n + 1
			}
			if rng[1] == c.n {
				hi = c.n - 1
			}
		}
		rng[0], rng[1] = max(rng[0], lo), min(rng[1], hi)
		if rng[0] > rng[1] {
			return false
		}
		if c.kind == "height" {
			// what height a leaf has is up to the code
			if hi < far {
				s.blur(c.v.id)
			}
			return true
		}
		if t.null == 1 && rng[0] > 0 || t.null == 2 && rng[1] < 1 {
			return false
		}
		if rng[1] <= 0 {
			return s.setNil(c.v.id, true)
		}
		if rng[0] >= 1 && t.null == 0 && !s.setNil(c.v.id, false) {
			return false
		}
		if rng[0] >= 1 && rng[1] <= 1 && t.obj == 0 && t.as == nil {
			s.object(pval{kind: "tok", id: c.v.id})
		}
		if rng[1] <= 1 && t.obj != 0 {
			for _, v := range []pval{s.objs[t.obj].left, s.objs[t.obj].right} {
				if v.kind == "tok" && !s.toks[v.id].used && !s.setNil(v.id, true) {
					return false
				}
			}
		}
	case "key":
		m := map[token.Token]int{token.LSS: 1, token.LEQ: 3, token.EQL: 2, token.NEQ: 5, token.GEQ: 6, token.GTR: 4}[c.op]
		if !want {
			m = 7 &^ m
		}
		old, ok := s.rel[c.v.atom]
		if !ok {
			old = 7
		}
		s.rel[c.v.atom] = old & m
		return old&m != 0
	}
	return true
}

// call interprets a call; true when the rest of the path was followed already.
func (r *subtreeRun) call(s *pstate, fr *pframe, b *ssa.BasicBlock, i int, in *ssa.Call) bool {
	takes := false
	for _, a := range in.Call.Args {
		takes = takes || types.Identical(a.Type(), r.node)
	}
	f := in.Call.StaticCallee()
	if f == nil {
		if takes || types.Identical(in.Type(), r.node) {
			stopPath("a call that is not known")
		}
		return false
	}
	eff := r.effect(f)
	if !takes && eff == "" {
		if types.Identical(in.Type(), r.node) && len(f.Blocks) > 0 && fr.deep < 4 {
			r.enter(s, fr, b, i, in, f)
			return true
		}
		return false
	}
	if eff == "" {
		if len(f.Blocks) == 0 || fr.deep >= 4 || f == r.fn {
			stopPath("a call of %s", f.Name())
		}
		r.enter(s, fr, b, i, in, f)
		return true
	}
	x := r.value(fr, in.Call.Args[0])
	deref := func() {
		if x.kind == "nil" || x.kind == "tok" && s.toks[x.id].null == 1 {
			stopPath("nil dereference")
		}
	}
	switch eff {
	case "pure", "none":
		return false
	case "size", "height", "color":
		id := 0
		switch x.kind {
		case "tok":
			id = x.id
		case "obj":
			id = s.objs[x.id].tok
			if o := s.objs[x.id]; eff != "color" && (o.left.kind != "tok" || o.right.kind != "tok") {
				id = 0
			}
		case "nil":
			if eff == "size" {
				fr.env[in] = pval{kind: "int", n: 0}
			}
			return false
		}
		if id == 0 {
			return false
		}
		if eff == "size" && s.toks[id].null == 1 {
			fr.env[in] = pval{kind: "int", n: 0}
			return false
		}
		fr.env[in] = pval{kind: eff, id: id}
		return false
	case "diff":
		deref()
		o := s.objs[s.object(x)]
		for _, v := range []pval{o.left, o.right} {
			if v.kind == "tok" {
				s.toks[v.id].vague = true
			}
		}
		return false
	}
	sub := s.flatten(x, 0)
	switch eff {
	case "min":
		if len(sub) == 0 {
			stopPath("nil dereference")
		}
		s.next++
		s.objs[s.next] = &pobj{left: pval{kind: "stale"}, right: pval{kind: "stale"}, key: s.minAtom(sub)}
		fr.env[in] = pval{kind: "obj", id: s.next}
	case "keep", "tail", "add", "remove":
		if eff == "tail" || eff == "keep" {
			deref()
		}
		if len(sub) == 0 && eff != "add" {
			fr.env[in] = pval{kind: "nil"}
			return false
		}
		nt := s.newTok()
		with := []string{tokAtom(nt.id)}
		if eff == "tail" {
			with = []string{s.minAtom(sub), tokAtom(nt.id)}
		}
		if eff == "add" || eff == "remove" {
			if s.called != "" {
				stopPath("more than one is added or removed")
			}
			s.called = eff
		}
		switch {
		case len(sub) == 0: // a value is added to no subtree: somewhere in the sequence
			stopPath("a value is added to an empty subtree")
		case !s.splice(sub, with):
			if eff != "keep" {
				stopPath("what is passed on is not part of the tree as it was")
			}
			s.toks[nt.id].as = sub
		}
		s.consume(x)
		if eff == "keep" || eff == "add" {
			s.toks[nt.id].null = 2
		}
		fr.env[in] = nt
	}
	return false
}

// enter follows a call into the body of a helper.
func (r *subtreeRun) enter(s *pstate, fr *pframe, b *ssa.BasicBlock, i int, in *ssa.Call, f *ssa.Function) {
	sub := &pframe{fn: f, env: map[ssa.Value]pval{}, seen: map[*ssa.BasicBlock]bool{}, deep: fr.deep + 1}
	for j, p := range f.Params {
		sub.env[p] = r.value(fr, in.Call.Args[j])
	}
	sub.ret = func(s *pstate, vs []pval) {
		fr2 := fr.clone()
		if len(vs) == 1 {
			fr2.env[in] = vs[0]
		}
		r.instrs(s, fr2, b, i+1)
	}
	r.block(s, sub, f.Blocks[0], nil)
}

// check judges a return of the function analysed.
func (r *subtreeRun) check(s *pstate, vs []pval) {
	got := s.flatten(vs[0], 0)
	want := s.seq
	eq := func(a, b []string) bool { return strings.Join(a, " ") == strings.Join(b, " ") }
	without := func(seq []string, i int) []string {
		return append(append([]string{}, seq[:i]...), seq[i+1:]...)
	}
	switch r.what {
	case "tail":
		if len(want) == 0 || want[0][0] == 'T' {
			stopPath("the first value is not known")
		}
		want = want[1:]
	case "add":
		if s.called == "" {
			for i, a := range got {
				if a == "val" {
					got = without(got, i)
					break
				}
			}
		}
	case "remove":
		if s.called == "" && !eq(got, want) {
			for i, a := range want {
				if a[0] == 'K' && eq(got, without(want, i)) {
					return
				}
			}
		}
	}
	if eq(got, want) {
		return
	}
	// pieces that may be empty for a reason that is not followed
	count := map[string]int{}
	for _, a := range want {
		count[a]++
	}
	for _, a := range got {
		count[a]--
	}
	lost, extra := []string{}, []string{}
	for a, n := range count {
		switch {
		case n > 0:
			if a[0] == 'T' {
				var id int
				fmt.Sscanf(a, "T%d", &id)
				if s.toks[id].vague {
					continue
				}
			}
			lost = append(lost, a)
		case n < 0:
			extra = append(extra, a)
		}
	}
	sort.Strings(lost)
	sort.Strings(extra)
	if r.what == "remove" && s.called == "" && len(lost) == 1 && lost[0][0] == 'K' {
		lost = nil
	}
	if len(lost) == 0 && len(extra) == 0 {
		sameSet := len(got) == len(want)
		if !sameSet {
			return
		}
	}
	d := fmt.Sprintf("in order, the nodes are %s where they should be %s", showSeq(got), showSeq(want))
	switch {
	case len(lost) > 0:
		d = fmt.Sprintf("%s of the tree is not in the result: %s", showSeq(lost), d)
	case len(extra) > 0:
		d = fmt.Sprintf("%s is in the result more than once: %s", showSeq(extra), d)
	}
	sig := fmt.Sprintf("%d lost %d extra, %d in %d", len(lost), len(extra), len(got), len(want))
	if r.found[sig] == "" {
		r.found[sig] = d
	}
}

func showSeq(a []string) string {
	if len(a) == 0 {
		return "nothing"
	}
	var out []string
	for _, x := range a {
		switch x[0] {
		case 'T':
			out = append(out, "subtree "+x[1:])
		case 'K':
			out = append(out, "value "+x[1:])
		case 'M':
			out = append(out, "least value")
		default:
			out = append(out, x)
		}
	}
	return "[" + strings.Join(out, ", ") + "]"
}

// subtreeRule applies the rule to a function that could not be compared.
func (p *pairing) subtreeRule(n string) (string, bool) {
	base := n[strings.LastIndexByte(n, '.')+1:]
	what := seqEffect[base]
	if !strings.HasPrefix(n, "(*quantile/ost/") {
		return "", false
	}
	switch what {
	case "keep", "tail", "add", "remove":
	default:
		return "", false
	}
	impl, spec := p.fi[n], p.fs[n]
	if impl == nil || spec == nil {
		return "", false
	}
	effectOf := func(fs map[string]*ssa.Function, ref bool) func(f *ssa.Function) string {
		byFn := map[*ssa.Function]string{}
		for m, f := range fs {
			byFn[f] = m
		}
		return func(f *ssa.Function) string {
			m, ok := byFn[f]
			if !ok || !strings.HasPrefix(m, "(*quantile/ost/") {
				return ""
			}
			if st := p.st[m]; !ref && m != n && (st == nil || !st.ok) {
				return ""
			}
			return seqEffect[m[strings.LastIndexByte(m, '.')+1:]]
		}
	}
	ref, _, _ := runSubtrees(spec, what, effectOf(p.fs, true))
	got, paths, _ := runSubtrees(impl, what, effectOf(p.fi, false))
	if paths > 20000 {
		return "", false
	}
	var sigs []string
	for s := range got {
		if ref[s] == "" {
			sigs = append(sigs, s)
		}
	}
	sort.Strings(sigs)
	if len(sigs) == 0 {
		return "", false
	}
	return got[sigs[0]], true
}
