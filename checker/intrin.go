package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

/*** Calls ***/

func (m *Machine) callCommon(fr *frame, c *ssa.CallCommon, in ssa.Instruction, mem Mem) []*Val {
	args := []*Val{vNil}
	if _, ok := c.Value.(*ssa.Builtin); !ok {
		args[0] = m.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, m.val(fr, a))
	}
	return m.callArgs(c, args, in, mem, fr)
}

// callArgs performs the call c; args[0] is the callee or the interface value.
func (m *Machine) callArgs(c *ssa.CallCommon, args []*Val, in ssa.Instruction, mem Mem, fr *frame) []*Val {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(b.Name(), c, args[1:], mem)
	}
	if c.IsInvoke() {
		return m.invoke(c.Method, args[0], args[1:], mem)
	}
	return m.dynCall(args[0], c.Signature(), args[1:], mem)
}

// perLeaf runs f for each alternative of v and merges results and memories.
func (m *Machine) perLeaf(mem Mem, v *Val, n int, f func(t *Term, mem Mem) []*Val) []*Val {
	ls := leavesOf(v)
	if len(ls) == 1 {
		return f(ls[0], mem)
	}
	save := m.panicked
	acc := save
	var rs []retState
	for _, t := range ls {
		t := t
		cond := lift1(v, func(x *Term) *Val { return boolVal(x == t) })
		mm := mem.clone()
		m.panicked = vFalse
		res := f(t, mm)
		acc = orV(acc, andV(cond, m.panicked))
		if len(res) < n {
			for len(res) < n {
				res = append(res, vNil)
			}
		}
		rs = append(rs, retState{cond, res, mm})
	}
	m.panicked = acc
	out := m.mergeStates(rs)
	for k := range mem {
		delete(mem, k)
	}
	for k, x := range out.mem {
		mem[k] = x
	}
	return out.res
}

func (m *Machine) dynCall(fv *Val, sig *types.Signature, args []*Val, mem Mem) []*Val {
	n := sig.Results().Len()
	return m.perLeaf(mem, fv, n, func(t *Term, mem Mem) []*Val {
		if fn, bs := m.fnOf(t); fn != nil {
			free := make([]*Val, len(bs))
			for i, b := range bs {
				free[i] = leafB(b)
			}
			return m.callFn(fn, args, free, mem)
		}
		// an unknown function: an operation on its arguments and on the state of
		// everything behind interfaces
		if t == tNil {
			m.panicked = vTrue
			return nils(n)
		}
		return m.unknownOp("dyn", sig, append([]*Val{leaf(t)}, args...), mem, true)
	})
}

func nils(n int) []*Val {
	r := make([]*Val, n)
	for i := range r {
		r[i] = vNil
	}
	return r
}

// unknownOp is an operation of the environment named name.
func (m *Machine) unknownOp(name string, sig *types.Signature, args []*Val, mem Mem, mutates bool) []*Val {
	m.keyTyp["obj"] = nil
	self := args[0]
	state := m.read(mem, "obj", self)
	all := append([]*Val{state}, args...)
	// slices are passed by their content
	for i, a := range all {
		if i >= 2 && i-2 < sig.Params().Len() {
			if st, ok := sig.Params().At(i - 2).Type().Underlying().(*types.Slice); ok {
				all[i] = m.sliceArg(mem, a, st.Elem())
			}
		}
	}
	res := make([]*Val, sig.Results().Len())
	for i := range res {
		t := sig.Results().At(i).Type()
		i := i
		res[i] = liftN(all, func(ts []*Term) *Val {
			return leafB(rawApp(fmt.Sprintf("inv:%s.%d", name, i), t, ts...))
		})
	}
	if mutates {
		m.write(mem, "obj", self, liftN(all, func(ts []*Term) *Val { return leaf(rawApp("invmem:"+name, nil, ts...)) }))
	}
	return res
}

// sliceArg is a slice as a value: its length and content.
func (m *Machine) sliceArg(mem Mem, s *Val, elem types.Type) *Val {
	n := m.lenOf(s)
	return lift2(s, n, func(s, n *Term) *Val {
		return lift1(m.content(mem, s, elem), func(c *Term) *Val {
			if k := constOf(n); k != nil && k.IsInt() && k.Num().Int64() <= 16 {
				es := []*Val{vNil}
				for i := int64(0); i < k.Num().Int64(); i++ {
					es = append(es, selectT(c, intTerm(i), elem))
				}
				return liftN(es, func(ts []*Term) *Val { return leaf(rawApp("vec", nil, ts[1:]...)) })
			}
			return leaf(rawApp("vecn", nil, n, c))
		})
	})
}

var pureMethods = map[string]bool{"Value": true, "Values": true, "Size": true, "Rank": true, "Select": true,
	"String": true, "Config": true, "IsSetCore": true, "Count": true, "Len": true, "Error": true}

func (m *Machine) invoke(meth *types.Func, recv *Val, args []*Val, mem Mem) []*Val {
	sig := meth.Type().(*types.Signature)
	return m.perLeaf(mem, recv, sig.Results().Len(), func(t *Term, mem Mem) []*Val {
		if t == tNil {
			m.panicked = vTrue
			return nils(sig.Results().Len())
		}
		if meth.Pkg() != nil && meth.Pkg().Path() == "sync" || t.op == "app" && strings.HasPrefix(t.aux, "iface:*sync.") {
			if sig.Results().Len() > 0 {
				giveUp("method %s of package sync", meth.Name())
			}
			return nil // locking is decided by its own rules
		}
		if t.op == "app" && strings.HasPrefix(t.aux, "iface:") {
			if fn := m.methodOf(strings.TrimPrefix(t.aux, "iface:"), meth.Name()); fn != nil {
				return m.callFn(fn, append([]*Val{leafB(t.args[0])}, args...), nil, mem)
			}
		}
		m.deref(leaf(t))
		return m.unknownOp(meth.Name(), sig, append([]*Val{leaf(t)}, args...), mem, !pureMethods[meth.Name()])
	})
}

// methodOf finds a repository method by the name of its receiver type.
func (m *Machine) methodOf(typ, name string) *ssa.Function {
	s := strings.TrimPrefix(typ, "*")
	i := strings.LastIndexByte(s, '.')
	if i < 0 || relPkg(s[:i]) == "?" {
		return nil
	}
	return m.p.method(relPkg(s[:i]), s[i+1:], name)
}

func (m *Machine) callFn(fn *ssa.Function, args, free []*Val, mem Mem) []*Val {
	if r, ok := m.contract(fn, args, mem); ok {
		return r
	}
	if inRepo(fn) {
		if fn.Synthetic != "" && len(fn.Blocks) == 0 {
			giveUp("no body for %s", fnName(fn))
		}
		return m.call(fn, args, free, mem)
	}
	return m.extern(fn, args, mem)
}

func (m *Machine) builtin(name string, c *ssa.CallCommon, args []*Val, mem Mem) []*Val {
	one := func(v *Val) []*Val { return []*Val{v} }
	switch name {
	case "len", "cap":
		switch t := c.Args[0].Type().Underlying().(type) {
		case *types.Map:
			ct := m.read(mem, m.mapKey(t), args[0])
			return one(lift1(ct, func(c *Term) *Val {
				if c.op == "app" && c.aux == "emptymap" {
					return leaf(intTerm(0))
				}
				r := rawApp("maplen", types.Typ[types.Int], c)
				return leaf(r)
			}))
		case *types.Pointer:
			return one(leaf(intTerm(t.Elem().Underlying().(*types.Array).Len())))
		case *types.Array:
			return one(leaf(intTerm(t.Len())))
		}
		return one(m.lenOf(args[0]))
	case "append":
		return one(m.appendSlice(c.Args[0].Type(), args[0], args[1], mem))
	case "copy":
		if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			giveUp("copy from a string")
		}
		return one(m.copySlice(c.Args[0].Type(), args[0], args[1], mem))
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		key := m.mapKey(mt)
		lift2(args[0], args[1], func(b, i *Term) *Val { m.log(key, b, i); return vNil })
		ct := m.read(mem, key, args[0])
		m.writeNoLog(mem, key, args[0], lift2(ct, args[1], func(c, k *Term) *Val { return leaf(rawApp("delete", nil, c, k)) }))
		return nil
	case "clear":
		if mt, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
			m.write(mem, m.mapKey(mt), args[0], leaf(rawApp("emptymap", nil)))
			return nil
		}
		st := c.Args[0].Type().Underlying().(*types.Slice)
		key := m.elemKey(st.Elem())
		z := m.zeroOfKey(key)
		n := m.lenOf(args[0])
		m.forLeaves(mem, args[0], func(s *Term, mem Mem) {
			if c := constOf(sliceOff(s)); c == nil || c.Sign() != 0 {
				giveUp("clear of a subslice")
			}
			old := m.read(mem, key, leaf(sliceBase(s)))
			nc := liftN([]*Val{old, n, z}, func(ts []*Term) *Val {
				return mkAmapConst(ts[0], ts[1], ts[2].args[0])
			})
			m.write(mem, key, leaf(sliceBase(s)), nc)
		})
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = minMax(name, r, a)
		}
		return one(r)
	case "print", "println":
		return nil
	case "ssa:wrapnilchk":
		m.deref(args[0])
		return one(args[0])
	case "recover":
		return one(vNil)
	}
	giveUp("builtin %s", name)
	return nil
}

// mkAmapConst is a with the elements below n replaced by z.
func mkAmapConst(a, n, z *Term) *Val {
	b := freshSym("b", types.Typ[types.Int], true)
	rec := freshSym("rec", nil, false)
	return mkAmap(leaf(a), Dom{kind: "cnt", arg: n}, b, rec, b, leafB(z), nil)
}

func minMax(name string, a, b *Val) *Val {
	return lift2(a, b, func(x, y *Term) *Val {
		if x == y {
			return leaf(x)
		}
		op := "<"
		if name == "max" {
			op = ">"
		}
		return ite(cmpValF(op, x, y, false), leaf(x), leaf(y))
	})
}

func (m *Machine) appendSlice(typ types.Type, s, t *Val, mem Mem) *Val {
	elem := typ.Underlying().(*types.Slice).Elem()
	if _, ok := elem.Underlying().(*types.Struct); ok {
		giveUp("append of struct values")
	}
	return lift2(s, t, func(s, t *Term) *Val {
		if t == tNil {
			return leaf(s)
		}
		if t.op == "str" || t.typ != nil && isStringType(t.typ) {
			giveUp("append of a string")
		}
		ns, nt := m.lenOf(leaf(s)), m.lenOf(leaf(t))
		cs, ct := m.content(mem, s, elem), m.content(mem, t, elem)
		return liftN([]*Val{ns, nt, cs, ct}, func(ts []*Term) *Val {
			ns, nt, cs, ct := ts[0], ts[1], ts[2], ts[3]
			var c *Val
			k := constOf(nt)
			if k != nil && k.Sign() == 0 {
				return leaf(s)
			}
			k0 := constOf(ns)
			switch {
			case k != nil && k.IsInt() && k.Num().Int64() <= 16:
				c = leaf(cs)
				if k0 != nil && k0.Sign() == 0 {
					c = m.zeroOfKey(m.elemKey(elem))
				}
				for i := int64(0); i < k.Num().Int64(); i++ {
					at := addT(ns, intTerm(i))
					c = lift2(c, selectT(ct, intTerm(i), elem), func(a, v *Term) *Val { return storeT(a, at, v) })
				}
			case k0 != nil && k0.Sign() == 0:
				c = leaf(ct)
			default:
				c = leaf(rawApp("acat", nil, cs, ns, ct))
			}
			return lift1(c, func(c *Term) *Val {
				return leaf(mkSlice(rawApp("vbase", nil, c), intTerm(0), addT(ns, nt), typ))
			})
		})
	})
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (m *Machine) copySlice(typ types.Type, d, s *Val, mem Mem) *Val {
	elem := typ.Underlying().(*types.Slice).Elem()
	key := m.elemKey(elem)
	n := lift2(m.lenOf(d), m.lenOf(s), func(a, b *Term) *Val {
		if eqNum(a, b) {
			return leaf(a)
		}
		return ite(cmpValF("<", a, b, false), leaf(a), leaf(b))
	})
	m.forLeaves(mem, d, func(dt *Term, mem Mem) {
		if c := constOf(sliceOff(dt)); c == nil || c.Sign() != 0 {
			giveUp("copy into a subslice")
		}
		old := m.read(mem, key, leaf(sliceBase(dt)))
		src := lift1(s, func(st *Term) *Val { return m.content(mem, st, elem) })
		nc := liftN([]*Val{src, n, old}, func(ts []*Term) *Val {
			return leaf(rawApp("acat", nil, ts[0], ts[1], mkApp("shift", nil, ts[2], ts[1]).leaf))
		})
		m.write(mem, key, leaf(sliceBase(dt)), nc)
	})
	return n
}

/*** Contracts of repository helpers that have their own obligations ***/

var contracted = map[string]bool{}

// contract gives the meaning of a helper that is verified on its own.
func (m *Machine) contract(fn *ssa.Function, args []*Val, mem Mem) ([]*Val, bool) {
	if !inRepo(fn) || m.noContract[m.nameOf(fn)] {
		return nil, false
	}
	if len(m.stack) > 0 && strings.Contains(fnName(fn), "quantile/heap.") && strings.Contains(fnName(m.stack[0]), "quantile/heap.") {
		return nil, false // the heap's own methods are compared as they are written
	}
	one := func(v *Val) ([]*Val, bool) { return []*Val{v}, true }
	intSlice := types.NewSlice(types.Typ[types.Int])
	switch m.nameOf(fn) {
	case "util/math.Sign":
		return one(lift1(args[0], func(n *Term) *Val { return leaf(powT(intTerm(-1), n)) }))
	case "util/math.Binom":
		return one(lift2(args[0], args[1], func(n, k *Term) *Val { return mkApp("binom", nil, n, k) }))
	case "(joint.Tuple).abs":
		return one(lift1(m.tuple(mem, args[0]), func(t *Term) *Val { return mkApp("abs", nil, t) }))
	case "(joint.Tuple).hash":
		return one(lift1(m.tuple(mem, args[0]), func(t *Term) *Val { return leaf(rawApp("hash", types.Typ[types.Uint64], t)) }))
	case "(joint.Tuple).eq":
		return one(lift2(m.tuple(mem, args[0]), m.tuple(mem, args[1]), func(a, b *Term) *Val {
			return andV(sameVecLen(a, b), mkApp("veq", nil, a, b))
		}))
	case "joint.sub":
		return lenChecked(m, mem, args, func(a, b *Term) *Val {
			return leaf(rawApp("tup", intSlice, rawApp("sub", nil, a, b)))
		}, vNil)
	case "joint.multinom":
		return lenChecked(m, mem, args, func(a, b *Term) *Val {
			return leaf(rawApp("multinom", types.Typ[types.Int], a, b))
		}, leaf(intTerm(0)))
	case "joint.pow":
		a := m.sliceLen(args[0])
		b := lift1(m.tuple(mem, args[1]), lenT)
		same := lift2(a, b, func(x, y *Term) *Val { return cmpVal("==", x, y) })
		c := m.tuple(mem, args[1])
		x := m.sliceArg(mem, args[0], types.Typ[types.Float64])
		v := lift2(x, c, func(x, t *Term) *Val { return leaf(rawApp("vpow", nil, x, t)) })
		return []*Val{ite(same, v, leaf(intTerm(0))), ite(same, vNil, vErr)}, true
	case "joint.iter":
		return m.iterLoop(args, mem), true
	case "quantile/heap.New":
		return one(m.heapNew(fn, args, mem))
	case "(*quantile/heap.Heap).Len", "(*quantile/heap.Heap).Peek", "(*quantile/heap.Heap).Remove", "(*quantile/heap.Heap).Update":
		n := m.nameOf(fn)
		return m.heapMethod(n[strings.LastIndexByte(n, '.')+1:], args, mem), true
	}
	return nil, false
}

func (m *Machine) sliceLen(s *Val) *Val { return m.lenOf(s) }

func sameVecLen(a, b *Term) *Val {
	return lift2(lenT(a), lenT(b), func(x, y *Term) *Val { return cmpVal("==", x, y) })
}

func lenChecked(m *Machine, mem Mem, args []*Val, f func(a, b *Term) *Val, zero *Val) ([]*Val, bool) {
	a, b := m.tuple(mem, args[0]), m.tuple(mem, args[1])
	same := lift2(a, b, sameVecLen)
	return []*Val{ite(same, lift2(a, b, f), zero), ite(same, vNil, vErr)}, true
}

// tuple is the vector behind a Tuple or []int, as a value.
func (m *Machine) tuple(mem Mem, s *Val) *Val {
	return lift1(s, func(t *Term) *Val {
		if t.op == "app" && t.aux == "tup" {
			return leaf(t.args[0])
		}
		if t == tNil {
			return leaf(rawApp("vec", nil))
		}
		return m.sliceArg(mem, leaf(t), types.Typ[types.Int])
	})
}

// iterLoop is the contract of iter(tuple, reverse, cb): cb is called for every
// tuple below the given one, whatever it returns, and an error is returned if
// any call returned one.
func (m *Machine) iterLoop(args []*Val, mem Mem) []*Val {
	dom := leaf(valTerm(m.tuple(mem, args[0])))
	rev := args[1]
	if rev != vTrue && rev != vFalse {
		c := boolize(rev)
		down, up := mem.clone(), mem.clone()
		save := m.panicked
		m.panicked = vFalse
		r1 := m.iterLoop([]*Val{args[0], vTrue, args[2]}, down)
		p1 := m.panicked
		m.panicked = vFalse
		r2 := m.iterLoop([]*Val{args[0], vFalse, args[2]}, up)
		m.panicked = orV(save, ite(c, p1, m.panicked))
		for _, o := range []Mem{down, up} {
			for k := range o {
				mem[k] = ite(c, m.arr(down, k), m.arr(up, k))
			}
		}
		return []*Val{ite(c, r1[0], r2[0])}
	}
	intSlice := types.NewSlice(types.Typ[types.Int])
	b := freshSym("t", nil, false)
	symLen[b] = dom.leaf
	// errors do not stop the iteration
	errV := &lvar{sym: freshSym("err", types.Universe.Lookup("error").Type(), false), init: vNil}
	spec := &loopSpec{dom: &Dom{kind: "box", arg: dom.leaf, rev: rev == vTrue}, b: b, phis: []*lvar{errV}}
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "xs", intSlice)),
		types.NewTuple(types.NewVar(0, nil, "", types.Universe.Lookup("error").Type())), true)
	spec.body = func(bm Mem) iteration {
		start := bm.clone()
		save := m.panicked
		m.panicked = vFalse
		res := m.dynCall(args[2], sig, []*Val{leaf(rawApp("tup", intSlice, b))}, bm)
		it := iteration{cont: vTrue, mem: bm, panic: m.panicked}
		m.panicked = save
		it.phis = []*Val{ite(lift1(res[0], isNil), leaf(errV.sym), vErr)}
		it.exits = []lexit{{cond: nil, mem: start, tag: nil}}
		return it
	}
	results, pv := m.summarise(spec, mem)
	m.panicked = orV(m.panicked, pv)
	if len(results) != 1 {
		giveUp("iter: %d exits", len(results))
	}
	r := results[0]
	for k := range mem {
		delete(mem, k)
	}
	for k, v := range r.mem {
		mem[k] = v
	}
	return []*Val{r.sub(leaf(errV.sym))}
}

// nameOf is the reference's name of a function.
func (m *Machine) nameOf(fn *ssa.Function) string {
	if n, ok := m.canon[fn]; ok {
		return n
	}
	return fnName(fn)
}
