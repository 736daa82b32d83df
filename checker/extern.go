package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The models of the standard library and of third-party packages.

func stateKey(m *Machine, key string, t types.Type) string {
	m.keyTyp[key] = t
	return key
}

const (
	kQueue    = "queue"
	kQueueCap = "queuecap"
	kQueueOff = "queuedisp"
	kDeque    = "deque:"
)

func errIf(c *Val) *Val { return ite(c, vErr, vNil) }

func (m *Machine) extern(fn *ssa.Function, args []*Val, mem Mem) []*Val {
	name := fn.String()
	one := func(v *Val) []*Val { return []*Val{v} }
	if o := fn.Origin(); o != nil && o != fn {
		name = o.String()
	}
	stateKey(m, kQueueOff, types.Typ[types.Bool])
	stateKey(m, kQueueCap, types.Typ[types.Int])
	stateKey(m, kQueue, nil)
	switch name {
	case "github.com/workiva/go-datastructures/queue.NewRingBuffer":
		a := leaf(m.alloc(fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()))
		m.write(mem, kQueue, a, leaf(rawApp("qempty", nil)))
		m.write(mem, kQueueCap, a, args[0])
		m.write(mem, kQueueOff, a, vFalse)
		return one(a)
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).Len":
		m.deref(args[0])
		return one(lift1(m.read(mem, kQueue, args[0]), qlenT))
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).Cap":
		m.deref(args[0])
		return one(lift1(m.read(mem, kQueueCap, args[0]), func(c *Term) *Val { return mkApp("pow2up", types.Typ[types.Int], c) }))
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).IsDisposed":
		m.deref(args[0])
		return one(m.read(mem, kQueueOff, args[0]))
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).Dispose":
		m.deref(args[0])
		m.write(mem, kQueueOff, args[0], vTrue)
		return nil
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).Put", "(*github.com/workiva/go-datastructures/queue.RingBuffer).Offer":
		m.deref(args[0])
		off := boolize(m.read(mem, kQueueOff, args[0]))
		q := m.read(mem, kQueue, args[0])
		full := lift2(lift1(q, qlenT), m.read(mem, kQueueCap, args[0]), func(n, c *Term) *Val {
			return lift1(mkApp("pow2up", types.Typ[types.Int], c), func(c *Term) *Val { return cmpVal(">=", n, c) })
		})
		nq := lift2(q, m.frozen(mem, args[1]), func(q, x *Term) *Val { return leaf(rawApp("qput", nil, q, x)) })
		if strings.HasSuffix(name, "Offer") {
			m.write(mem, kQueue, args[0], ite(orV(off, full), q, nq))
			return []*Val{andV(notV(off), notV(full)), errIf(off)}
		}
		// a full ring buffer blocks for ever
		m.panicked = orV(m.panicked, andV(notV(off), full))
		m.write(mem, kQueue, args[0], ite(off, q, nq))
		return one(errIf(off))
	case "(*github.com/workiva/go-datastructures/queue.RingBuffer).Get", "(*github.com/workiva/go-datastructures/queue.RingBuffer).Poll":
		m.deref(args[0])
		off := boolize(m.read(mem, kQueueOff, args[0]))
		q := m.read(mem, kQueue, args[0])
		empty := lift1(q, func(t *Term) *Val {
			return lift1(qlenT(t), func(n *Term) *Val { return cmpVal("<=", n, intTerm(0)) })
		})
		m.panicked = orV(m.panicked, andV(notV(off), empty))
		m.write(mem, kQueue, args[0], ite(off, q, lift1(q, qtailT)))
		return []*Val{ite(off, vNil, lift1(q, qheadT)), errIf(off)}
	case "errors.New", "github.com/pkg/errors.New", "fmt.Errorf", "github.com/pkg/errors.Errorf":
		return one(vErr)
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack",
		"github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef":
		return one(ite(lift1(args[0], isNil), vNil, vErr))
	case "errors.Join":
		es := m.sliceArg(mem, args[0], types.Universe.Lookup("error").Type())
		return one(lift1(es, func(t *Term) *Val {
			if t.aux != "vec" {
				giveUp("errors.Join of a variable number of errors")
			}
			r := vNil
			for _, e := range t.args {
				r = ite(isNil(e), r, vErr)
			}
			return r
		}))
	case "github.com/hashicorp/go-multierror.Append":
		es := m.sliceArg(mem, args[1], types.Universe.Lookup("error").Type())
		return one(lift2(args[0], es, func(r, t *Term) *Val {
			if t.op != "app" || t.aux != "vec" {
				giveUp("multierror.Append of a variable number of errors")
			}
			v := leaf(r)
			if r != tNil && r != tErr {
				v = ite(isNil(r), vNil, vErr)
				if strings.HasPrefix(r.aux, "iface:") {
					v = vErr
				}
			}
			if r.op == "sym" { // a loop's running error
				v = leaf(r)
			}
			for _, e := range t.args {
				if e.op == "app" && strings.HasPrefix(e.aux, "iface:*github.com/hashicorp") {
					e = e.args[0]
				}
				v = ite(isNil(e), v, vErr)
			}
			return v
		}))
	case "(*github.com/hashicorp/go-multierror.Error).ErrorOrNil":
		return one(args[0])
	case "fmt.Sprintf":
		return one(m.sprintf(args[0], args[1], mem))
	case "fmt.Sprint":
		es := m.sliceArg(mem, args[0], types.NewInterfaceType(nil, nil))
		return one(lift1(es, func(t *Term) *Val {
			if t.aux != "vec" || len(t.args) != 1 {
				giveUp("Sprint of several operands")
			}
			return m.piece('v', t.args[0], mem)
		}))
	case "strconv.Itoa":
		return one(lift1(args[0], func(t *Term) *Val {
			return m.piece('v', rawApp("iface:int", types.Typ[types.Int], t), mem)
		}))
	case "strings.Join":
		es := m.sliceArg(mem, args[0], types.Typ[types.String])
		return one(lift2(es, args[1], func(t, sep *Term) *Val {
			if t.aux != "vec" {
				return leaf(rawApp("join", types.Typ[types.String], t, sep))
			}
			var ps []*Term
			for i, p := range t.args {
				if i > 0 {
					ps = append(ps, sep)
				}
				ps = append(ps, p)
			}
			return leaf(concatT(ps))
		}))
	case "math.Pow":
		return one(lift2(args[0], args[1], func(x, y *Term) *Val { return leaf(powT(x, y)) }))
	case "math.Sqrt":
		return one(lift1(args[0], func(x *Term) *Val { return leaf(ratPow(x, rHalf)) }))
	case "math.Abs":
		return one(lift1(args[0], func(x *Term) *Val { return ite(cmpValF("<", x, intTerm(0), false), leaf(negT(x)), leaf(x)) }))
	case "math.Min":
		return one(minMax("min", args[0], args[1]))
	case "math.Max":
		return one(minMax("max", args[0], args[1]))
	case "math.Trunc", "math.Floor":
		// positions are not negative
		return one(lift1(args[0], func(x *Term) *Val { return mkApp("trunc", nil, x) }))
	case "math.Modf":
		tr := lift1(args[0], func(x *Term) *Val { return mkApp("trunc", nil, x) })
		return []*Val{tr, lift2(args[0], tr, func(x, t *Term) *Val { return leaf(subT(x, t)) })}
	case "math.Inf":
		return one(lift1(args[0], func(s *Term) *Val {
			return ite(cmpVal(">=", s, intTerm(0)), leaf(rawApp("inf", nil)), leaf(negT(rawApp("inf", nil))))
		}))
	case "math.IsNaN":
		if !nanAware {
			return one(vFalse)
		}
		return one(lift1(args[0], func(x *Term) *Val {
			if constOf(x) != nil {
				return vFalse
			}
			return notV(orV(cmpValF("<=", x, intTerm(0), true), cmpValF(">", x, intTerm(0), true)))
		}))
	case "math.IsInf":
		return one(lift2(args[0], args[1], func(x, s *Term) *Val { return asBool(rawApp("is:inf", nil, x, s)) }))
	}
	switch {
	case strings.HasPrefix(name, "(*sync.WaitGroup).Go"):
		m.dynCall(args[1], types.NewSignatureType(nil, nil, nil, nil, nil, false), nil, mem)
		return nil
	case strings.HasPrefix(name, "(*sync.Once).Do"):
		giveUp("sync.Once")
	case strings.HasPrefix(name, "(*sync."):
		switch recv := strings.SplitN(name[len("(*sync."):], ")", 2)[0]; recv {
		case "Mutex", "RWMutex", "WaitGroup":
		default:
			giveUp("sync.%s", recv)
		}
		if strings.Contains(name, ").Try") {
			giveUp("%s", name)
		}
		return m.opaqueResults(fn, args)
	case strings.HasPrefix(name, "(*github.com/gammazero/deque.Deque"):
		return m.dequeOp(fn, args, mem)
	case strings.HasPrefix(name, "math/rand.") || strings.HasPrefix(name, "(*math/rand.Rand)"):
		return m.randOp(fn, args, mem)
	case strings.HasPrefix(name, "container/heap."):
		return m.heapOp(fn.Name(), args, mem)
	case name == "time.Now" || strings.HasPrefix(name, "(time.Time).Unix"):
		return m.opaqueResults(fn, args)
	case strings.HasPrefix(name, "math.") || strings.HasPrefix(name, "strings.") || strings.HasPrefix(name, "strconv."):
		return m.opaqueResults(fn, args)
	}
	giveUp("external function %s has no model", name)
	return nil
}

// opaqueResults treats fn as a function of its arguments.
func (m *Machine) opaqueResults(fn *ssa.Function, args []*Val) []*Val {
	sig := fn.Signature
	res := make([]*Val, sig.Results().Len())
	for i := range res {
		i := i
		res[i] = liftN(append([]*Val{vNil}, args...), func(ts []*Term) *Val {
			return leafB(rawApp(fmt.Sprintf("fn:%s.%d", fn.String(), i), sig.Results().At(i).Type(), ts[1:]...))
		})
	}
	return res
}

func qheadT(q *Term) *Val {
	if q.op == "app" && q.aux == "qput" {
		return ite(lift1(qlenT(q.args[0]), func(n *Term) *Val { return cmpVal("<=", n, intTerm(0)) }), leaf(q.args[1]), qheadT(q.args[0]))
	}
	return leaf(rawApp("qhead", nil, q))
}

func qtailT(q *Term) *Val {
	if q.op == "app" && q.aux == "qput" {
		return ite(lift1(qlenT(q.args[0]), func(n *Term) *Val { return cmpVal("<=", n, intTerm(0)) }), leaf(q.args[0]),
			lift1(qtailT(q.args[0]), func(t *Term) *Val { return leaf(rawApp("qput", nil, t, q.args[1])) }))
	}
	return leaf(rawApp("qtail", nil, q))
}

func (m *Machine) dequeOp(fn *ssa.Function, args []*Val, mem Mem) []*Val {
	elem := types.Type(types.Typ[types.Float64])
	if r := fn.Signature.Recv(); r != nil {
		if n, ok := types.Unalias(r.Type().(*types.Pointer).Elem()).(*types.Named); ok && n.TypeArgs().Len() == 1 {
			elem = n.TypeArgs().At(0)
		}
	}
	key := stateKey(m, kDeque+tkey(elem), nil)
	m.deref(args[0])
	d := m.read(mem, key, args[0])
	n := lift1(d, dlenT)
	empty := lift1(n, func(n *Term) *Val { return cmpVal("<=", n, intTerm(0)) })
	set := func(v *Val) { m.write(mem, key, args[0], v) }
	switch fn.Name() {
	case "Len":
		return []*Val{n}
	case "PushBack":
		set(lift2(d, args[1], func(d, x *Term) *Val { return leaf(rawApp("dpushb", nil, d, x)) }))
		return nil
	case "PushFront":
		set(lift2(d, args[1], func(d, x *Term) *Val { return leaf(rawApp("dpushf", nil, d, x)) }))
		return nil
	case "Front", "Back":
		m.panicked = orV(m.panicked, empty)
		return []*Val{lift1(d, func(t *Term) *Val { return dendT(t, fn.Name() == "Back", elem) })}
	case "PopFront", "PopBack":
		m.panicked = orV(m.panicked, empty)
		back := fn.Name() == "PopBack"
		r := lift1(d, func(t *Term) *Val { return dendT(t, back, elem) })
		set(lift1(d, func(t *Term) *Val { return dpopT(t, back) }))
		return []*Val{r}
	case "Clear":
		set(leaf(rawApp("dempty", nil)))
		return nil
	case "At":
		return []*Val{lift2(d, args[1], func(d, i *Term) *Val {
			if c := constOf(i); c != nil && c.Sign() == 0 {
				return dendT(d, false, elem)
			}
			if eqNum(addT(i, intTerm(1)), dlenT(d).leaf) {
				return dendT(d, true, elem)
			}
			return leaf(rawApp("dat", elem, d, i))
		})}
	}
	giveUp("deque method %s has no model", fn.Name())
	return nil
}

func emptyD(d *Term) *Val {
	return lift1(dlenT(d), func(n *Term) *Val { return cmpVal("<=", n, intTerm(0)) })
}

func dendT(d *Term, back bool, elem types.Type) *Val {
	near, far, aux := "dpushf", "dpushb", "dfront"
	if back {
		near, far, aux = far, near, "dback"
	}
	if d.op == "app" {
		switch d.aux {
		case near:
			return leaf(d.args[1])
		case far:
			return ite(emptyD(d.args[0]), leaf(d.args[1]), dendT(d.args[0], back, elem))
		}
	}
	return leaf(rawApp(aux, elem, d))
}

func dpopT(d *Term, back bool) *Val {
	near, far, aux := "dpushf", "dpushb", "dpopf"
	if back {
		near, far, aux = far, near, "dpopb"
	}
	if d.op == "app" {
		switch d.aux {
		case near:
			return leaf(d.args[0])
		case far:
			return ite(emptyD(d.args[0]), leaf(d.args[0]), lift1(dpopT(d.args[0], back), func(t *Term) *Val {
				return leaf(rawApp(far, nil, t, d.args[1]))
			}))
		}
	}
	return leaf(rawApp(aux, nil, d))
}

func (m *Machine) randOp(fn *ssa.Function, args []*Val, mem Mem) []*Val {
	key := stateKey(m, "rand", nil)
	base := vNil
	if fn.Signature.Recv() != nil {
		base = args[0]
		args = args[1:]
	} else if fn.Name() == "New" || fn.Name() == "NewSource" {
		return []*Val{liftN(append([]*Val{vNil}, args...), func(ts []*Term) *Val {
			return leaf(rawApp("fn:"+fn.String(), fn.Signature.Results().At(0).Type(), ts[1:]...))
		})}
	}
	st := m.read(mem, key, base)
	all := append([]*Val{st}, args...)
	r := liftN(all, func(ts []*Term) *Val {
		return leafB(rawApp("rand:"+fn.Name(), fn.Signature.Results().At(0).Type(), ts...))
	})
	m.write(mem, key, base, lift1(st, func(t *Term) *Val { return leaf(rawApp("randnext", nil, t)) }))
	return []*Val{r}
}

// frozen is an interface value whose slice, made by this run, is taken with the
// content that it has now.
func (m *Machine) frozen(mem Mem, v *Val) *Val {
	return lift1(v, func(t *Term) *Val {
		if t.op != "app" || !strings.HasPrefix(t.aux, "iface:") || len(t.args) != 1 || !isSliceApp(t.args[0]) || !isAlloc(sliceBase(t.args[0])) || t.typ == nil {
			return leaf(t)
		}
		st, ok := t.typ.Underlying().(*types.Slice)
		if !ok {
			return leaf(t)
		}
		s := t.args[0]
		m.kept[sliceBase(s)] = true
		return lift1(m.content(mem, s, st.Elem()), func(c *Term) *Val {
			return leaf(rawApp(t.aux, t.typ, mkSlice(rawApp("vbase", nil, c), intTerm(0), s.args[2], s.typ)))
		})
	})
}

/*** container/heap on the repository's heap, by contract ***/

// A heap is the multiset that it holds, behind the key "heap"; the positions of
// items are the heap's own business (rule heap-positions).
func (m *Machine) heapOp(name string, args []*Val, mem Mem) []*Val {
	recv := lift1(args[0], func(t *Term) *Val {
		if t.op == "app" && strings.HasPrefix(t.aux, "iface:") {
			return leaf(t.args[0])
		}
		return leaf(t)
	})
	key := stateKey(m, "heap", nil)
	m.deref(recv)
	h := m.read(mem, key, recv)
	set := func(v *Val) { m.write(mem, key, recv, v) }
	switch name {
	case "Init":
		return nil
	case "Push":
		m.setHeapID(mem, recv, args[1])
		set(lift2(h, args[1], func(h, x *Term) *Val { return leaf(rawApp("hpush", nil, h, x)) }))
		return nil
	case "Pop":
		set(lift1(h, func(h *Term) *Val { return leaf(rawApp("hpop", nil, h)) }))
		return []*Val{lift1(h, func(h *Term) *Val { return leaf(rawApp("htop", nil, h)) })}
	case "Remove":
		set(lift2(h, args[1], func(h, i *Term) *Val { return leaf(rawApp("hremove", nil, h, i)) }))
		return []*Val{lift2(h, args[1], func(h, i *Term) *Val { return leaf(rawApp("hat", nil, h, i)) })}
	case "Fix":
		set(lift2(h, args[1], func(h, i *Term) *Val { return leaf(rawApp("hfix", nil, h, i)) }))
		return nil
	}
	giveUp("container/heap.%s has no model", name)
	return nil
}

func (m *Machine) heapNew(fn *ssa.Function, args []*Val, mem Mem) *Val {
	ht := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
	a := leaf(m.alloc(ht))
	st := ht.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "ID":
			m.store(mem, m.fieldAddr(a, ht, i), args[0], st.Field(i).Type())
		case "cmp":
			m.store(mem, m.fieldAddr(a, ht, i), args[2], st.Field(i).Type())
		}
	}
	key := stateKey(m, "heap", nil)
	c := m.sliceArg(mem, args[1], types.Typ[types.Float64])
	m.write(mem, key, a, lift1(c, func(t *Term) *Val {
		if t.aux == "vec" && len(t.args) == 0 {
			return leaf(rawApp("hempty", nil))
		}
		return leaf(rawApp("hof", nil, t))
	}))
	return a
}

func hlenT(h *Term) *Term {
	if h.op == "app" {
		switch h.aux {
		case "hempty":
			return intTerm(0)
		case "hpush":
			return addT(hlenT(h.args[0]), intTerm(1))
		case "hpop", "hremove":
			return addT(hlenT(h.args[0]), intTerm(-1))
		case "hfix", "hupdate":
			return hlenT(h.args[0])
		}
	}
	return rawApp("hlen", types.Typ[types.Int], h)
}

func (m *Machine) heapMethod(name string, args []*Val, mem Mem) []*Val {
	key := stateKey(m, "heap", nil)
	m.deref(args[0])
	h := m.read(mem, key, args[0])
	switch name {
	case "Len":
		return []*Val{lift1(h, func(h *Term) *Val { return leaf(hlenT(h)) })}
	case "Peek":
		m.panicked = orV(m.panicked, lift1(h, func(h *Term) *Val { return cmpVal("<=", hlenT(h), intTerm(0)) }))
		// the values of the items are those at the time of the last change
		return []*Val{lift1(h, func(h *Term) *Val { return leaf(rawApp("hpeek", types.Typ[types.Float64], h)) })}
	case "Remove":
		m.deref(args[1])
		m.write(mem, key, args[0], lift2(h, args[1], func(h, x *Term) *Val { return leaf(rawApp("hremove", nil, h, x)) }))
		return nil
	case "Update":
		m.deref(args[1])
		vk := "quantile/heap.Item.Val"
		m.keyTyp[vk] = types.Typ[types.Float64]
		m.write(mem, vk, args[1], args[2])
		m.write(mem, key, args[0], liftN([]*Val{h, args[1], args[2]}, func(ts []*Term) *Val { return leaf(rawApp("hupdate", nil, ts...)) }))
		return nil
	}
	return nil
}

func (m *Machine) setHeapID(mem Mem, heap, item *Val) {
	idKey := "quantile/heap.Heap.ID"
	itKey := "quantile/heap.Item.HeapID"
	m.keyTyp[idKey] = types.Typ[types.String]
	m.keyTyp[itKey] = types.Typ[types.String]
	ptr := lift1(item, func(t *Term) *Val {
		if t.op == "app" && strings.HasPrefix(t.aux, "iface:") {
			return leaf(t.args[0])
		}
		return leaf(rawApp("unbox:*"+modPath+"/quantile/heap.Item", nil, t))
	})
	m.write(mem, itKey, ptr, m.read(mem, idKey, heap))
}

/*** fmt ***/

func (m *Machine) sprintf(format, args *Val, mem Mem) *Val {
	es := m.sliceArg(mem, args, types.NewInterfaceType(nil, nil))
	return lift2(format, es, func(f, t *Term) *Val {
		if f.op != "str" || t.op != "app" || t.aux != "vec" {
			return leaf(rawApp("sprintf", types.Typ[types.String], f, t))
		}
		acc := leaf(strTerm(""))
		add := func(v *Val) {
			acc = lift2(acc, v, func(a, b *Term) *Val { return leaf(concatT([]*Term{a, b})) })
		}
		s := f.aux
		n := 0
		for i := 0; i < len(s); {
			if s[i] != '%' {
				j := strings.IndexByte(s[i:], '%')
				if j < 0 {
					j = len(s) - i
				}
				add(leaf(strTerm(s[i : i+j])))
				i += j
				continue
			}
			j := i + 1
			for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
				j++
			}
			if j >= len(s) {
				return leaf(rawApp("sprintf", types.Typ[types.String], f, t))
			}
			if s[j] == '%' {
				add(leaf(strTerm("%")))
				i = j + 1
				continue
			}
			if n >= len(t.args) {
				return leaf(rawApp("sprintf", types.Typ[types.String], f, t))
			}
			if j == i+1 {
				add(m.piece(s[j], t.args[n], mem))
			} else {
				add(leaf(rawApp("fmt:"+s[i:j+1], types.Typ[types.String], t.args[n])))
			}
			n++
			i = j + 1
		}
		return acc
	})
}

func (m *Machine) piece(verb byte, x *Term, mem Mem) *Val {
	if x.op == "app" && strings.HasPrefix(x.aux, "iface:") && x.typ != nil {
		tn := strings.TrimPrefix(x.aux, "iface:")
		if verb == 'v' || verb == 's' {
			if fn := m.methodOf(tn, "String"); fn != nil && hasStringMethod(fn) {
				return m.callFn(fn, []*Val{leafB(x.args[0])}, nil, mem.clone())[0]
			}
			if isStringType(x.typ) {
				return leaf(x.args[0])
			}
		}
		if isIntType(x.typ) && verb == 'd' || verb == 'g' && isFloatType(x.typ) {
			verb = 'v'
		}
		if _, basic := x.typ.Underlying().(*types.Basic); basic {
			// the underlying type decides how it is printed
			return leaf(rawApp("fmt:%"+string(verb), types.Typ[types.String], rawApp("iface:"+tkey(x.typ.Underlying()), x.typ.Underlying(), x.args[0])))
		}
	}
	return leaf(rawApp("fmt:%"+string(verb), types.Typ[types.String], x))
}

func hasStringMethod(fn *ssa.Function) bool {
	s := fn.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isStringType(s.Results().At(0).Type())
}
