package main

// sharing.go: no package-level object becomes part of an instance (P04), and
// the configs that metrics hand out are copies (P05). Both use the points-to
// analysis of ownership.go, on every exported function and method.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	shareRule  = "no-shared-object"
	configRule = "config-is-a-copy"
)

// mutability tells which types of the repository have values that are changed
// through references to them.
type mutability struct {
	fields map[*types.Named]bool // structs with fields that are set through a pointer from elsewhere
	slices map[string]bool
	maps   map[string]bool
	ptrs   map[string]bool
	full   map[string]bool // slice types of which package initialisation makes nonempty values
}

// local: the address belongs to an object allocated in the same function.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		default:
			return false
		}
	}
}

func newMutability(p *Program) *mutability {
	m := &mutability{map[*types.Named]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}}
	for _, f := range repoFuncs(p) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					m.stored(in.Addr)
				case *ssa.MapUpdate:
					m.maps[in.Map.Type().Underlying().String()] = true
				case *ssa.Call:
					if bi, ok := in.Call.Value.(*ssa.Builtin); ok && len(in.Call.Args) > 0 {
						t := in.Call.Args[0].Type().Underlying()
						switch bi.Name() {
						case "delete", "clear":
							if _, ok := t.(*types.Map); ok {
								m.maps[t.String()] = true
							} else {
								m.slices[t.String()] = true
							}
						case "copy":
							m.slices[t.String()] = true
						}
					}
				}
			}
		}
	}
	for _, sp := range p.SSA {
		for name, mem := range sp.Members {
			f, ok := mem.(*ssa.Function)
			if !ok || !strings.HasPrefix(name, "init") {
				continue
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok {
						continue
					}
					if _, ok := v.Type().Underlying().(*types.Slice); !ok {
						continue
					}
					if s, ok := in.(*ssa.Slice); ok {
						if pt, ok := s.X.Type().Underlying().(*types.Pointer); ok {
							if a, ok := pt.Elem().Underlying().(*types.Array); ok && a.Len() == 0 {
								continue
							}
						}
					}
					m.full[v.Type().Underlying().String()] = true
				}
			}
		}
	}
	return m
}

func (m *mutability) stored(addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if localAddr(a.X) {
			return
		}
		if n := namedOf(a.X.Type()); n != nil {
			m.fields[n] = true
		}
		m.stored(a.X)
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
			if _, fresh := a.X.(*ssa.MakeSlice); !fresh {
				m.slices[a.X.Type().Underlying().String()] = true
			}
		} else {
			m.stored(a.X)
		}
	case *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
	default:
		if pt, ok := addr.Type().Underlying().(*types.Pointer); ok {
			m.ptrs[pt.Elem().String()] = true
		}
	}
}

// changes: what a value of the type refers to may change. The second result is
// false when it is not known.
func (m *mutability) changes(t types.Type, depth int) (bool, bool) {
	if depth > 6 {
		return false, false
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n := namedOf(u); n != nil && n.Obj().Pkg() != nil {
			if !strings.HasPrefix(n.Obj().Pkg().Path(), modPath) {
				return true, true // a library's object: it is there to be used
			}
			if m.fields[n] || m.ptrs[n.String()] {
				return true, true
			}
		}
		if m.ptrs[u.Elem().String()] {
			return true, true
		}
		return m.changes(u.Elem(), depth+1)
	case *types.Map:
		if m.maps[u.String()] {
			return true, true
		}
		return m.changes(u.Elem(), depth+1)
	case *types.Slice:
		if !m.full[u.String()] {
			return false, true // there is nothing in it
		}
		if m.slices[u.String()] {
			return true, true
		}
		return m.changes(u.Elem(), depth+1)
	case *types.Array:
		return m.changes(u.Elem(), depth+1)
	case *types.Struct:
		known := true
		for i := 0; i < u.NumFields(); i++ {
			c, k := m.changes(u.Field(i).Type(), depth+1)
			if c && k {
				return true, true
			}
			known = known && k
		}
		return false, known
	case *types.Chan:
		return true, true
	case *types.Interface:
		if isErrorType(t) {
			return false, true
		}
		return false, false
	}
	return false, true
}

// sharedGlobals lists the package-level objects that the values lead to, with
// the type by which they are referred to: surely (true) or perhaps.
func (o *owner) sharedGlobals(vals []*oval, mem map[oref]*oval) (map[*oobj]bool, map[string]bool) {
	out := map[*oobj]bool{}
	params := map[string]bool{}
	type item struct {
		obj   *oobj
		mixed bool
	}
	seen := map[item]bool{}
	var visitVal func(v *oval, mixed bool)
	visitObj := func(x *oobj, mixed bool) {
		if seen[item{x, mixed}] {
			return
		}
		seen[item{x, mixed}] = true
		if x.global != "" {
			out[x] = out[x] || !mixed
			return
		}
		if x.outside {
			n := strings.TrimPrefix(x.name, "P:")
			params[n] = params[n] || !mixed
			return
		}
		for k, v := range mem {
			if k.obj == x {
				visitVal(v, mixed)
			}
		}
	}
	visitVal = func(v *oval, mixed bool) {
		if v == nil {
			return
		}
		mixed = mixed || v.mixed
		for r := range v.refs {
			visitObj(r.obj, mixed)
		}
		for f := range v.fns {
			for _, b := range f.binds {
				visitVal(b, mixed)
			}
		}
		for _, f := range v.fields {
			visitVal(f, mixed)
		}
	}
	for _, r := range vals {
		visitVal(r, false)
	}
	return out, params
}

func analyseSharing(p *Program, res *Result, id string) {
	mut := newMutability(p)
	for _, fn := range allExported(p) {
		o := &owner{p: p, objs: map[string]*oobj{}, fns: map[string]*ofn{}}
		var args []*oval
		for _, prm := range fn.Params {
			x := o.obj("P:" + prm.Name())
			x.outside = true
			args = append(args, refTo(x, ""))
		}
		key := fnName(fn)
		func() {
			defer func() {
				if e := recover(); e != nil {
					u, ok := e.(undecided)
					if !ok {
						panic(e)
					}
					res.undecided(shareRule, key, u.Error(), "P04")
				}
			}()
			outs, mem := o.run(fn, args, nil, map[oref]*oval{}, "", false)
			var vals []*oval
			for i, r := range outs {
				if !isErrorType(fn.Signature.Results().At(i).Type()) {
					vals = append(vals, r)
				}
			}
			shared, _ := o.sharedGlobals(append(append([]*oval{}, vals...), o.given...), mem)
			var names []*oobj
			for x := range shared {
				names = append(names, x)
			}
			sort.Slice(names, func(i, j int) bool { return names[i].name < names[j].name })
			clean := true
			for _, x := range names {
				c, known := mut.changes(x.typ, 0)
				switch {
				case c && shared[x]:
					clean = false
					res.bad(shareRule, x.global+" in "+key, p.fnPos(fn), fmt.Sprintf("an object that %s makes or sets up refers to the package-level %s (as %s), which all instances then share and change", key, x.global, x.typ), "P04")
				case c || !known:
					clean = false
					res.undecided(shareRule, key, "it may refer to the package-level "+x.global, "P04")
				}
			}
			if clean {
				res.ok(shareRule, key, "P04")
			}
			if fn.Signature.Recv() != nil && returnsConfig(fn) {
				_, params := o.sharedGlobals(vals, mem)
				recv := fn.Params[0].Name()
				sure, any := params[recv]
				switch {
				case any && sure:
					res.bad(configRule, key, p.fnPos(fn), fmt.Sprintf("the config that %s returns refers to memory of the object itself, so that changing it changes the object", key), "P05")
				case any:
					res.undecided(configRule, key, "it may refer to memory of the object", "P05")
				default:
					res.ok(configRule, key, "P05")
				}
			}
		}()
	}
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}
