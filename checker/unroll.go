package main

import (
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Where loops have no closed form that both sides share, the comparison is
// repeated for the runs in which every loop makes at most a few iterations and
// recursion goes at most as deep. Such runs have no loops in their value graphs,
// so that a difference is a definite one.

// beyondSym marks conditions under which a run goes beyond the bound.
var beyondSym = sym("beyond", types.Typ[types.Bool])

// goBeyond ends the paths on which cond holds.
func (m *Machine) goBeyond(cond *Val) {
	m.beyond = true
	m.panicked = orV(m.panicked, andV(cond, asBool(beyondSym)))
}

// stopCond is when execution does not continue.
func (m *Machine) stopCond(p *Val) *Val {
	if m.unroll == 0 {
		return p
	}
	return substVal(p, valSubst{beyondSym: vTrue})
}

// splitBeyond separates real panics from runs beyond the bound.
func splitBeyond(p *Val) (panics, beyond *Val) {
	panics = substVal(p, valSubst{beyondSym: vFalse})
	all := substVal(p, valSubst{beyondSym: vTrue})
	return panics, andV(all, notV(panics))
}

func (m *Machine) unrollLoop(fr *frame, nest *loopNest, l *natLoop, pc *Val, mem Mem, inits map[*ssa.Phi]*Val, phis []*ssa.Phi) []edge {
	savedRets := len(fr.rets)
	nDefers := len(fr.defers)
	type snap struct {
		pc  *Val
		env map[ssa.Value]*Val
		tup map[ssa.Value][]*Val
	}
	var outside []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && usedOutside(v, l) {
				outside = append(outside, v)
			}
		}
	}
	var exits []edge
	var snaps []snap
	cur := inits
	live := pc
	for n, total := 0, 0; ; total++ {
		outs := m.region(fr, nest, l, l.header, live, mem, cur)
		var back []edge
		s := snap{pc: vFalse, env: map[ssa.Value]*Val{}, tup: map[ssa.Value][]*Val{}}
		for _, e := range outs {
			if e.to == l.header {
				back = append(back, e)
				continue
			}
			exits = append(exits, e)
			s.pc = orV(s.pc, e.pc)
		}
		for _, v := range outside {
			if x, ok := fr.env[v]; ok {
				s.env[v] = x
			}
			if x, ok := fr.tup[v]; ok {
				s.tup[v] = append([]*Val{}, x...)
			}
		}
		if s.pc != vFalse {
			snaps = append(snaps, s)
		}
		if len(back) == 0 {
			break
		}
		next, nm := m.mergeEdges(back)
		if next == vFalse {
			break
		}
		if s.pc != vFalse {
			n++ // an iteration that may as well have been the last
		}
		if n > m.unroll || total > 200 {
			m.beyond = true
			fr.panics = orV(fr.panics, andV(next, asBool(beyondSym)))
			break
		}
		nv := map[*ssa.Phi]*Val{}
		for _, p := range phis {
			nv[p] = m.phi(fr, p, back, next)
		}
		live, mem, cur = next, nm, nv
	}
	if len(fr.rets) != savedRets || len(fr.defers) != nDefers {
		giveUp("return or defer inside the loop at %s", m.p.posOf(l.header.Instrs[0]))
	}
	for _, v := range outside {
		var r *Val
		var rs []*Val
		for i := len(snaps) - 1; i >= 0; i-- {
			s := snaps[i]
			if x, ok := s.env[v]; ok {
				if r == nil {
					r = x
				} else {
					r = ite(s.pc, x, r)
				}
			}
			if x, ok := s.tup[v]; ok {
				if rs == nil {
					rs = append([]*Val{}, x...)
				} else {
					for j := range rs {
						rs[j] = ite(s.pc, x[j], rs[j])
					}
				}
			}
		}
		if r != nil {
			fr.env[v] = r
		}
		if rs != nil {
			fr.tup[v] = rs
		}
	}
	return exits
}

// compareUnrolled compares under the bound. It returns no mismatches when the two
// are equal there, and whether that is everywhere.
func (p *pairing) compareUnrolled(s *status, k int, modular bool, budget time.Duration) (ds []mismatch, exact bool, err error) {
	p.setOpaqueUnrolled(modular)
	p.mi.unroll, p.ms.unroll = k, k
	deadline = time.Now().Add(budget)
	defer func() {
		p.mi.unroll, p.ms.unroll = 0, 0
		deadline = time.Time{}
	}()
	p.mi.beyond, p.ms.beyond = false, false
	ds, err = compareFn(p.mi, p.ms, s.impl, s.spec, p.ms.invariant(s.spec), p.al)
	return ds, !p.mi.beyond && !p.ms.beyond, err
}

func (p *pairing) setOpaqueUnrolled(modular bool) {
	p.mi.opaque, p.ms.opaque = map[*ssa.Function]string{}, map[*ssa.Function]string{}
	if !modular {
		return
	}
	for n, s := range p.fs {
		i := p.fi[n]
		st := p.st[n]
		if i == nil || st == nil || !st.ok {
			continue
		}
		ei, es := p.mi.effects(i), p.ms.effects(s)
		if ei.bad != "" || es.bad != "" {
			continue
		}
		p.mi.peer[i], p.ms.peer[s] = es, ei
		pr := p.ms.plainResults(s)
		p.mi.plain[i], p.ms.plain[s] = pr, pr
		p.mi.opaque[i], p.ms.opaque[s] = n, n
	}
}
