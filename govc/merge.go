package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Merging of paths where they meet again, for functions whose contract says merge.
//
// The states of the paths that reach the point where the arms of a branch meet
// are replaced with one state that stands for all of them:
// each fact of a path is made conditional on the path's selector,
// and each value is chosen by the selectors.
// States that cannot be expressed as one (different deferred calls, locks held,
// known functions) are left apart.

// joinOf returns the block where the arms of a branch meet, or nil.
func (v *Verif) joinOf(b *ssa.BasicBlock) *ssa.BasicBlock {
	fn := b.Parent()
	if v.joins == nil {
		v.joins = map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}
	}
	m, ok := v.joins[fn]
	if !ok {
		m = postdoms(fn)
		v.joins[fn] = m
	}
	return m[b]
}

// postdoms maps each block to its immediate post-dominator,
// as far as paths that end in the last return go.
func postdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	var exit *ssa.BasicBlock
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 || b == fn.Recover {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if exit == nil || r.Pos() > exit.Instrs[len(exit.Instrs)-1].Pos() {
				exit = b
			}
		}
	}
	res := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	if exit == nil {
		return res
	}
	n := len(fn.Blocks)
	// pd[b] is the set of post-dominators of b; nil: b does not reach the exit.
	pd := make([]map[int]bool, n)
	pd[exit.Index] = map[int]bool{exit.Index: true}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if b == exit {
				continue
			}
			var s map[int]bool
			for _, c := range b.Succs {
				if pd[c.Index] == nil {
					continue
				}
				if s == nil {
					s = map[int]bool{}
					for k := range pd[c.Index] {
						s[k] = true
					}
					continue
				}
				for k := range s {
					if !pd[c.Index][k] {
						delete(s, k)
					}
				}
			}
			if s == nil {
				continue
			}
			s[i] = true
			if len(s) != len(pd[i]) {
				pd[i] = s
				changed = true
			}
		}
	}
	for i, b := range fn.Blocks {
		// The nearest one is the one with the most post-dominators of its own.
		best := -1
		for k := range pd[i] {
			if k != i && (best < 0 || len(pd[k]) > len(pd[best])) {
				best = k
			}
		}
		if best >= 0 {
			res[b] = fn.Blocks[best]
		}
	}
	return res
}

func (v *Verif) mergeHere(fr *Frame) bool {
	if v.C == nil || !v.C.merge {
		return false
	}
	for f := fr; f != nil; f = f.parent {
		if len(f.loops) > 0 {
			return false
		}
	}
	return true
}

// forkMerge runs both arms of a branch up to the block where they meet.
func (v *Verif) forkMerge(fr *Frame, b, j *ssa.BasicBlock, st *State, c *Term) []Outcome {
	base := st.clone()
	n0 := len(st.facts)
	run := func(k int, c *Term) []Outcome {
		s := base.clone()
		s.assume(c)
		if v.contradictory(s) {
			return nil
		}
		f := fr.clone()
		f.stop = append(f.stop[:len(f.stop):len(f.stop)], j)
		return v.runBlock(f, b.Succs[k], b, s)
	}
	outs := append(run(0, c), run(1, Not(c))...)
	var res, at []Outcome
	for _, o := range outs {
		if o.join != nil {
			at = append(at, o)
		} else {
			res = append(res, o)
		}
	}
	phis := phisOf(j)
	for i, o := range at {
		o.res = nil
		for _, p := range phis {
			o.res = append(o.res, o.join.env[p])
		}
		at[i] = o
	}
	for _, o := range v.mergeOutcomes(base, n0, at) {
		f := o.join.clone()
		f.stop = fr.stop
		for i, p := range phis {
			f.env[p] = o.res[i]
		}
		if o.merged {
			// Values defined in one arm are not used after it.
			env := fr.clone().env
			for _, p := range phis {
				env[p] = f.env[p]
			}
			f.env = env
		}
		if n := len(fr.stop); n > 0 && fr.stop[n-1] == j {
			res = append(res, Outcome{st: o.st, join: f})
			continue
		}
		res = append(res, v.runInstrs(f, j, nil, firstNonPhi(j), o.st)...)
	}
	return res
}

func phisOf(b *ssa.BasicBlock) []*ssa.Phi {
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return ps
}

// mergeOutcomes merges the outcomes that can be merged.
// All of them come from the state base, which has n0 facts.
func (v *Verif) mergeOutcomes(base *State, n0 int, outs []Outcome) []Outcome {
	var groups [][]Outcome
next:
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		for i, g := range groups {
			if mergeable(g[0], o) {
				groups[i] = append(g, o)
				continue next
			}
		}
		groups = append(groups, []Outcome{o})
	}
	var res []Outcome
	for _, g := range groups {
		if len(g) == 1 {
			res = append(res, g[0])
			continue
		}
		res = append(res, v.mergeGroup(base, n0, g))
	}
	return res
}

func mergeable(a, b Outcome) bool {
	if a.panic || b.panic || len(a.res) != len(b.res) {
		return false
	}
	if a.join != nil {
		if len(a.join.defers) != len(b.join.defers) {
			return false
		}
		for i, d := range a.join.defers {
			e := b.join.defers[i]
			if d.common != e.common || !sameValue(d.fn, e.fn) || len(d.args) != len(e.args) {
				return false
			}
			for k := range d.args {
				if !sameValue(d.args[k], e.args[k]) {
					return false
				}
			}
		}
	}
	for i := range a.res {
		if !joinable(a.res[i], b.res[i]) {
			return false
		}
	}
	s, t := a.st, b.st
	if s.gor != t.gor && (s.gor == nil || t.gor == nil || len(s.gor.acc) != len(t.gor.acc) || s.gor.done != t.gor.done) {
		return false
	}
	if len(s.unjoined) != len(t.unjoined) || len(s.locked) != len(t.locked) || len(s.tokens) != len(t.tokens) || len(s.opened) != len(t.opened) || len(s.ks) != len(t.ks) {
		return false
	}
	for i := range s.unjoined {
		if s.unjoined[i] != t.unjoined[i] {
			return false
		}
	}
	for i := range s.opened {
		if s.opened[i] != t.opened[i] {
			return false
		}
	}
	return len(s.locked) == 0 && len(s.tokens) == 0 && s.gor == nil
}

// sameValue says whether two values are the same one for certain.
func sameValue(a, b Value) bool {
	if len(a.L) != len(b.L) || (a.Addr == nil) != (b.Addr == nil) || (a.Clo == nil) != (b.Clo == nil) || len(a.Tup) != len(b.Tup) || a.It != b.It || a.NilQ != b.NilQ {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	for i := range a.Tup {
		if !sameValue(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	if a.Addr != nil && a.Addr != b.Addr {
		x, y := a.Addr, b.Addr
		if x.Field != y.Field || x.Struct != y.Struct || x.FIdx != y.FIdx || x.Ref != y.Ref || x.Arr != y.Arr || x.Idx != y.Idx || x.Elem != y.Elem || len(x.Path) != len(y.Path) {
			return false
		}
		for i := range x.Path {
			if x.Path[i] != y.Path[i] {
				return false
			}
		}
	}
	if a.Clo != nil && a.Clo != b.Clo {
		x, y := a.Clo, b.Clo
		if x.Fn != y.Fn || x.Ext != y.Ext || len(x.Binds) != len(y.Binds) || (x.Recv == nil) != (y.Recv == nil) {
			return false
		}
		for i := range x.Binds {
			if !sameValue(x.Binds[i], y.Binds[i]) {
				return false
			}
		}
		if x.Recv != nil && !sameValue(*x.Recv, *y.Recv) {
			return false
		}
	}
	return true
}

// joinable says whether one value can be chosen from two.
func joinable(a, b Value) bool {
	if sameValue(a, b) {
		return true
	}
	if a.Addr != nil || b.Addr != nil || a.Clo != nil || b.Clo != nil || a.It != nil || b.It != nil || a.NilQ != nil || b.NilQ != nil {
		return false
	}
	if len(a.L) != len(b.L) || len(a.Tup) != len(b.Tup) {
		return false
	}
	for i := range a.L {
		if a.L[i].S != b.L[i].S {
			return false
		}
	}
	for i := range a.Tup {
		if !joinable(a.Tup[i], b.Tup[i]) {
			return false
		}
	}
	return true
}

func joinValue(c *Term, a, b Value) Value {
	if sameValue(a, b) {
		a.Own = a.Own && b.Own
		return a
	}
	r := Value{T: a.T, Own: a.Own && b.Own}
	for i := range a.L {
		r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
	}
	for i := range a.Tup {
		r.Tup = append(r.Tup, joinValue(c, a.Tup[i], b.Tup[i]))
	}
	return r
}

func (v *Verif) mergeGroup(base *State, n0 int, g []Outcome) Outcome {
	st := base.clone()
	k := len(g)
	sel := make([]*Term, k)
	if k == 2 {
		a, b := g[0].st.facts, g[1].st.facts
		if len(a) > n0 && len(b) > n0 && a[n0] == Not(b[n0]) {
			sel[0], sel[1] = a[n0], b[n0]
		}
	}
	if sel[0] == nil {
		for i := range sel {
			sel[i] = v.fresh(st, "path", SBool)
		}
		st.assume(Or(sel...))
	}
	// Facts.
	count := map[*Term]int{}
	for _, o := range g {
		for _, f := range o.st.facts[n0:] {
			count[f]++
		}
	}
	for _, f := range g[0].st.facts[n0:] {
		if count[f] == k {
			st.assume(f)
		}
	}
	for i, o := range g {
		for _, f := range o.st.facts[n0:] {
			if count[f] < k && f != sel[i] {
				st.assume(Implies(sel[i], f))
			}
		}
	}
	// Heaps.
	names := map[string]bool{}
	for _, o := range g {
		for n := range o.st.heap {
			names[n] = true
		}
	}
	sorted := make([]string, 0, len(names))
	for n := range names {
		sorted = append(sorted, n)
	}
	sort.Strings(sorted)
	for _, n := range sorted {
		s, _ := v.heapSorts.Load(n)
		ts := make([]*Term, k)
		for i, o := range g {
			ts[i] = v.get(o.st, n, s.(Sort))
		}
		if n == "top" {
			same := true
			for _, t := range ts {
				same = same && t == ts[0]
			}
			if same {
				st.heap[n] = ts[0]
				continue
			}
			nt := v.fresh(st, "top", SInt)
			for i, t := range ts {
				st.assume(Implies(sel[i], Le(t, nt)))
			}
			st.assume(Le(v.get(base, "top", SInt), nt))
			st.heap[n] = nt
			continue
		}
		r := ts[k-1]
		for i := k - 2; i >= 0; i-- {
			r = mergeTerm(sel[i], ts[i], r)
		}
		st.heap[n] = r
	}
	for i := 1; i < k; i++ {
		if !sameHv(g[0].st.hv, g[i].st.hv) {
			v.mergeHv(g)
			break
		}
	}
	st.hv = g[0].st.hv
	res := g[k-1].res
	for i := k - 2; i >= 0; i-- {
		var rs []Value
		for m := range res {
			rs = append(rs, joinValue(sel[i], g[i].res[m], res[m]))
		}
		res = rs
	}
	return Outcome{st: st, res: res, join: g[0].join, merged: true}
}

func sameHv(a, b []hvRec) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].pat != b[i].pat || a[i].id != b[i].id {
			return false
		}
	}
	return true
}

// mergeHv gives heaps that nothing has used yet, and one of the paths forgot, new unknown values.
func (v *Verif) mergeHv(g []Outcome) {
	var all []hvRec
	n := 1 << 30
	for _, o := range g {
		m := 0
		for m < len(o.st.hv) && m < len(g[0].st.hv) && o.st.hv[m].pat == g[0].st.hv[m].pat && o.st.hv[m].id == g[0].st.hv[m].id {
			m++
		}
		if m < n {
			n = m
		}
	}
	all = append(all, g[0].st.hv[:n]...)
	for _, o := range g {
		for _, r := range o.st.hv[n:] {
			all = append(all, hvRec{pat: r.pat, id: nextSeq(), ks: r.ks})
		}
	}
	for _, o := range g {
		o.st.hv = all
	}
}

// mergeTerm chooses between two values of a heap.
func mergeTerm(c, a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.Op != "store" && b.Op != "store" {
		return Ite(c, a, b)
	}
	chain := func(t *Term) (base *Term, in map[*Term]bool) {
		in = map[*Term]bool{t: true}
		for t.Op == "store" {
			t = t.Args[0]
			in[t] = true
		}
		return t, in
	}
	_, ina := chain(a)
	common := b
	for !ina[common] && common.Op == "store" {
		common = common.Args[0]
	}
	if !ina[common] {
		return Ite(c, a, b)
	}
	m := common
	var ups []*Term
	for t := a; t != common; t = t.Args[0] {
		ups = append(ups, t)
	}
	for i := len(ups) - 1; i >= 0; i-- {
		ix := ups[i].Args[1]
		m = Store(m, ix, pick(c, ups[i].Args[2], Select(m, ix)))
	}
	ups = nil
	for t := b; t != common; t = t.Args[0] {
		ups = append(ups, t)
	}
	for i := len(ups) - 1; i >= 0; i-- {
		ix := ups[i].Args[1]
		m = Store(m, ix, pick(c, Select(m, ix), ups[i].Args[2]))
	}
	return m
}

// pick is Ite, with what the condition says known inside.
func pick(c, a, b *Term) *Term {
	for a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	for b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
	}
	return Ite(c, a, b)
}
