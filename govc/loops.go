package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

type loopCtx struct {
	loop    *loop
	back    func(fr *Frame, st *State, prev *ssa.BasicBlock)
	discard bool
	nks     int
	k       *Term
}

// loopAt gives the natural loop with the given header.
func (w *World) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *loop {
	w.gmu.Lock()
	defer w.gmu.Unlock()
	m, ok := w.loopCache[fn]
	if !ok {
		m = map[*ssa.BasicBlock]*loop{}
		for _, blk := range fn.Blocks {
			for _, s := range blk.Succs {
				if s.Dominates(blk) {
					l := m[s]
					if l == nil {
						l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
						m[s] = l
					}
					var add func(x *ssa.BasicBlock)
					add = func(x *ssa.BasicBlock) {
						if l.body[x] {
							return
						}
						l.body[x] = true
						for _, p := range x.Preds {
							add(p)
						}
					}
					add(blk)
				}
			}
		}
		w.loopCache[fn] = m
	}
	return m[b]
}

var mentionMu sync.Mutex

func mentions(t, x *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == x {
			return true
		}
		if len(t.Args) == 0 || seen[t] || t.seq < x.seq {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

type leafInfo struct {
	kind string // "same", "linear", "free"
	step int64
	sym  *Sym
}

type phiInfo struct {
	phi    *ssa.Phi
	init   Value
	slice  bool // an owned slice, known by its content
	csym   *Sym
	nilsym *Sym
	leaves []leafInfo
}

type heapInfo struct {
	full  bool
	fresh bool
	addrs []*Term
	syms  []*Sym
	base  *Sym
	sort  Sort
}

type backEdge struct {
	fr   *Frame
	st   *State
	vals []Value
	nf   []*Term // facts since the header
}

type loopRun struct {
	v     *Verif
	fr    *Frame
	l     *loop
	entry *State // state at loop entry
	phis  []*phiInfo
	heaps map[string]*heapInfo
	hv    []hvRec
	ksym  *Sym
	k     *Term
	backs []*backEdge
	// The accesses of goroutines started in earlier iterations.
	gen []gorAcc
	j0  *Term
}

func (lr *loopRun) ks() []*Term { return lr.entry.ks }

func (lr *loopRun) at(s *Sym, k *Term) *Term {
	return app(s, append(append([]*Term(nil), lr.ks()...), k)...)
}

func (lr *loopRun) newSym(base string, s Sort) *Sym {
	return freshSym(base, s, append(sortsOf(lr.ks()), SInt)...)
}

func (lr *loopRun) leafAt(p *phiInfo, i int, k *Term) *Term {
	lf := p.leaves[i]
	switch lf.kind {
	case "same":
		return p.init.L[i]
	case "linear":
		return Add(p.init.L[i], Mul(Int(lf.step), k))
	}
	return lr.at(lf.sym, k)
}

func (lr *loopRun) heapAt(name string, h *heapInfo, k *Term) *Term {
	v := lr.v
	t := v.get(lr.entry, name, h.sort)
	if h.base != nil {
		t = lr.at(h.base, k)
	}
	if h.full {
		return t
	}
	for i, a := range h.addrs {
		t = Store(t, a, lr.at(h.syms[i], k))
	}
	return t
}

// header makes the state at the beginning of iteration k.
func (lr *loopRun) header() (*Frame, *State) {
	v := lr.v
	fr := lr.fr.clone()
	st := lr.entry.clone()
	st.ks = append(st.ks[:len(st.ks):len(st.ks)], lr.k)
	st.hv = append(st.hv[:len(st.hv):len(st.hv)], lr.hv...)
	for _, name := range sortedKeys(lr.heaps) {
		h := lr.heaps[name]
		v.set(st, name, lr.heapAt(name, h, lr.k))
		t0 := v.get(lr.entry, name, h.sort)
		if name == "top" {
			st.assume(Le(t0, st.heap[name]))
		}
		if h.base != nil && !h.full && strings.HasPrefix(string(h.sort), "(Array") {
			// Only new objects and the listed addresses change.
			r := Var("r!h", SInt)
			top0 := v.get(lr.entry, "top", SInt)
			base := lr.at(h.base, lr.k)
			st.assume(Forall([]*Term{r}, Implies(Lt(r, top0), Eq(Select(base, r), Select(t0, r))), []*Term{Select(base, r)}))
			j := Var("j!h", SInt)
			th := lr.heaps["top"]
			if len(h.addrs) == 0 {
				tj := lr.at(th.base, j)
				st.assume(Forall([]*Term{r, j}, Implies(And(Le(Int(0), j), Le(j, lr.k), Lt(r, tj)), Eq(Select(base, r), Select(lr.at(h.base, j), r))), []*Term{Select(base, r), tj}))
			}
		}
	}
	for _, p := range lr.phis {
		x := Value{T: p.phi.Type(), Addr: p.init.Addr, Clo: p.init.Clo, Tup: p.init.Tup, It: p.init.It, Own: p.init.Own}
		if p.slice {
			x = v.newSlice(st, p.phi.Type(), lr.at(p.csym, lr.k))
			x.NilQ = lr.at(p.nilsym, lr.k)
			st.assume(Implies(x.NilQ, Eq(x.L[2], Int(0))))
		} else {
			for i := range p.leaves {
				x.L = append(x.L, lr.leafAt(p, i, lr.k))
			}
			if !x.allSame(p) {
				x.Own = false
				x.Clo = nil
				v.refFacts(st, x.T, x.L)
				v.closureOf(st, &x)
			}
		}
		fr.env[p.phi] = x
	}
	if lr.j0 != nil {
		st.assume(Le(Int(0), lr.j0))
		st.assume(Lt(lr.j0, lr.k))
		for _, g := range lr.gen {
			st.unjoined = append(st.unjoined, g)
		}
		// What iteration j0 allocated was allocated before now.
		th := lr.heaps["top"]
		for _, g := range lr.gen {
			if isTopBased(g.ref) {
				st.assume(Lt(g.ref, lr.at(th.base, lr.k)))
				if mentions(g.ref, lr.j0) {
					// Allocated in that iteration, after what there was at the start of the loop.
					st.assume(Le(v.get(lr.entry, "top", SInt), lr.at(th.base, lr.j0)))
					st.assume(Le(lr.at(th.base, lr.j0), g.ref))
				}
			}
		}
	}
	return fr, st
}

func (x Value) allSame(p *phiInfo) bool {
	for _, l := range p.leaves {
		if l.kind != "same" {
			return false
		}
	}
	return true
}

// run executes the body once from the given header state and collects the back edges.
func (lr *loopRun) run(fr *Frame, st *State, discard bool) []Outcome {
	v := lr.v
	lr.backs = nil
	base := len(st.facts)
	lc := &loopCtx{loop: lr.l, discard: discard, nks: len(lr.ks()), k: lr.k}
	lc.back = func(f *Frame, s *State, prev *ssa.BasicBlock) {
		if s.dead {
			return
		}
		b := &backEdge{fr: f, st: s, nf: s.facts[base:]}
		idx := predIndex(lr.l.header, prev)
		for _, p := range lr.phis {
			x := v.val(f, s, p.phi.Edges[idx])
			x.T = p.phi.Type()
			b.vals = append(b.vals, x)
		}
		lr.backs = append(lr.backs, b)
	}
	fr.loops = append(fr.loops[:len(fr.loops):len(fr.loops)], lc)
	return v.runInstrs(fr, lr.l.header, nil, firstNonPhi(lr.l.header), st)
}

func (v *Verif) runLoop(fr *Frame, l *loop, prev *ssa.BasicBlock, st *State) []Outcome {
	lr := &loopRun{v: v, fr: fr, l: l, entry: st, heaps: map[string]*heapInfo{}}
	lr.ksym = freshSym("K", SInt, sortsOf(st.ks)...)
	lr.ksym.NonNeg = true
	lr.k = app(lr.ksym, st.ks...)
	k := predIndex(l.header, prev)
	for _, in := range l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		x := v.val(fr, st, p.Edges[k])
		x.T = p.Type()
		if x.Clo != nil && len(x.L) == 0 {
			x = v.materialize(st, x)
		}
		pi := &phiInfo{phi: p, init: x, leaves: make([]leafInfo, len(x.L))}
		for i := range pi.leaves {
			pi.leaves[i].kind = "same"
		}
		lr.phis = append(lr.phis, pi)
	}
	lr.heaps["top"] = &heapInfo{full: true, sort: SInt, base: freshTop(lr)}
	// Find out what changes.
	v.silent++
	for round := 0; ; round++ {
		if round > 12 {
			v.silent--
			panic(unsupported("loop does not stabilize in " + funcName(fr.fn)))
		}
		f, s := lr.header()
		if v.contradictory(s) {
			break
		}
		lr.run(f, s.clone(), true)
		if !lr.promote(s) {
			break
		}
	}
	// What goroutines started in earlier iterations may be using.
	n0 := len(lr.entry.unjoined)
	for _, b := range lr.backs {
		if len(b.st.unjoined) > n0 {
			if lr.j0 == nil {
				lr.j0 = app(freshSym("J", SInt, sortsOf(lr.ks())...), lr.ks()...)
				setNonNeg(lr.j0.Name)
			}
			m := map[*Term]*Term{lr.k: lr.j0}
			for _, g := range b.st.unjoined[n0:] {
				if g.wg != nil {
					g.wg = subst(g.wg, m)
				}
				g.ref = subst(g.ref, m)
				if g.idx != nil {
					g.idx = subst(g.idx, m)
				}
				lr.gen = append(lr.gen, g)
			}
		}
	}
	// Invariants.
	invs := lr.houdini()
	v.silent--
	backs := lr.backs
	f, s := lr.header()
	if s.dead {
		return nil
	}
	for _, t := range invs {
		s.assume(t)
	}
	lr.assumeSteps(s, backs)
	if v.silent == 0 && os.Getenv("GOVC_LOOPS") != "" {
		fmt.Fprintf(os.Stderr, "loop in %s at %s: %d back edges, %d invariants\n", funcName(fr.fn), l.header, len(backs), len(invs))
		for _, p := range lr.phis {
			ks := ""
			for _, x := range p.leaves {
				ks += x.kind + " "
			}
			fmt.Fprintf(os.Stderr, "   phi %s %s slice=%v %s\n", p.phi.Name(), p.phi.Comment, p.slice, ks)
		}
		for _, n := range sortedKeys(lr.heaps) {
			fmt.Fprintf(os.Stderr, "   heap %s full=%v fresh=%v addrs=%v\n", n, lr.heaps[n].full, lr.heaps[n].fresh, lr.heaps[n].addrs)
		}
		for _, t := range invs {
			fmt.Fprintf(os.Stderr, "   inv %s\n", t)
		}
	}
	outs := lr.run(f, s, false)
	for _, b := range lr.backs {
		lr.backChecks(b)
	}
	return outs
}

func freshTop(lr *loopRun) *Sym {
	return freshSym("top", SInt, append(sortsOf(lr.entry.ks), SInt)...)
}

// backChecks are obligations at the end of an iteration.
func (lr *loopRun) backChecks(b *backEdge) {
	v := lr.v
	if len(b.st.locked) != len(lr.entry.locked) {
		v.oblige(b.st, b.fr, "locks are balanced in each iteration", TFalse, lr.l.header.Instrs[0].Pos(), v.concLabels())
	}
}

// promote extends the set of things that change, and tells whether that was necessary.
func (lr *loopRun) promote(hdr *State) bool {
	v := lr.v
	changed := false
	for pi, p := range lr.phis {
		cur := lr.backsCur(p)
		fresh := map[int]bool{} // leaves found to be linear just now
		for _, b := range lr.backs {
			x := b.vals[pi]
			if p.slice {
				if !x.Own && !(len(x.L) == 4 && x.L[2] == Int(0)) {
					// No longer owned: give up.
					p.slice = false
					p.init.Own = false
					for i := range p.leaves {
						p.leaves[i].kind = "free"
						p.leaves[i].sym = lr.newSym("ph", leafSorts(p.phi.Type())[i])
						v.assumeInit(lr, p, i)
					}
					changed = true
				}
				continue
			}
			if x.Clo != nil && len(x.L) == 0 {
				x = v.materialize(b.st, x)
				b.vals[pi] = x
			}
			if x.Addr != nil || p.init.Addr != nil || x.It != nil || len(x.Tup) > 0 {
				if x.Addr == p.init.Addr && x.It == p.init.It && len(x.Tup) == 0 {
					continue
				}
				panic(unsupported("address of a field or element changes in a loop"))
			}
			same := true
			for i := range x.L {
				if x.L[i] != cur[i] {
					same = false
				}
			}
			if same {
				continue
			}
			if _, ok := p.phi.Type().Underlying().(*types.Slice); ok && p.init.Own && (x.Own || x.L[2] == Int(0)) && p.allSameLeaves() {
				p.slice = true
				so := SSeq
				if isByteSlice(p.phi.Type()) {
					so = SStr
				}
				p.csym = lr.newSym("acc", so)
				p.nilsym = lr.newSym("accnil", SBool)
				lr.entry.assume(Eq(lr.at(p.csym, Int(0)), v.content(lr.entry, p.init)))
				changed = true
				continue
			}
			for i := range x.L {
				lf := &p.leaves[i]
				switch lf.kind {
				case "same", "linear":
					want := p.init.L[i]
					step := int64(0)
					if lf.kind == "linear" && fresh[i] {
						want = Add(want, Int(lf.step))
					} else if lf.kind == "linear" {
						want = Add(lr.leafAt(p, i, lr.k), Int(lf.step))
						step = lf.step
					}
					if x.L[i] == want {
						continue
					}
					if lf.kind == "same" && x.L[i].S == SInt {
						if d, ok := diff(x.L[i], p.init.L[i]); ok && d != 0 {
							lf.kind, lf.step = "linear", d
							fresh[i] = true
							changed = true
							continue
						}
					}
					_ = step
					lf.kind = "free"
					lf.sym = lr.newSym("ph", x.L[i].S)
					v.assumeInit(lr, p, i)
					changed = true
				}
			}
		}
	}
	for _, b := range lr.backs {
		// Heaps.
		for _, name := range sortedHeapNames(b.st.heap) {
			cur := b.st.heap[name]
			was := v.get(hdr, name, cur.S)
			if cur == was {
				continue
			}
			h := lr.heaps[name]
			if h == nil {
				h = &heapInfo{sort: cur.S}
				lr.heaps[name] = h
				changed = true
			}
			if lr.classify(name, h, cur, was) {
				changed = true
			}
		}
		if len(b.st.hv) > len(hdr.hv) {
			for _, r := range b.st.hv[len(hdr.hv):] {
				dup := false
				for _, q := range lr.hv {
					if q.pat == r.pat {
						dup = true
					}
				}
				if !dup {
					lr.hv = append(lr.hv, hvRec{pat: r.pat, id: nextSeq(), ks: append(append([]*Term(nil), lr.ks()...), lr.k)})
					changed = true
				}
			}
		}
	}
	return changed
}

func (p *phiInfo) allSameLeaves() bool {
	for _, l := range p.leaves {
		if l.kind != "same" {
			return false
		}
	}
	return true
}

func (v *Verif) assumeInit(lr *loopRun, p *phiInfo, i int) {
	lr.entry.assume(Eq(lr.at(p.leaves[i].sym, Int(0)), p.init.L[i]))
}

func (lr *loopRun) backsCur(p *phiInfo) []*Term {
	var out []*Term
	if p.slice {
		return nil
	}
	for i, lf := range p.leaves {
		x := lr.leafAt(p, i, lr.k)
		if lf.kind == "linear" {
			x = Add(x, Int(lf.step))
		} else if lf.kind == "free" {
			x = nil
		}
		out = append(out, x)
	}
	// A free leaf may have any value.
	for i, lf := range p.leaves {
		if lf.kind == "free" {
			out[i] = nil
		}
	}
	return out
}

// classify updates what is known of the changes to a heap.
func (lr *loopRun) classify(name string, h *heapInfo, cur, was *Term) bool {
	v := lr.v
	if h.full {
		return false
	}
	needBase := func() {
		if h.base == nil {
			base := name
			h.base = lr.newSym("hp:"+base, h.sort)
			t0 := v.get(lr.entry, name, h.sort)
			if !h.full {
				h.base.Before, h.base.KS, h.base.Since = t0, lr.ks(), lr.heaps["top"].base.Seq
			}
			lr.entry.assume(Eq(lr.at(h.base, Int(0)), t0))
		}
	}
	setFull := func() bool {
		h.full = true
		h.addrs, h.syms = nil, nil
		h.fresh = false
		// A new base: the old one was subject to a frame condition.
		h.base = nil
		needBase()
		return true
	}
	if !strings.HasPrefix(string(h.sort), "(Array Int") || !isHeapName(name) {
		return setFull()
	}
	// Peel the stores.
	changed := false
	t := cur
	for t != was {
		if t.Op == "ite" {
			return setFull()
		}
		if x := innerFrame(t); x != nil {
			// A loop within changed it, but only at objects that are new.
			if !h.fresh {
				h.fresh = true
				needBase()
				changed = true
			}
			t = x
			continue
		}
		if t.Op != "store" {
			// Perhaps the stores of the header were overwritten.
			if lr.isBase(t, h, was) {
				break
			}
			return setFull()
		}
		a := t.Args[1]
		t = t.Args[0]
		known := false
		for _, x := range h.addrs {
			if x == a {
				known = true
			}
		}
		if known {
			continue
		}
		if isTopBased(a) && mentions(a, lr.k) {
			if !h.fresh {
				h.fresh = true
				needBase()
				changed = true
			}
			continue
		}
		if mentions(a, lr.k) {
			return setFull()
		}
		if Select(cur, a) == Select(was, a) {
			continue // what was there is stored again
		}
		if os.Getenv("GOVC_DBG2") != "" {
			fmt.Fprintln(os.Stderr, "ADDR", name, a, "WAS", Select(was, a), "NOW", Select(cur, a))
		}
		h.addrs = append(h.addrs, a)
		s := lr.newSym("at:"+name, valSortOf(h.sort))
		h.syms = append(h.syms, s)
		lr.entry.assume(Eq(lr.at(s, Int(0)), Select(v.get(lr.entry, name, h.sort), a)))
		changed = true
	}
	return changed
}

// innerFrame gives the heap before a loop that changed it only at new objects, or nil.
func innerFrame(t *Term) *Term {
	if t.Op != "sym" || len(t.Args) == 0 {
		return nil
	}
	s := syms[t.Name]
	if s.Before == nil {
		return nil
	}
	for j, k := range s.KS {
		if t.Args[j] != k {
			return nil
		}
	}
	return s.Before
}

func isHeapName(n string) bool {
	return strings.HasPrefix(n, "F:") || strings.HasPrefix(n, "C:") || strings.HasPrefix(n, "M:") || n == "E" || n == "B" || n == "wgcount"
}

func valSortOf(s Sort) Sort {
	_, v := arrParts(s)
	return v
}

func (lr *loopRun) isBase(t *Term, h *heapInfo, was *Term) bool {
	for was.Op == "store" {
		was = was.Args[0]
		if t == was {
			return true
		}
	}
	return false
}

// steps relates the state after iteration k to the state at its beginning.
func (lr *loopRun) steps(b *backEdge) []*Term {
	v := lr.v
	var out []*Term
	k1 := Add(lr.k, Int(1))
	for pi, p := range lr.phis {
		x := b.vals[pi]
		if p.slice {
			out = append(out, Eq(lr.at(p.csym, k1), v.content(b.st, x)))
			continue
		}
		for i, lf := range p.leaves {
			if lf.kind == "free" {
				out = append(out, Eq(lr.at(lf.sym, k1), x.L[i]))
			}
		}
	}
	for _, name := range sortedKeys(lr.heaps) {
		h := lr.heaps[name]
		cur := v.get(b.st, name, h.sort)
		for i, a := range h.addrs {
			out = append(out, Eq(lr.at(h.syms[i], k1), Select(cur, a)))
		}
		if h.base != nil {
			if len(h.addrs) == 0 {
				out = append(out, Eq(lr.at(h.base, k1), cur))
			} else {
				out = append(out, Eq(lr.heapAt(name, h, k1), cur))
			}
		}
	}
	return out
}

// assumeSteps adds what is known of all the earlier iterations.
func (lr *loopRun) assumeSteps(st *State, backs []*backEdge) {
	j := Var("j!"+lr.ksym.Name, SInt)
	var alts []*Term
	for _, b := range backs {
		if v := lr.v; v.contradictory(b.st) {
			continue
		}
		fs := append(append([]*Term(nil), b.nf...), lr.steps(b)...)
		alts = append(alts, And(fs...))
		if os.Getenv("GOVC_DBG") != "" {
			fmt.Fprintln(os.Stderr, "BACK")
			for _, f := range fs {
				s := fmt.Sprint(f)
				if len(s) > 400 {
					s = s[:400]
				}
				fmt.Fprintln(os.Stderr, "    ", s)
			}
		}
	}
	if len(alts) == 0 {
		st.assume(Eq(lr.k, Int(0)))
		return
	}
	body := Or(alts...)
	m := map[*Term]*Term{lr.k: j}
	st.assume(Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, lr.k)), subst(body, m)), lr.patterns(body, j, m)...))
	// The last iteration, for solvers that have no term to instantiate this with.
	last := map[*Term]*Term{lr.k: Sub(lr.k, Int(1))}
	st.assume(Implies(Lt(Int(0), lr.k), subst(body, last)))
}

// patterns are terms of which the instance at j lets the solver use what is known about iteration j.
func (lr *loopRun) patterns(body *Term, j *Term, m map[*Term]*Term) [][]*Term {
	seen := map[*Term]bool{}
	var pats [][]*Term
	add := func(t *Term) {
		t = subst(t, m)
		for _, p := range pats {
			if p[0] == t {
				return
			}
		}
		if len(pats) < 12 {
			pats = append(pats, []*Term{t})
		}
	}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.Op == "forall" {
			return
		}
		seen[t] = true
		if t.Op == "sym" && t.Name == "seqnth" && t.Args[1] == lr.k && !mentions(t.Args[0], lr.k) && !t.bv {
			add(t)
		}
		if t.Op == "select" && t.Args[1] == lr.k && !t.bv {
			add(t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	for _, p := range lr.phis {
		if p.slice {
			add(lr.at(p.csym, lr.k))
		}
		for _, lf := range p.leaves {
			if lf.kind == "free" {
				add(lr.at(lf.sym, lr.k))
			}
		}
	}
	for _, n := range sortedKeys(lr.heaps) {
		h := lr.heaps[n]
		for _, s := range h.syms {
			add(lr.at(s, lr.k))
		}
		if h.base != nil && n != "top" {
			add(lr.at(h.base, lr.k))
		}
	}
	if len(pats) == 0 {
		add(lr.at(lr.heaps["top"].base, lr.k))
	}
	return pats
}

// ---- invariants of the contracts, of which those that hold are used

type candidate struct {
	c    *Clause
	bind func(ev *Eval, b *backEdge, phase int)
	hdr  *Term
	dead bool
}

func (lr *loopRun) houdini() []*Term {
	v := lr.v
	var clauses []*Clause
	if v.C != nil {
		clauses = append(clauses, v.C.invariants...)
	}
	for f := lr.fr; f != nil; f = f.parent {
		if f.fn == v.Fn {
			continue
		}
		if c := v.S.contracts[funcName(f.fn)]; c != nil && c != v.C {
			clauses = append(clauses, c.invariants...)
		}
	}
	autos := false
	for _, p := range lr.phis {
		if p.slice {
			autos = true
		}
	}
	if len(clauses) == 0 && !autos {
		return nil
	}
	hf, hs := lr.header()
	// The entry state has the initial values and no iterations done.
	type where struct {
		fr  *Frame
		st  *State
		k   *Term
		val func(i int) Value
	}
	entry := where{lr.fr, lr.entry, Int(0), func(i int) Value { return lr.phis[i].init }}
	head := where{hf, hs, lr.k, func(i int) Value { return hf.env[lr.phis[i].phi] }}
	var backs []where
	for _, b := range lr.backs {
		b := b
		if v.contradictory(b.st) {
			continue
		}
		backs = append(backs, where{b.fr, b.st, Add(lr.k, Int(1)), func(i int) Value { return b.vals[i] }})
	}
	type cand struct {
		c    *Clause
		sel  func(w where) (SV, bool)
		hdr  *Term
		ent  *Term
		bks  []*Term
		dead bool
	}
	evalAt := func(c *Clause, w where, sel func(w where) (SV, bool)) (t *Term) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case specErr, unsupported:
					if os.Getenv("GOVC_INV") != "" {
						fmt.Fprintf(os.Stderr, "invariant %s: %v\n", c.text, r)
					}
					t = nil
				default:
					panic(r)
				}
			}
		}()
		ev := v.newEval(w.fr, w.st, v.entry)
		ev.entry = lr.entry
		if v.top != nil {
			ev.bindParams(v.top.fn, v.top.args)
		}
		if v.C != nil {
			ev.letsOf(v.C)
		}
		if w.fr.fn != v.Fn {
			// Parameters of an inlined function, where they do not hide those of the outer one.
			for i, p := range w.fr.fn.Params {
				ev.env[p.Name()] = SV{Value: w.fr.args[i]}
			}
		}
		ev.env["k"] = raw(w.k)
		local := func(name string, x SV) {
			if _, ok := ev.env[name]; !ok {
				ev.env[name] = x
			}
		}
		for _, b := range w.fr.fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					x, ok := w.fr.env[in]
					if !ok || len(x.L) != 1 || in.Comment == "" {
						continue
					}
					p := in.Type().Underlying().(*types.Pointer)
					if _, isS := isStruct(p.Elem()); !isS {
						local(in.Comment, SV{Value: v.loadRef(nil, w.st, x.L[0], p.Elem(), 0)})
					}
				case *ssa.Next:
					if !lr.l.body[b] {
						continue
					}
					if x, ok := w.fr.env[in.Iter]; ok && x.It != nil {
						local("it", rawSeq(x.It.Seq, x.It.Map.T.Underlying().(*types.Map).Key()))
					}
				}
			}
		}
		// Variables of closures.
		for _, fv := range w.fr.fn.FreeVars {
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok {
				if x := w.fr.env[fv]; len(x.L) == 1 {
					if _, isS := isStruct(p.Elem()); !isS {
						local(fv.Name(), SV{Value: v.loadRef(nil, w.st, x.L[0], p.Elem(), 0)})
					}
				}
			}
		}
		if _, ok := ev.env["it"]; !ok {
			if x := lr.ranged(); x != nil {
				if s, ok := lr.fr.env[x]; ok && isSlice(x.Type()) {
					ev.env["it"] = SV{Value: s}
				}
			}
		}
		for i, p := range lr.phis {
			if n := p.phi.Comment; n != "" && token_isName(n) {
				ev.env[n] = SV{Value: w.val(i)}
			}
		}
		if sel != nil {
			x, ok := sel(w)
			if !ok {
				return nil
			}
			ev.env[c.forVar] = x
		}
		return ev.boolExpr(c.e)
	}
	var cands []*cand
	for _, c := range clauses {
		if c.forVar == "" {
			cands = append(cands, &cand{c: c})
			continue
		}
		T := func() (t types.Type) {
			defer func() { recover() }()
			return v.W.parseType(fnPkg(lr.fr.fn), c.forTyp)
		}()
		if T == nil {
			continue
		}
		for i, p := range lr.phis {
			i := i
			if typeKey(p.phi.Type()) == typeKey(T) {
				cands = append(cands, &cand{c: c, sel: func(w where) (SV, bool) { return SV{Value: w.val(i)}, true }})
			}
		}
		// Values that do not change in the loop.
		for _, b := range lr.fr.fn.Blocks {
			if lr.l.body[b] {
				continue
			}
			for _, in := range b.Instrs {
				val, ok := in.(ssa.Value)
				if !ok || typeKey(val.Type()) != typeKey(T) {
					continue
				}
				if _, ok := lr.fr.env[val]; ok {
					cands = append(cands, &cand{c: c, sel: func(w where) (SV, bool) {
						x, ok := w.fr.env[val]
						return SV{Value: x}, ok
					}})
				}
			}
		}
		// Variables in memory.
		var as []*ssa.Alloc
		for val := range lr.fr.env {
			if a, ok := val.(*ssa.Alloc); ok && typeKey(a.Type().Underlying().(*types.Pointer).Elem()) == typeKey(T) {
				as = append(as, a)
			}
		}
		sort.Slice(as, func(i, j int) bool { return as[i].Name() < as[j].Name() })
		for _, a := range as {
			a := a
			cands = append(cands, &cand{c: c, sel: func(w where) (SV, bool) {
				x, ok := w.fr.env[a]
				if !ok || len(x.L) != 1 {
					return SV{}, false
				}
				return SV{Value: v.loadRef(nil, w.st, x.L[0], T, 0)}, true
			}})
		}
		// Variables of enclosing functions, captured.
		for _, fv := range lr.fr.fn.FreeVars {
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok && typeKey(p.Elem()) == typeKey(T) {
				fv := fv
				cands = append(cands, &cand{c: c, sel: func(w where) (SV, bool) {
					x, ok := w.fr.env[fv]
					if !ok || len(x.L) != 1 {
						return SV{}, false
					}
					return SV{Value: v.loadRef(nil, w.st, x.L[0], T, 0)}, true
				}})
			}
		}
	}
	var live []*cand
	for _, c := range cands {
		c.hdr = evalAt(c.c, head, c.sel)
		if c.hdr == nil || c.hdr == TTrue {
			continue
		}
		c.ent = evalAt(c.c, entry, c.sel)
		ok := c.ent != nil
		for _, b := range backs {
			t := evalAt(c.c, b, c.sel)
			c.bks = append(c.bks, t)
			if t == nil {
				ok = false
			}
		}
		if ok {
			live = append(live, c)
		}
	}
	// What holds of every slice that is only appended to.
	for i, p := range lr.phis {
		if !p.slice || len(backs) == 0 {
			continue
		}
		init := v.content(lr.entry, p.init)
		acc := lr.at(p.csym, lr.k)
		var curs, es []*Term
		appended, one := true, true
		for _, b := range backs {
			cur := v.content(b.st, b.val(i))
			curs = append(curs, cur)
			if cur == acc {
				one = false
				continue
			}
			ps := seqParts(cur)
			if len(ps) < 2 || ps[0] != acc {
				appended, one = false, false
				break
			}
			if len(ps) != 2 || !isSym(ps[1], "sequnit") {
				one = false
				continue
			}
			es = append(es, ps[1].Args[0])
		}
		if !appended {
			continue
		}
		auto := func(text string, f func(cur, k *Term) *Term) {
			c := &cand{c: &Clause{text: text}, hdr: f(acc, lr.k), ent: f(init, Int(0))}
			for _, cur := range curs {
				c.bks = append(c.bks, f(cur, Add(lr.k, Int(1))))
			}
			live = append(live, c)
		}
		j := Var("j!a", SInt)
		if one {
			auto("the length grows by one", func(cur, k *Term) *Term { return Eq(Len(cur), Add(Len(init), k)) })
		} else {
			auto("the length grows", func(cur, k *Term) *Term { return Le(Len(init), Len(cur)) })
		}
		same := one
		for _, e := range es {
			if e != es[0] {
				same = false
			}
		}
		if same && one {
			auto("the elements appended", func(cur, k *Term) *Term {
				nth := Nth(cur, Add(Len(init), j))
				return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, k)), Eq(nth, subst(es[0], map[*Term]*Term{lr.k: j}))))
			})
		} else {
			auto("the earlier values are prefixes", func(cur, k *Term) *Term {
				a := lr.at(p.csym, j)
				return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, k)), Eq(Take(cur, Len(a)), a)))
			})
		}
	}
	ms := 3000
	if v.silent > 1 {
		ms = 1000
	}
	par := func(n int, f func(i int)) {
		var wg sync.WaitGroup
		for i := 0; i < n; i++ {
			wg.Add(1)
			go func(i int) { defer wg.Done(); f(i) }(i)
		}
		wg.Wait()
	}
	par(len(live), func(i int) {
		c := live[i]
		r := prove(lr.entry.facts, c.ent, ms, false)
		if r.Verdict != "unsat" {
			c.dead = true
			if os.Getenv("GOVC_INV") != "" {
				fmt.Fprintf(os.Stderr, "invariant %s does not hold at entry: %s\n", c.c.text, c.ent)
			}
		}
	})
	for again := true; again; {
		again = false
		var hyps []*Term
		var cur []*cand
		for _, c := range live {
			if !c.dead {
				hyps = append(hyps, c.hdr)
				cur = append(cur, c)
			}
		}
		live = cur
		type job struct{ c, b int }
		var jobs []job
		for ci := range live {
			for bi := range backs {
				jobs = append(jobs, job{ci, bi})
			}
		}
		fail := make([]bool, len(live))
		var mu sync.Mutex
		par(len(jobs), func(i int) {
			j := jobs[i]
			mu.Lock()
			if fail[j.c] {
				mu.Unlock()
				return
			}
			mu.Unlock()
			facts := append(append([]*Term(nil), hyps...), backs[j.b].st.facts...)
			r := prove(facts, live[j.c].bks[j.b], ms, false)
			if r.Verdict != "unsat" {
				mu.Lock()
				fail[j.c] = true
				mu.Unlock()
				if os.Getenv("GOVC_INV") == "2" {
					scriptMu.Lock()
					os.WriteFile(fmt.Sprintf("/tmp/w/inv-%d-%d.smt2", j.c, j.b), []byte(script(facts, live[j.c].bks[j.b], ms)), 0o644)
					scriptMu.Unlock()
					fmt.Fprintf(os.Stderr, "inv-%d-%d: ", j.c, j.b)
				}
				if os.Getenv("GOVC_INV") != "" {
					fmt.Fprintf(os.Stderr, "invariant %s is not preserved: %s\n", live[j.c].c.text, live[j.c].bks[j.b])
					if d := os.Getenv("GOVC_INV"); d != "1" {
						os.WriteFile(fmt.Sprintf("%s/inv%d.smt2", d, i), []byte(script(facts, live[j.c].bks[j.b], ms)), 0644)
					}
				}
			}
		})
		for i, c := range live {
			if fail[i] {
				c.dead = true
				again = true
			}
		}
	}
	var out []*Term
	for _, c := range live {
		if !c.dead {
			out = append(out, c.hdr)
		}
	}
	return out
}

func token_isName(s string) bool {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_') {
			return false
		}
	}
	return s != ""
}

// ranged is the slice whose elements the loop looks at, if it is known before.
func (lr *loopRun) ranged() ssa.Value {
	for _, b := range lr.fr.fn.Blocks {
		if !lr.l.body[b] {
			continue
		}
		for _, in := range b.Instrs {
			if ia, ok := in.(*ssa.IndexAddr); ok && isSlice(ia.X.Type()) {
				if _, ok := lr.fr.env[ia.X]; ok {
					return ia.X
				}
			}
		}
	}
	return nil
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}
