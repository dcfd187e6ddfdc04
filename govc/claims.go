package main

import (
	"go/token"
	"go/types"
	"strings"
)

// claims describes objects that are run at most once: a map, protected by a lock, records which have been
// claimed; whoever adds an entry may, and must, run the object once and publish the outcome.
//
// Threads are treated by rely and guarantee: what other threads do to the protected state is not known when
// the lock is taken, except that entries found have an outcome object (see claimsFound); and an entry is
// only ever added where there was none, with an outcome object made for it, and none is ever removed, which is
// an obligation wherever the map is used.  The outcome of an object is a prophecy, outcomeOf(map owner, key):
// whoever claims it must publish an acceptable value, once, before opening the gate, and that is the prophecy.
// Others may read the value only after waiting at the gate.
type claims struct {
	typ, field     string // the map
	pubTyp, pub    string // the field with the outcome
	gate           string // the field of the same object with the gate
	runs           string // what may be called only with a claim
	opens, awaits  string
	outcome        string
	settled        string // a definition: settled(owner, key, outcome)
	labels1, label []string
}

type claimTok struct {
	owner, m, key, obj *Term
	val                Value
	run, pub           bool
}

func (s *Specs) claimsItem(rest string, lines []string) {
	split := func(x string) (string, string) {
		i := strings.LastIndex(x, ".")
		return x[:i], x[i+1:]
	}
	c := &claims{labels1: []string{"C01"}, label: []string{"C02"}}
	c.typ, c.field = split(strings.TrimSpace(rest))
	for _, ln := range lines {
		f := strings.Fields(ln)
		switch f[0] {
		case "publishes":
			c.pubTyp, c.pub = split(f[1])
			c.gate = f[3]
		case "runs":
			c.runs = f[1]
		case "opens":
			c.opens = f[1]
		case "awaits":
			c.awaits = f[1]
		case "outcome":
			c.outcome = f[1]
		case "settled":
			c.settled = f[1]
		default:
			panic(specErr("claims: " + ln))
		}
	}
	s.claims = c
}

func (v *Verif) claiming() *claims {
	if v.C == nil || !v.C.concurrent {
		return nil
	}
	return v.S.claims
}

// acquired is what is known after taking a lock: nothing about what it protects.
func (v *Verif) acquired(fr *Frame, st *State, id *Term, pos token.Pos) []Outcome {
	if v.C == nil || !v.C.concurrent || v.top == nil || len(v.top.args) == 0 {
		return ret(st)
	}
	x := v.top.args[0]
	pt, ok := x.T.Underlying().(*types.Pointer)
	if !ok {
		return ret(st)
	}
	s, ok := isStruct(pt.Elem())
	if !ok {
		return ret(st)
	}
	ref := x.L[0]
	for _, m := range v.S.monitors {
		if m.typ != typeKey(pt.Elem()) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() != m.mu || Add(ref, Int(fieldOffset(s, i))) != id {
				continue
			}
			for j := 0; j < s.NumFields(); j++ {
				if !m.fields[s.Field(j).Name()] {
					continue
				}
				ft := s.Field(j).Type()
				if mt, ok := ft.Underlying().(*types.Map); ok {
					h := fieldHeap(pt.Elem(), j, 0, 1)
					mref := Select(v.get(st, h, SArr(SInt, SInt)), ref)
					ds := domSort(mt)
					es := elemSort(ds)
					v.set(st, mapDom(ft), Store(v.get(st, mapDom(ft), ds), mref, v.fresh(st, "shared", es)))
					for k, so := range leafSorts(mt.Elem()) {
						vs := valSort(mt, so)
						v.set(st, mapVal(ft, k), Store(v.get(st, mapVal(ft, k), vs), mref, v.fresh(st, "shared", elemSort(vs))))
					}
					continue
				}
				ss := leafSorts(ft)
				for k, so := range ss {
					h := fieldHeap(pt.Elem(), j, k, len(ss))
					v.set(st, h, Store(v.get(st, h, SArr(SInt, so)), ref, v.fresh(st, "shared", so)))
				}
			}
		}
	}
	return ret(st)
}

func elemSort(s Sort) Sort {
	x := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array Int "), ")")
	return Sort(x)
}

func (v *Verif) pubField(cl *claims, name string) (heap string, T types.Type) {
	T = v.W.parseType(fnPkg(v.Fn), cl.pubTyp)
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldHeap(T, i, 0, 1), T
		}
	}
	panic(unsupported("no field " + cl.pubTyp + "." + name))
}

func (v *Verif) gateOf(st *State, cl *claims, obj *Term) *Term {
	h, _ := v.pubField(cl, cl.gate)
	return st.simp(Select(v.get(st, h, SArr(SInt, SInt)), obj))
}

func (v *Verif) final(obj *Term) *Term { return fn("final", SVal, obj) }

func (v *Verif) outcomeTerm(cl *claims, owner *Term, key *Term) *Term {
	return fn("logic:"+cl.outcome, SVal, owner, key)
}

// claimsFound is what is known of an entry found in the map.
func (v *Verif) claimsFound(fr *Frame, st *State, m Value, key Value, ok *Term, val Value) {
	cl := v.claiming()
	if cl == nil || fr == nil {
		return
	}
	owner := v.claimMaps[m.L[0]]
	if owner == nil {
		return
	}
	k := box(m.T.Underlying().(*types.Map).Key(), key.L)
	o := val.L[0]
	top := v.get(st, "top", SInt)
	st.assume(Implies(ok, And(Lt(Int(0), o), Lt(o, top), Neq(v.gateOf(st, cl, o), Int(0)), Eq(v.final(o), v.outcomeTerm(cl, owner, k)))))
}

// claimsAdd checks the addition of an entry, before it takes place.
func (v *Verif) claimsAdd(fr *Frame, st *State, m Value, key, x Value, present *Term, pos token.Pos) {
	cl := v.claiming()
	if cl == nil || fr == nil {
		return
	}
	owner := v.claimMaps[m.L[0]]
	if owner == nil {
		return
	}
	k := box(m.T.Underlying().(*types.Map).Key(), key.L)
	v.oblige(st, fr, "a target is claimed only if nobody has claimed it before", Not(present), pos, cl.labels1)
	o := x.L[0]
	if !isTopBased(o) {
		v.oblige(st, fr, "the outcome of a claimed target is an object of its own", TFalse, pos, cl.label)
	}
	for _, t := range st.tokens {
		if t.obj == o {
			v.oblige(st, fr, "the outcome of a claimed target is an object of its own", TFalse, pos, cl.label)
		}
	}
	g := v.gateOf(st, cl, o)
	v.oblige(st, fr, "the outcome of a claimed target has a gate", Neq(g, Int(0)), pos, cl.label)
	gh, gt := v.gateOpen(cl)
	_ = gt
	v.oblige(st, fr, "the gate of a target that has not run is closed", Not(Select(v.get(st, gh, SArr(SInt, SBool)), g)), pos, cl.label)
	st.assume(Eq(v.final(o), v.outcomeTerm(cl, owner, k)))
	st.tokens = append(st.tokens[:len(st.tokens):len(st.tokens)], claimTok{owner: owner, m: m.L[0], key: k, obj: o})
}

// gateOpen is the field that tells whether a gate is open.
func (v *Verif) gateOpen(cl *claims) (string, types.Type) {
	T := v.W.parseType(fnPkg(v.Fn), cl.pubTyp)
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == cl.gate {
			G := s.Field(i).Type().Underlying().(*types.Pointer).Elem()
			gs := G.Underlying().(*types.Struct)
			for j := 0; j < gs.NumFields(); j++ {
				if b, ok := gs.Field(j).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
					return fieldHeap(G, j, 0, 1), G
				}
			}
		}
	}
	panic(unsupported("no gate in " + cl.pubTyp))
}

// claimsRemove checks that nothing is removed.
func (v *Verif) claimsRemove(fr *Frame, st *State, m Value, pos token.Pos) {
	if cl := v.claiming(); cl != nil && fr != nil && v.claimMaps[m.L[0]] != nil {
		v.oblige(st, fr, "a claim is never withdrawn", TFalse, pos, cl.labels1)
	}
}

// claimsCall checks a call of what needs a claim.
func (v *Verif) claimsCall(fr *Frame, st *State, name string, args []Value, pos token.Pos) {
	cl := v.claiming()
	if cl == nil || name != cl.runs {
		return
	}
	t := args[0].L[0]
	con := args[len(args)-1].L[0]
	var alts []*Term
	last := -1
	for i, k := range st.tokens {
		if !k.run {
			alts = append(alts, And(Eq(k.key, t), Eq(k.owner, con)))
			last = i
		}
	}
	goal := TFalse
	if len(alts) > 0 {
		goal = Or(alts...)
	}
	v.oblige(st, fr, "a target is run only by the request that claimed it, and once", goal, pos, cl.labels1)
	if len(st.locked) > 0 {
		v.oblige(st, fr, "no lock is held while a target runs", TFalse, pos, cl.label)
	}
	if last >= 0 {
		n := append([]claimTok(nil), st.tokens...)
		n[last].run = true
		st.tokens = n
	}
}

// claimsGate treats the opening of a gate and waiting at one.
func (v *Verif) claimsGate(fr *Frame, st *State, name string, args []Value, pos token.Pos, before bool) {
	cl := v.claiming()
	if cl == nil {
		return
	}
	if name == cl.awaits && !before {
		st.opened = append(st.opened[:len(st.opened):len(st.opened)], st.simp(args[0].L[0]))
		return
	}
	if name == cl.awaits && len(st.locked) > 0 {
		v.oblige(st, fr, "no lock is held while waiting for a target", TFalse, pos, cl.label)
	}
	if name != cl.opens || !before {
		return
	}
	v.oblige(st, fr, "gates are only opened", args[1].L[0], pos, cl.label)
	g := st.simp(args[0].L[0])
	for i, t := range st.tokens {
		if v.gateOf(st, cl, t.obj) != g {
			continue
		}
		if t.pub {
			v.oblige(st, fr, "an outcome is published once", TFalse, pos, cl.label)
		}
		v.oblige(st, fr, "an outcome is published after the target ran", Bool(t.run), pos, cl.label)
		h, _ := v.pubField(cl, cl.pub)
		e := Select(v.get(st, h, SArr(SInt, SVal)), t.obj)
		d := v.S.defs[cl.settled]
		if d == nil {
			panic(specErr("no definition " + cl.settled))
		}
		ev := v.newEval(v.top, st, v.entry)
		pt := v.top.args[0].T
		ev.env[d.params[0].name] = SV{Value: one(pt, t.owner)}
		ev.env[d.params[1].name] = SV{Value: one(v.W.parseType(fnPkg(v.Fn), d.params[1].typ), t.key)}
		ev.env[d.params[2].name] = SV{Value: one(tError, e)}
		v.oblige(st, fr, "the outcome published is that of the run", ev.boolExpr(d.body), pos, cl.label)
		st.assume(Eq(v.final(t.obj), e))
		n := append([]claimTok(nil), st.tokens...)
		n[i].pub = true
		st.tokens = n
		return
	}
	v.oblige(st, fr, "only the request that claimed a target opens its gate", TFalse, pos, cl.label)
}

// claimsLoad checks a use of an outcome; the value is that published, unless it is one's own.
func (v *Verif) claimsLoad(fr *Frame, st *State, S types.Type, field string, ref *Term, write bool, pos token.Pos) (*Term, bool) {
	cl := v.claiming()
	if cl == nil || fr == nil || field != cl.pub || typeKey(S) != cl.pubTyp {
		return nil, false
	}
	ref = st.simp(ref)
	for _, t := range st.tokens {
		if t.obj == ref {
			if write && t.pub {
				v.oblige(st, fr, "an outcome does not change after it is published", TFalse, pos, cl.label)
			}
			return nil, true
		}
	}
	if isTopBased(ref) {
		return nil, true // not shared yet
	}
	if write {
		v.oblige(st, fr, "only the request that claimed a target sets its outcome", TFalse, pos, cl.label)
		return nil, true
	}
	g := v.gateOf(st, cl, ref)
	var alts []*Term
	for _, o := range st.opened {
		alts = append(alts, Eq(o, g))
	}
	goal := TFalse
	if len(alts) > 0 {
		goal = Or(alts...)
	}
	v.oblige(st, fr, "an outcome is used only after waiting for it", goal, pos, cl.label)
	return v.final(ref), true
}

// claimsEnd checks that every claim has been made good.
func (v *Verif) claimsEnd(fr *Frame, st *State, pos token.Pos) {
	cl := v.claiming()
	if cl == nil {
		return
	}
	for _, t := range st.tokens {
		v.oblige(st, fr, "a target that is claimed is run", Bool(t.run), pos, cl.label)
		v.oblige(st, fr, "the outcome of a target that is claimed is published", Bool(t.pub), pos, cl.label)
	}
	st.tokens = nil
}

// shared tells whether accesses to a heap are governed by a lock or a gate rather than by waiting for goroutines.
func (v *Verif) sharedHeap(heap string, ref *Term) bool {
	if v.guardedMaps[ref] != nil {
		return true
	}
	for _, m := range v.S.monitors {
		for f := range m.fields {
			if strings.HasPrefix(heap, "F:"+m.typ+"."+f) {
				return true
			}
		}
	}
	if cl := v.claiming(); cl != nil {
		if h, _ := v.pubField(cl, cl.pub); h == heap {
			return true
		}
		if h, _ := v.pubField(cl, cl.gate); h == heap {
			return true
		}
		if h, _ := v.gateOpen(cl); h == heap {
			return true
		}
	}
	return false
}
