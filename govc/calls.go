package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// extName names a function outside the repository: "os.Stat", "strings.HasPrefix", "os.(*File).Close".
// Packages are known by their last path element, except that an ambiguous one keeps its path.
func extName(f *ssa.Function) string { return funcName(f) }

func (v *Verif) callInstr(fr *Frame, st *State, c *ssa.CallCommon, pos token.Pos, in *ssa.Call) []Outcome {
	var f Value
	if c.IsInvoke() {
		f = v.val(fr, st, c.Value)
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		f = v.val(fr, st, c.Value)
	}
	var args []Value
	for _, a := range c.Args {
		args = append(args, v.val(fr, st, a))
	}
	return v.doCall(fr, st, c, f, args, pos)
}

func (v *Verif) doCall(fr *Frame, st *State, c *ssa.CallCommon, f Value, args []Value, pos token.Pos) []Outcome {
	if c.IsInvoke() {
		return v.invoke(fr, st, f, c.Method, args, pos)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return v.builtin(fr, st, b.Name(), c, args, pos)
	}
	return v.callValue(fr, st, f, args, c.Signature(), pos)
}

func (v *Verif) callValue(fr *Frame, st *State, f Value, args []Value, sig *types.Signature, pos token.Pos) []Outcome {
	if f.Clo != nil {
		return v.callClosure(fr, st, f.Clo, args, pos)
	}
	v.nonNil(fr, st, f.L[0], pos, "call of a nil function")
	if st.dead {
		return nil
	}
	// An unknown function.
	name := "func:" + sigKey(sig)
	all := append([]Value{f}, args...)
	return v.external(fr, st, name, sig, all, pos)
}

// sigKey is a signature without the names of parameters and without spaces.
func sigKey(sig *types.Signature) string {
	list := func(t *types.Tuple) string {
		var ss []string
		for i := 0; i < t.Len(); i++ {
			ss = append(ss, strings.ReplaceAll(typeKey(t.At(i).Type()), " ", ""))
		}
		return "(" + strings.Join(ss, ",") + ")"
	}
	s := "func" + list(sig.Params())
	if sig.Results().Len() == 1 {
		return s + strings.Trim(list(sig.Results()), "()")
	}
	return s + list(sig.Results())
}

func (v *Verif) callClosure(fr *Frame, st *State, c *Closure, args []Value, pos token.Pos) []Outcome {
	fn := c.Fn
	if fn == nil {
		return v.external(fr, st, c.Ext, c.Sig, args, pos)
	}
	return v.callFunc(fr, st, fn, args, c.Binds, pos)
}

func (v *Verif) callFunc(fr *Frame, st *State, fn *ssa.Function, args, binds []Value, pos token.Pos) []Outcome {
	name := funcName(fn)
	if v.S.externs[name] != nil || specialExterns[name] != nil {
		return v.external(fr, st, name, fn.Signature, args, pos)
	}
	if c := v.S.contracts[name]; c != nil && !c.inline && !(fr == nil) {
		return v.applyContract(fr, st, c, fn, args, pos)
	}
	if len(fn.Blocks) > 0 {
		if fr != nil && v.mergeHere(fr) {
			base, n0 := st.clone(), len(st.facts)
			return v.mergeOutcomes(base, n0, v.exec(fn, args, binds, st, fr))
		}
		return v.exec(fn, args, binds, st, fr)
	}
	return v.external(fr, st, name, fn.Signature, args, pos)
}

func (v *Verif) invoke(fr *Frame, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) []Outcome {
	x := recv.L[0]
	v.safety(fr, st, "method call on a nil interface", Neq(x, TNil), pos)
	if st.dead {
		return nil
	}
	tg := TagOf(x)
	if !isInt(tg) {
		tg = subst(tg, st.eqs)
	}
	if isInt(tg) {
		if dt := tagType(tg.N); dt != nil {
			ms := v.W.Prog.MethodSets.MethodSet(dt)
			if sel := ms.Lookup(m.Pkg(), m.Name()); sel != nil {
				if fn := v.W.Prog.MethodValue(sel); fn != nil {
					r := Value{T: dt, L: unbox(dt, x)}
					return v.callFunc(fr, st, fn, append([]Value{r}, args...), nil, pos)
				}
			}
		}
	}
	name := v.ifaceMethodName(recv.T, m)
	sig := m.Type().(*types.Signature)
	return v.external(fr, st, name, sig, append([]Value{recv}, args...), pos)
}

func (v *Verif) ifaceMethodName(t types.Type, m *types.Func) string {
	// The interface that declares the method.
	if sig, ok := m.Type().(*types.Signature); ok && sig.Recv() != nil {
		if n, ok := sig.Recv().Type().(*types.Named); ok {
			if n.Obj().Pkg() == nil {
				return n.Obj().Name() + "." + m.Name()
			}
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + m.Name()
		}
	}
	return typeKey(t) + "." + m.Name()
}

// ---- builtins

func (v *Verif) builtin(fr *Frame, st *State, name string, c *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	ret := func(x Value) []Outcome { return []Outcome{{st: st, res: []Value{x}}} }
	switch name {
	case "len", "cap":
		x := args[0]
		switch u := x.T.Underlying().(type) {
		case *types.Slice:
			if name == "cap" {
				return ret(one(tInt, x.L[3]))
			}
			return ret(one(tInt, x.L[2]))
		case *types.Basic:
			return ret(one(tInt, StrLen(x.L[0])))
		case *types.Map:
			v.guardMap(fr, st, x, false, pos)
			dom := v.mapDomTerm(st, x)
			n := fn("card", SInt, dom)
			st.assume(Le(Int(0), n))
			k := Var("k!c", keySort(x.T.Underlying().(*types.Map).Key()))
			st.assume(Forall([]*Term{k}, Implies(Select(dom, k), Lt(Int(0), n)), []*Term{Select(dom, k)}))
			return ret(one(tInt, n))
		case *types.Array:
			return ret(one(tInt, Int(u.Len())))
		case *types.Pointer:
			return ret(one(tInt, Int(u.Elem().Underlying().(*types.Array).Len())))
		}
	case "append":
		return v.appendTo(fr, st, args[0], args[1], pos)
	case "delete":
		m := args[0]
		mt := m.T.Underlying().(*types.Map)
		kt := keyTerm(mt.Key(), v.materialize(st, args[1]).L)
		v.access(st, fr, mapDom(m.T), m.L[0], nil, true, pos)
		v.guardMap(fr, st, m, true, pos)
		v.claimsRemove(fr, st, m, pos)
		dh := v.get(st, mapDom(m.T), domSort(mt))
		v.set(st, mapDom(m.T), Store(dh, m.L[0], Store(Select(dh, m.L[0]), kt, TFalse)))
		return []Outcome{{st: st}}
	case "ssa:wrapnilchk":
		v.nonNil(fr, st, args[0].L[0], pos, "nil receiver")
		return ret(args[0])
	case "print", "println":
		return []Outcome{{st: st}}
	case "copy":
		return v.copyInto(fr, st, args[0], args[1], pos)
	case "recover":
		return ret(one(args0Type(c), TNil))
	case "min", "max":
		x := args[0].L[0]
		for _, a := range args[1:] {
			if name == "min" {
				x = Ite(Le(x, a.L[0]), x, a.L[0])
			} else {
				x = Ite(Le(a.L[0], x), x, a.L[0])
			}
		}
		return ret(one(args[0].T, x))
	}
	panic(unsupported("builtin " + name))
}

func args0Type(c *ssa.CallCommon) types.Type { return types.NewInterfaceType(nil, nil) }

func (v *Verif) contentAny(st *State, x Value) *Term {
	if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		return x.L[0]
	}
	return v.content(st, x)
}

func (v *Verif) appendTo(fr *Frame, st *State, s, t Value, pos token.Pos) []Outcome {
	bytes := isByteSlice(s.T)
	var add, n *Term
	if bytes {
		add = v.contentAny(st, t)
		n = StrLen(add)
	} else {
		add = v.content(st, t)
		n = t.L[2]
	}
	v.access(st, fr, v.contentHeap(s.T), s.L[0], nil, false, pos)
	realloc := func(st *State) Outcome {
		var r Value
		if bytes {
			r = v.newSlice(st, s.T, StrCat(v.content(st, s), add))
		} else {
			r = v.newSlice(st, s.T, Cat(v.content(st, s), add))
			r.L[2] = Add(s.L[2], n)
			r.L[3] = r.L[2]
		}
		return Outcome{st: st, res: []Value{r}}
	}
	if n == Int(0) {
		return []Outcome{{st: st, res: []Value{s}}}
	}
	if s.Own || s.L[0] == Int(0) || s.L[2] == s.L[3] {
		return []Outcome{realloc(st)}
	}
	fits := Le(Add(s.L[2], n), s.L[3])
	yes, no := v.split(st, fits)
	var outs []Outcome
	if yes != nil {
		end := Add(s.L[1], s.L[2])
		v.access(yes, fr, v.contentHeap(s.T), s.L[0], nil, true, pos)
		if bytes {
			b := v.get(yes, heapB, SArr(SInt, SStr))
			v.set(yes, heapB, Store(b, s.L[0], fn("strsplice", SStr, Select(b, s.L[0]), end, add)))
		} else {
			e := v.get(yes, heapE, SArr(SInt, SSeq))
			old := Select(e, s.L[0])
			v.set(yes, heapE, Store(e, s.L[0], Cat(Take(old, end), add, Drop(old, Add(end, n)))))
		}
		outs = append(outs, Outcome{st: yes, res: []Value{{T: s.T, L: []*Term{s.L[0], s.L[1], Add(s.L[2], n), s.L[3]}}}})
	}
	if no != nil {
		outs = append(outs, realloc(no))
	}
	return outs
}

func (v *Verif) contentHeap(t types.Type) string {
	if isByteSlice(t) {
		return heapB
	}
	return heapE
}

func (v *Verif) copyInto(fr *Frame, st *State, d, s Value, pos token.Pos) []Outcome {
	if isByteSlice(d.T) {
		panic(unsupported("copy of bytes"))
	}
	n := Ite(Le(d.L[2], s.L[2]), d.L[2], s.L[2])
	c := v.content(st, s)
	e := v.get(st, heapE, SArr(SInt, SSeq))
	old := Select(e, d.L[0])
	v.access(st, fr, heapE, d.L[0], nil, true, pos)
	v.set(st, heapE, Store(e, d.L[0], Cat(Take(old, d.L[1]), Take(c, n), Drop(old, Add(d.L[1], n)))))
	return []Outcome{{st: st, res: []Value{one(tInt, n)}}}
}

// ---- contracts of functions in the repository, at their calls

func (v *Verif) snapshot(st *State) *State {
	n := newState()
	n.ks = st.ks
	n.hv = st.hv[:len(st.hv):len(st.hv)]
	for k, t := range st.heap {
		n.heap[k] = t
	}
	return n
}

func (v *Verif) applyContract(fr *Frame, st *State, c *Contract, fn *ssa.Function, args []Value, pos token.Pos) (outs []Outcome) {
	v.noteUse("contract " + c.name)
	pre := v.snapshot(st)
	ev := v.newEval(fr, st, pre)
	ev.bindParams(fn, args)
	ev.letsOf(c)
	for _, r := range c.requires {
		v.oblige(st, fr, "precondition of "+c.name+": "+r.text, ev.boolExpr(r.e), pos, v.callLabels(r))
	}
	for i := range args {
		args[i] = v.materialize(st, args[i])
	}
	v.claimsGate(fr, st, c.name, args, pos, true)
	defer func() {
		for _, o := range outs {
			v.claimsGate(fr, o.st, c.name, args, pos, false)
		}
	}()
	v.havocFor(st, c, ev)
	if st.gor != nil && st.gor.done {
		v.oblige(st, fr, "no effect after WaitGroup.Done", TFalse, pos, v.concLabels())
	}
	finish := func(st *State, res []Value) Outcome {
		ev2 := v.newEval(fr, st, pre)
		ev2.bindParams(fn, args)
		ev2.bindResults(fn.Signature, c.results, res)
		ev2.letsOf(c)
		for _, e := range c.ensures {
			if e.local {
				continue
			}
			st.assume(ev2.boolExpr(e.e))
		}
		for _, g := range c.ghosts {
			ev2.ghost(g)
		}
		return Outcome{st: st, res: res}
	}
	if c.ownSlice(fn.Signature) {
		// No slice, or one that is nobody else's: the beginning of an array of its own.
		t := fn.Signature.Results().At(0).Type()
		no := st.clone()
		own := v.newSlice(st, t, v.fresh(st, shortName(c.name)+".seq", SSeq))
		return []Outcome{finish(no, []Value{{T: t, L: zeroLeaves(t)}}), finish(st, []Value{own})}
	}
	res := v.freshResults(st, fn.Signature, c.name)
	if c.fresh {
		for i := range res {
			res[i].Own = true
		}
	}
	return []Outcome{finish(st, res)}
}

// ownSlice says that a function, which modifies nothing, produces a slice in memory that it has allocated.
func (c *Contract) ownSlice(sig *types.Signature) bool {
	if !c.fresh || len(c.modifies) > 0 || sig.Results().Len() != 1 {
		return false
	}
	t := sig.Results().At(0).Type()
	return isSlice(t) && !isByteSlice(t)
}

func (v *Verif) callLabels(r *Clause) []string {
	if len(r.labels) > 0 {
		return r.labels
	}
	return []string{"*"}
}

func (v *Verif) noteUse(s string) {
	if v.silent == 0 {
		v.used[s] = true
	}
}

func (v *Verif) freshResults(st *State, sig *types.Signature, name string) []Value {
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		x := v.freshValue(st, t, fmt.Sprintf("%s.r%d", shortName(name), i))
		res = append(res, x)
	}
	return res
}

func shortName(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 && i+1 < len(s) {
		s = s[i+1:]
	}
	return strings.Trim(s, ")(*")
}

func (v *Verif) freshValue(st *State, t types.Type, base string) Value {
	x := Value{T: t}
	for _, s := range leafSorts(t) {
		x.L = append(x.L, v.fresh(st, base, s))
	}
	v.refFacts(st, t, x.L)
	return x
}

func (v *Verif) havocFor(st *State, c *Contract, ev *Eval) {
	if c.allocs || len(c.modifies) > 0 {
		v.havocTop(st)
	}
	v.havocMods(st, withoutUpdated(c.modifies, c.ghosts), ev)
}

// withoutUpdated leaves out the ghost variables whose new values a contract gives.
func withoutUpdated(mods []string, gs []*ghostUpd) []string {
	var out []string
	for _, m := range mods {
		given := false
		for _, g := range gs {
			if g.name == m {
				given = true
			}
		}
		if !given {
			out = append(out, m)
		}
	}
	return out
}

// havocMods forgets the locations that may be modified.
func (v *Verif) havocMods(st *State, mods []string, ev *Eval) {
	if len(mods) == 0 {
		return
	}
	names := map[string]Sort{}
	v.heapSorts.Range(func(k, s any) bool { names[k.(string)] = s.(Sort); return true })
	for n, t := range st.heap {
		names[n] = t.S
	}
	for _, m := range mods {
		if n, ok := strings.CutPrefix(m, "@"); ok {
			// One location: @x.f
			ev.havocLoc(n)
			continue
		}
		matched := false
		var sorted []string
		for n := range names {
			if matchMod(m, n) {
				sorted = append(sorted, n)
			}
		}
		sort.Strings(sorted)
		for _, n := range sorted {
			matched = true
			v.set(st, n, v.fresh(st, "hv:"+n, names[n]))
		}
		if !matched || strings.ContainsAny(m, "*") {
			// A location not looked at so far: remember that it was forgotten.
			v.pendingHavoc(st, m)
		}
	}
}

func matchMod(pat, name string) bool {
	if pat == name {
		return true
	}
	if p, ok := strings.CutSuffix(pat, "*"); ok {
		return strings.HasPrefix(name, p)
	}
	return strings.HasPrefix(name, pat+"#")
}

// pendingHavoc makes sure that a heap that is first looked at later is not taken to have its initial value.
func (v *Verif) pendingHavoc(st *State, pat string) {
	st.hv = append(st.hv[:len(st.hv):len(st.hv)], hvRec{pat: pat, id: nextSeq(), ks: st.ks})
}

// ---- external functions

// external applies the declaration of a function outside the repository (or of an unknown function).
func (v *Verif) external(fr *Frame, st *State, name string, sig *types.Signature, args []Value, pos token.Pos) []Outcome {
	if sp := specialExterns[name]; sp != nil {
		// Where the built-in description does not apply, the declaration does.
		if outs := sp(v, fr, st, sig, args, pos); outs != nil {
			v.noteUse("extern " + name + " (built in)")
			return outs
		}
	}
	d := v.S.externs[name]
	if d == nil {
		d = v.S.defaultExtern(name)
	}
	v.noteUse("extern " + d.kind + " " + name)
	for i := range args {
		if args[i].Clo != nil || args[i].Addr == nil {
			args[i] = v.materialize(st, args[i])
		}
	}
	pre := v.snapshot(st)
	ev := v.newEval(fr, st, pre)
	ev.bindExtern(d, sig, args)
	for _, r := range d.requires {
		v.oblige(st, fr, "precondition of "+name+": "+r.text, ev.boolExpr(r.e), pos, v.callLabels(r))
	}
	v.claimsCall(fr, st, name, args, pos)
	if st.gor != nil && st.gor.done && d.kind == "effect" {
		v.oblige(st, fr, "no effect after WaitGroup.Done", TFalse, pos, v.concLabels())
	}
	var res []Value
	switch d.kind {
	case "pure", "read":
		var as []*Term
		if d.kind == "read" {
			as = append(as, v.get(st, "world", SInt))
		}
		for _, a := range args {
			as = append(as, v.argTerms(st, a)...)
		}
		for i := 0; i < sig.Results().Len(); i++ {
			res = append(res, v.funcResult(st, name, i, sig.Results().Len(), sig.Results().At(i).Type(), as))
		}
	default:
		v.havocTop(st)
		v.havocMods(st, withoutUpdated(d.modifies, d.ghosts), ev)
		if len(args) > 0 && d.kind == "effect" && v.S.externs[name] == nil {
			v.havocArgs(st, args)
		}
		res = v.freshResults(st, sig, name)
		for i := range res {
			res[i].Own = true
			if t := sig.Results().At(i).Type(); d.isFresh && isSlice(t) && !isByteSlice(t) {
				// A slice of its own.
				res[i] = v.newSlice(st, t, v.fresh(st, shortName(name)+".seq", SSeq))
			} else if pt, ok := t.Underlying().(*types.Pointer); ok && d.isFresh {
				if d.isNew {
					// A new object; nothing is known of what it holds.
					res[i].L[0] = v.alloc(st, objSize(pt.Elem()))
				} else {
					st.assume(Or(Eq(res[i].L[0], Int(0)), Le(v.get(pre, "top", SInt), res[i].L[0])))
				}
			}
		}
	}
	ev2 := v.newEval(fr, st, pre)
	ev2.bindExtern(d, sig, args)
	ev2.bindResults(sig, d.results, res)
	if d.kind == "effect" || d.kind == "open" {
		world := v.get(pre, "world", SInt)
		var as []*Term
		if d.eventArgs != nil {
			for _, e := range d.eventArgs {
				as = append(as, ev2.boxed(ev2.expr(e)))
			}
		} else {
			for _, a := range args {
				as = append(as, v.evArg(pre, a))
			}
			for _, r := range res {
				as = append(as, v.evArg(st, r))
			}
			as = append(as, boxLeaf(world))
		}
		ch := d.trace
		if ch == "" {
			ch = "trace"
		}
		evName := d.event
		if evName == "" {
			evName = name
		}
		if ch != "none" {
			v.set(st, ch, Cat(v.get(st, ch, SSeq), Unit(VEv(evName, SeqOf(as...)))))
		}
		if d.kind == "effect" {
			// The world after is a function of the history: no world occurs twice in it.
			v.set(st, "world", fn("logic:next", SInt, world, VEv(evName, SeqOf(as...))))
		}
	}
	for _, e := range d.ensures {
		st.assume(ev2.boolExpr(e.e))
	}
	for _, g := range d.ghosts {
		ev2.ghost(g)
	}
	if d.noreturn {
		return nil
	}
	return []Outcome{{st: st, res: res}}
}

// havocArgs forgets what an undeclared function may change through its arguments.
func (v *Verif) havocArgs(st *State, args []Value) {
	for _, a := range args {
		switch t := a.T.Underlying().(type) {
		case *types.Slice:
			h := v.contentHeap(a.T)
			if h == heapE {
				e := v.get(st, heapE, SArr(SInt, SSeq))
				nc := v.fresh(st, "hvc", SSeq)
				st.assume(Eq(Len(nc), Len(Select(e, a.L[0]))))
				v.set(st, heapE, Store(e, a.L[0], nc))
			} else {
				e := v.get(st, heapB, SArr(SInt, SStr))
				v.set(st, heapB, Store(e, a.L[0], v.fresh(st, "hvb", SStr)))
			}
		case *types.Pointer:
			if s, ok := isStruct(t.Elem()); ok && a.Addr == nil && !v.immutableStruct(t.Elem()) {
				_ = s
				x := v.freshValue(st, t.Elem(), "hva")
				v.storeRef(nil, st, a.L[0], t.Elem(), x.L, token.NoPos)
			} else if a.Addr == nil && !ok {
				x := v.freshValue(st, t.Elem(), "hva")
				v.storeRef(nil, st, a.L[0], t.Elem(), x.L, token.NoPos)
			}
		}
	}
}

// argTerms are the terms on which a function depends through an argument: the contents of a slice, not its identity.
func (v *Verif) argTerms(st *State, a Value) []*Term {
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		return []*Term{v.content(st, a)}
	}
	if a.Addr != nil {
		panic(unsupported("address of a field or element passed to an external function"))
	}
	return a.L
}

func (v *Verif) evArg(st *State, a Value) *Term {
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		if isByteSlice(a.T) {
			return VStr(Int(0), v.content(st, a))
		}
		return VSeq(Int(0), v.content(st, a))
	}
	if a.Addr != nil {
		return VInt(Int(0), v.fresh(st, "addr", SInt))
	}
	return box(a.T, a.L)
}

func (v *Verif) funcResult(st *State, name string, i, n int, t types.Type, as []*Term) Value {
	base := name
	if n > 1 {
		base = fmt.Sprintf("%s.%d", name, i)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		if isByteSlice(t) {
			return v.newSlice(st, t, fn(base, SStr, as...))
		}
		c := fn(base, SSeq, as...)
		return v.newSlice(st, t, c)
	}
	ss := leafSorts(t)
	x := Value{T: t}
	for k, s := range ss {
		b := base
		if len(ss) > 1 {
			b = fmt.Sprintf("%s#%d", base, k)
		}
		x.L = append(x.L, fn(b, s, as...))
	}
	v.refFacts(st, t, x.L)
	return x
}

// ---- goroutines

func (v *Verif) goStmt(fr *Frame, st *State, in *ssa.Go) []Outcome {
	if st.gor != nil {
		panic(unsupported("goroutine started by a goroutine"))
	}
	if v.C == nil || !v.C.concurrent {
		panic(unsupported("goroutine in a function without a concurrency contract"))
	}
	var args []Value
	for _, a := range in.Call.Args {
		args = append(args, v.val(fr, st, a))
	}
	f := Value{}
	if !in.Call.IsInvoke() {
		f = v.val(fr, st, in.Call.Value)
	} else {
		panic(unsupported("go with a method of an interface"))
	}
	st.gor = &Gor{}
	saved := st.unjoined
	outs := v.callValue(fr, st, f, args, in.Call.Signature(), in.Pos())
	for _, o := range outs {
		g := o.st.gor
		for _, l := range o.st.locked {
			_ = l
			v.oblige(o.st, fr, "goroutine ends without holding a lock", TFalse, in.Pos(), v.concLabels())
		}
		v.oblige(o.st, fr, "goroutine calls WaitGroup.Done", Bool(g.done), in.Pos(), v.concLabels())
		v.claimsEnd(fr, o.st, in.Pos())
		for _, e := range v.C.goEnsures {
			ev := v.newEval(v.top, o.st, v.entry)
			v.oblige(o.st, fr, "at the end of a goroutine: "+e.text, ev.boolExpr(e.e), in.Pos(), e.labels)
		}
		o.st.unjoined = append([]gorAcc(nil), saved...)
		for _, a := range g.acc {
			a.wg = g.wg
			o.st.unjoined = append(o.st.unjoined, a)
		}
		o.st.gor = nil
	}
	for i := range outs {
		outs[i].res = nil
	}
	return outs
}
