package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value.
type Value struct {
	T    types.Type
	L    []*Term
	Addr *Addr    // an address that is not just the number of an object
	Clo  *Closure // a function that is known
	Tup  []Value
	It   *Iter
	Own  bool  // a slice whose array nothing else refers to (or nil)
	NilQ *Term // whether an owned slice is nil, where its array does not tell
}

type Addr struct {
	Field  bool
	Struct types.Type
	FIdx   int
	Ref    *Term
	// An element of an array, and a field of it.
	Arr, Idx *Term
	Elem     types.Type
	Path     []int
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Value
	Recv  *Value // bound method value
	Ext   string // an external function
	Sig   *types.Signature
}

type Iter struct {
	Map  Value
	Seq  *Term
	Dom  *Term
	Heap string
}

// State is a program state on one path.
type State struct {
	heap  map[string]*Term
	facts []*Term
	known map[*Term]bool
	eqs   map[*Term]*Term
	ks    []*Term
	dead  bool
	gor   *Gor
	// Locations that running goroutines may write or read.
	unjoined []gorAcc
	locked   []lockRec
	hv       []hvRec
	tokens   []claimTok
	opened   []*Term
}

type gorAcc struct {
	wg    *Term
	heap  string
	ref   *Term
	idx   *Term
	write bool
}

type lockRec struct {
	mu   *Term
	snap map[string]*Term
	mon  *Monitor
	this Value
}

// Gor is the goroutine being executed.
type Gor struct {
	done bool
	acc  []gorAcc
	wg   *Term
}

func (st *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(st.heap)+4), facts: st.facts[:len(st.facts):len(st.facts)], known: make(map[*Term]bool, len(st.known)+8), eqs: make(map[*Term]*Term, len(st.eqs)+2), ks: st.ks, dead: st.dead}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k := range st.known {
		n.known[k] = true
	}
	for k, v := range st.eqs {
		n.eqs[k] = v
	}
	if st.gor != nil {
		g := *st.gor
		g.acc = g.acc[:len(g.acc):len(g.acc)]
		n.gor = &g
	}
	n.unjoined = st.unjoined[:len(st.unjoined):len(st.unjoined)]
	n.locked = st.locked[:len(st.locked):len(st.locked)]
	n.hv = st.hv[:len(st.hv):len(st.hv)]
	n.tokens = st.tokens
	n.opened = st.opened[:len(st.opened):len(st.opened)]
	return n
}

func (st *State) assume(t *Term) {
	if t == TTrue || st.known[t] {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			st.assume(a)
		}
		return
	}
	if t == TFalse || st.known[Not(t)] {
		st.dead = true
	}
	st.known[t] = true
	st.facts = append(st.facts, t)
	if t.Op == "=" {
		a, b := t.Args[0], t.Args[1]
		if isConstTerm(b) && !isConstTerm(a) {
			st.eqs[a] = b
		} else if isConstTerm(a) && !isConstTerm(b) {
			st.eqs[b] = a
		}
	} else if t.S == SBool && !t.bv {
		if t.Op == "not" {
			st.eqs[t.Args[0]] = TFalse
		} else if t.Op != "or" && t.Op != "=>" && t.Op != "forall" && t.Op != "<=" && t.Op != "<" {
			st.eqs[t] = TTrue
		}
	}
}

// simp simplifies a condition by what is known on the path.
func (st *State) simp(t *Term) *Term {
	if t == TTrue || t == TFalse {
		return t
	}
	if st.known[t] {
		return TTrue
	}
	if st.known[Not(t)] {
		return TFalse
	}
	if len(st.eqs) > 0 {
		t2 := subst(t, st.eqs)
		if t2 != t {
			if st.known[t2] {
				return TTrue
			}
			if st.known[Not(t2)] {
				return TFalse
			}
			return t2
		}
	}
	return t
}

// ---- the heap

func (v *Verif) get(st *State, name string, s Sort) *Term {
	if t, ok := st.heap[name]; ok {
		return t
	}
	for i := len(st.hv) - 1; i >= 0; i-- {
		r := st.hv[i]
		if matchMod(r.pat, name) {
			v.heapSorts.Store(name, s)
			t := app(declareSeq(fmt.Sprintf("hv%d:%s", r.id, name), s, r.id, sortsOf(r.ks)...), r.ks...)
			st.heap[name] = t
			return t
		}
	}
	return v.initial(name, s)
}

// hvRec says that the heaps that match a pattern were forgotten.
type hvRec struct {
	pat string
	id  int
	ks  []*Term
}

func (v *Verif) initial(name string, s Sort) *Term {
	v.heapSorts.Store(name, s)
	return mk("sym", declare("h0:"+name, s).Name, 0, s)
}

func (v *Verif) set(st *State, name string, t *Term) {
	v.heapSorts.Store(name, t.S)
	st.heap[name] = t
}

func heapKind(t types.Type) string { return typeKey(t) }

func fieldHeap(st types.Type, i, leaf, n int) string {
	s := st.Underlying().(*types.Struct)
	name := "F:" + typeKey(st) + "." + s.Field(i).Name()
	if n > 1 {
		name += fmt.Sprintf("#%d", leaf)
	}
	return name
}

func cellHeap(t types.Type, leaf, n int) string {
	name := "C:" + typeKey(t)
	if n > 1 {
		name += fmt.Sprintf("#%d", leaf)
	}
	return name
}

const (
	heapE = "E" // contents of arrays: reference -> sequence of boxed elements
	heapB = "B" // contents of byte arrays: reference -> string
)

func (v *Verif) fresh(st *State, base string, s Sort) *Term {
	ss := make([]Sort, len(st.ks))
	for i := range ss {
		ss[i] = SInt
	}
	return app(freshSym(base, s, ss...), st.ks...)
}

// alloc returns the reference of a new object.
func (v *Verif) alloc(st *State, n int64) *Term {
	top := v.get(st, "top", SInt)
	v.set(st, "top", Add(top, Int((n+63)/64*64)))
	return top
}

func (v *Verif) havocTop(st *State) {
	old := v.get(st, "top", SInt)
	nt := v.fresh(st, "top", SInt)
	st.assume(Le(old, nt))
	v.set(st, "top", nt)
}

// refFacts says that a reference read from memory is of an object that exists.
func (v *Verif) refFacts(st *State, t types.Type, l []*Term) {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		v.existing(st, l[0])
	case *types.Slice:
		v.existing(st, l[0])
		v.sliceFacts(st, t, l)
	case *types.Struct:
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			a, b := fieldRange(s, i)
			v.refFacts(st, s.Field(i).Type(), l[a:b])
		}
	case *types.Interface:
		if l[0].Op != "ctor" {
			st.assume(Or(Not(IsCtor("VPtr", l[0])), And(Lt(Sel("pref", l[0]), v.get(st, "top", SInt)))))
			if v.ifaceTyped(st, t, l[0]) {
				return
			}
		}
	}
}

func (v *Verif) ifaceTyped(st *State, t types.Type, x *Term) bool {
	return false
}

func (v *Verif) existing(st *State, r *Term) {
	if isInt(r) || isTopBased(r) {
		return
	}
	st.assume(Lt(r, v.get(st, "top", SInt)))
}

func isTopBased(t *Term) bool {
	if t.Op == "sym" {
		return strings.HasPrefix(t.Name, "top!")
	}
	if t.Op == "+" {
		for _, a := range t.Args {
			if isTopBased(a) {
				return true
			}
		}
	}
	return false
}

func (v *Verif) sliceFacts(st *State, t types.Type, l []*Term) {
	st.assume(Le(Int(0), l[1]))
	st.assume(Le(Int(0), l[2]))
	st.assume(Le(l[2], l[3]))
	if isByteSlice(t) {
		st.assume(Le(Add(l[1], l[2]), StrLen(Select(v.get(st, heapB, SArr(SInt, SStr)), l[0]))))
	} else {
		st.assume(Le(Add(l[1], l[2]), Len(Select(v.get(st, heapE, SArr(SInt, SSeq)), l[0]))))
	}
	if l[0].Op != "int" {
		st.assume(Implies(Eq(l[0], Int(0)), And(Eq(l[1], Int(0)), Eq(l[2], Int(0)), Eq(l[3], Int(0)))))
	}
}

// content is the sequence of elements of a slice (boxed), or the string in a byte slice.
func (v *Verif) content(st *State, x Value) *Term {
	if a := x.L[0]; a.Op == "ite" {
		// One of two slices.
		c := a.Args[0]
		y, n := x, x
		y.L, n.L = nil, nil
		for _, t := range x.L {
			yes, no := t, t
			if t.Op == "ite" && t.Args[0] == c {
				yes, no = t.Args[1], t.Args[2]
			}
			y.L = append(y.L, yes)
			n.L = append(n.L, no)
		}
		return Ite(c, v.content(st, y), v.content(st, n))
	}
	if isByteSlice(x.T) {
		b := Select(v.get(st, heapB, SArr(SInt, SStr)), x.L[0])
		return fn("strsub", SStr, b, x.L[1], x.L[2])
	}
	e := Select(v.get(st, heapE, SArr(SInt, SSeq)), x.L[0])
	return SeqSub(e, x.L[1], x.L[2])
}

// newSlice allocates an array with the given content.
func (v *Verif) newSlice(st *State, t types.Type, c *Term) Value {
	ref := v.alloc(st, 1)
	var n *Term
	if isByteSlice(t) {
		v.set(st, heapB, Store(v.get(st, heapB, SArr(SInt, SStr)), ref, c))
		n = StrLen(c)
	} else {
		v.set(st, heapE, Store(v.get(st, heapE, SArr(SInt, SSeq)), ref, c))
		n = Len(c)
	}
	return Value{T: t, L: []*Term{ref, Int(0), n, n}, Own: true}
}

func one(t types.Type, l ...*Term) Value { return Value{T: t, L: l} }

var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tString = types.Typ[types.String]

// ---- immutable types: their fields are functions of the reference

func (v *Verif) immutableStruct(t types.Type) bool {
	return v.S.immutable[typeKey(t)]
}

func immField(t types.Type, i, leaf, n int, s Sort, ref *Term) *Term {
	return fn("imm:"+fieldHeap(t, i, leaf, n), s, ref)
}

// ---- loads and stores

func (v *Verif) load(fr *Frame, st *State, p Value, pos token.Pos) Value {
	T := p.T.Underlying().(*types.Pointer).Elem()
	if p.Addr != nil {
		return v.loadAddr(fr, st, p.Addr, T, pos)
	}
	v.nonNil(fr, st, p.L[0], pos, "nil dereference")
	return v.loadRef(fr, st, p.L[0], T, pos)
}

func (v *Verif) loadRef(fr *Frame, st *State, ref *Term, T types.Type, pos token.Pos) Value {
	if s, ok := isStruct(T); ok {
		out := Value{T: T}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Type()
			var fv Value
			if isObjField(f) {
				fv = v.loadRef(fr, st, Add(ref, Int(fieldOffset(s, i))), f, pos)
			} else {
				fv = v.loadField(fr, st, T, i, ref, pos)
			}
			out.L = append(out.L, fv.L...)
		}
		return out
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			return one(T, Select(v.get(st, heapB, SArr(SInt, SStr)), ref))
		}
		return one(T, Select(v.get(st, heapE, SArr(SInt, SSeq)), ref))
	}
	ss := leafSorts(T)
	if g := v.constGlobal(ref, T); g != nil {
		out := Value{T: T, L: g}
		v.refFacts(st, T, g)
		if types.Identical(T, tError) && (!v.inRepo(ref) || v.W.globalError[v.globalAt(ref)]) {
			st.assume(Neq(g[0], TNil)) // the error values that the libraries declare, and those made by errors.New
		}
		return out
	}
	out := Value{T: T}
	for i, s := range ss {
		h := cellHeap(T, i, len(ss))
		v.access(st, fr, h, ref, nil, false, pos)
		out.L = append(out.L, Select(v.get(st, h, SArr(SInt, s)), ref))
	}
	v.loaded(st, &out)
	return out
}

func (v *Verif) loaded(st *State, x *Value) {
	for _, l := range x.L {
		if l.bv {
			return
		}
	}
	v.refFacts(st, x.T, x.L)
	v.closureOf(st, x)
}

// closureOf recognizes a function value that was stored in memory.
func (v *Verif) closureOf(st *State, x *Value) {
	if _, ok := x.T.Underlying().(*types.Signature); ok && x.Clo == nil && len(x.L) == 1 {
		v.cloMu.Lock()
		x.Clo = v.closures[x.L[0]]
		v.cloMu.Unlock()
	}
}

func (v *Verif) loadField(fr *Frame, st *State, S types.Type, i int, ref *Term, pos token.Pos) Value {
	s := S.Underlying().(*types.Struct)
	ft := s.Field(i).Type()
	ss := leafSorts(ft)
	out := Value{T: ft}
	imm := v.immutableStruct(S)
	for k, so := range ss {
		h := fieldHeap(S, i, k, len(ss))
		if imm {
			out.L = append(out.L, immField(S, i, k, len(ss), so, ref))
			continue
		}
		v.access(st, fr, h, ref, nil, false, pos)
		out.L = append(out.L, Select(v.get(st, h, SArr(SInt, so)), ref))
	}
	if x, _ := v.claimsLoad(fr, st, S, s.Field(i).Name(), ref, false, pos); x != nil {
		out.L = []*Term{x}
	}
	if fr != nil {
		v.guard(fr, st, S, s.Field(i).Name(), ref, false, pos)
		v.guardedField(S, s.Field(i).Name(), ref, out)
	}
	v.loaded(st, &out)
	return out
}

func (v *Verif) loadAddr(fr *Frame, st *State, a *Addr, T types.Type, pos token.Pos) Value {
	if a.Field {
		return v.loadField(fr, st, a.Struct, a.FIdx, a.Ref, pos)
	}
	if isByte(a.Elem) && len(a.Path) == 0 {
		v.access(st, fr, heapB, a.Arr, a.Idx, false, pos)
		b := Select(v.get(st, heapB, SArr(SInt, SStr)), a.Arr)
		r := fn("strat", SInt, b, a.Idx)
		if !isInt(r) {
			st.assume(Le(Int(0), r))
			st.assume(Lt(r, Int(256)))
		}
		return one(T, r)
	}
	v.access(st, fr, heapE, a.Arr, a.Idx, false, pos)
	el := Nth(Select(v.get(st, heapE, SArr(SInt, SSeq)), a.Arr), a.Idx)
	l := unbox(a.Elem, el)
	t := a.Elem
	for _, f := range a.Path {
		s := t.Underlying().(*types.Struct)
		x, y := fieldRange(s, f)
		l = l[x:y]
		t = s.Field(f).Type()
	}
	out := Value{T: T, L: l}
	if len(a.Path) == 0 && len(l) == 1 && l[0].S == SStr && el.Op == "sym" {
		// What a slice of strings holds is a string.
		st.assume(mk("=", "", 0, SBool, el, mk("ctor", "VStr", 0, SVal, Int(tagNum(T)), l[0])))
	}
	v.loaded(st, &out)
	return out
}

func (v *Verif) store(fr *Frame, st *State, p Value, x Value, pos token.Pos) {
	T := p.T.Underlying().(*types.Pointer).Elem()
	x = v.materialize(st, x)
	if p.Addr != nil {
		v.storeAddr(fr, st, p.Addr, x, pos)
		return
	}
	v.nonNil(fr, st, p.L[0], pos, "nil dereference")
	v.storeRef(fr, st, p.L[0], T, x.L, pos)
}

// materialize gives a function value a number.
func (v *Verif) materialize(st *State, x Value) Value {
	if x.Clo != nil && len(x.L) == 0 {
		// The same static function always has the same number.
		var ref *Term
		if len(x.Clo.Binds) == 0 && x.Clo.Recv == nil {
			name := x.Clo.Ext
			if x.Clo.Fn != nil {
				name = funcName(x.Clo.Fn)
			}
			ref = mk("sym", declare("func:"+name, SInt).Name, 0, SInt)
			st.assume(Lt(ref, Int(-1000000)))
		} else {
			ref = v.alloc(st, 1)
		}
		if x.Clo.Fn != nil {
			st.assume(Eq(fn("clofn", SStr, ref), Lit(funcName(x.Clo.Fn))))
			for i, b := range x.Clo.Binds {
				if len(b.L) == 1 && b.L[0].S == SInt {
					st.assume(Eq(fn(fmt.Sprintf("clobind:%d", i), SInt, ref), b.L[0]))
				}
			}
		}
		v.cloMu.Lock()
		v.closures[ref] = x.Clo
		v.cloMu.Unlock()
		x.L = []*Term{ref}
	}
	if x.Addr != nil && len(x.L) == 0 {
		panic(unsupported(fmt.Sprintf("address of a field or element used as a value (%s)", x.T)))
	}
	return x
}

func (v *Verif) storeRef(fr *Frame, st *State, ref *Term, T types.Type, l []*Term, pos token.Pos) {
	if s, ok := isStruct(T); ok {
		off := 0
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i).Type()
			n := len(leafSorts(f))
			if isObjField(f) {
				v.storeRef(fr, st, Add(ref, Int(fieldOffset(s, i))), f, l[off:off+n], pos)
			} else {
				v.storeField(fr, st, T, i, ref, l[off:off+n], pos)
			}
			off += n
		}
		return
	}
	if a, ok := T.Underlying().(*types.Array); ok {
		if isByte(a.Elem()) {
			v.access(st, fr, heapB, ref, nil, true, pos)
			v.set(st, heapB, Store(v.get(st, heapB, SArr(SInt, SStr)), ref, l[0]))
		} else {
			v.access(st, fr, heapE, ref, nil, true, pos)
			v.set(st, heapE, Store(v.get(st, heapE, SArr(SInt, SSeq)), ref, l[0]))
		}
		return
	}
	ss := leafSorts(T)
	for i, so := range ss {
		h := cellHeap(T, i, len(ss))
		v.access(st, fr, h, ref, nil, true, pos)
		v.set(st, h, Store(v.get(st, h, SArr(SInt, so)), ref, l[i]))
	}
}

func (v *Verif) storeField(fr *Frame, st *State, S types.Type, i int, ref *Term, l []*Term, pos token.Pos) {
	s := S.Underlying().(*types.Struct)
	ss := leafSorts(s.Field(i).Type())
	if fr != nil {
		v.guard(fr, st, S, s.Field(i).Name(), ref, true, pos)
		v.claimsLoad(fr, st, S, s.Field(i).Name(), ref, true, pos)
	}
	imm := v.immutableStruct(S)
	for k, so := range ss {
		h := fieldHeap(S, i, k, len(ss))
		if imm {
			if !isTopBased(ref) {
				panic(unsupported("write to a field of the immutable type " + typeKey(S)))
			}
			im := immField(S, i, k, len(ss), so, ref)
			for _, f := range st.facts {
				if f.Op == "=" && (f.Args[0] == im || f.Args[1] == im) {
					panic(unsupported("second write to a field of the immutable type " + typeKey(S)))
				}
			}
			st.assume(Eq(im, l[k]))
			continue
		}
		v.access(st, fr, h, ref, nil, true, pos)
		v.set(st, h, Store(v.get(st, h, SArr(SInt, so)), ref, l[k]))
	}
}

func (v *Verif) storeAddr(fr *Frame, st *State, a *Addr, x Value, pos token.Pos) {
	if a.Field {
		v.storeField(fr, st, a.Struct, a.FIdx, a.Ref, x.L, pos)
		return
	}
	if isByte(a.Elem) && len(a.Path) == 0 {
		v.access(st, fr, heapB, a.Arr, a.Idx, true, pos)
		b := v.get(st, heapB, SArr(SInt, SStr))
		v.set(st, heapB, Store(b, a.Arr, fn("strupd", SStr, Select(b, a.Arr), a.Idx, x.L[0])))
		return
	}
	v.access(st, fr, heapE, a.Arr, a.Idx, true, pos)
	e := v.get(st, heapE, SArr(SInt, SSeq))
	old := Select(e, a.Arr)
	l := x.L
	if len(a.Path) > 0 {
		l = v.updPath(a.Elem, unbox(a.Elem, Nth(old, a.Idx)), a.Path, x.L)
	}
	v.set(st, heapE, Store(e, a.Arr, Upd(old, a.Idx, box(a.Elem, l))))
}

func (v *Verif) updPath(t types.Type, l []*Term, path []int, nl []*Term) []*Term {
	if len(path) == 0 {
		return nl
	}
	s := t.Underlying().(*types.Struct)
	a, b := fieldRange(s, path[0])
	sub := v.updPath(s.Field(path[0]).Type(), l[a:b], path[1:], nl)
	out := append([]*Term(nil), l[:a]...)
	out = append(out, sub...)
	return append(out, l[b:]...)
}

// ---- access control for concurrency

func (v *Verif) access(st *State, fr *Frame, heap string, ref, idx *Term, write bool, pos token.Pos) {
	if fr == nil {
		return
	}
	if (st.gor != nil || len(st.unjoined) > 0) && v.sharedHeap(heap, ref) {
		return
	}
	if st.gor != nil {
		if st.gor.done && write {
			v.oblige(st, fr, "no write after WaitGroup.Done", TFalse, pos, v.concLabels())
		}
		st.gor.acc = append(st.gor.acc, gorAcc{heap: heap, ref: ref, idx: idx, write: write})
	}
	if len(st.unjoined) == 0 {
		return
	}
	for _, a := range st.unjoined {
		if a.heap != heap || !(a.write || write) {
			continue
		}
		if distinct(a.ref, ref) {
			continue
		}
		apart := Neq(a.ref, ref)
		if a.idx != nil && idx != nil {
			apart = Or(apart, Neq(a.idx, idx))
		}
		v.oblige(st, fr, "no data race with a goroutine not yet waited for", apart, pos, v.concLabels())
	}
}

func (v *Verif) concLabels() []string {
	if v.C != nil && len(v.C.concLabels) > 0 {
		return v.C.concLabels
	}
	return nil
}

// ---- globals

func (v *Verif) globalRef(g *ssa.Global) *Term {
	v.W.gmu.Lock()
	defer v.W.gmu.Unlock()
	n, ok := v.W.globals[g]
	if !ok {
		n = -int64(64 * (len(v.W.globals) + 1))
		v.W.globals[g] = n
		v.W.globalOf[n] = g
	}
	return Int(n)
}

// constGlobal gives the value of a package variable that is set only when its package is initialized.
func (v *Verif) constGlobal(ref *Term, T types.Type) []*Term {
	if !isInt(ref) || ref.N >= 0 {
		return nil
	}
	v.W.gmu.Lock()
	g := v.W.globalOf[ref.N]
	v.W.gmu.Unlock()
	if g == nil || v.W.globalWritten[g] {
		return nil
	}
	ss := leafSorts(T)
	out := make([]*Term, len(ss))
	for i, s := range ss {
		name := "glob:" + g.Pkg.Pkg.Name() + "." + g.Name()
		if g.Pkg.Pkg.Path() == "os" {
			switch g.Name() {
			case "ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed":
				name = "glob:fs." + g.Name() // the same value
			}
		}
		if len(ss) > 1 {
			name += fmt.Sprintf("#%d", i)
		}
		out[i] = mk("sym", declare(name, s).Name, 0, s)
	}
	return out
}

func (v *Verif) globalAt(ref *Term) *ssa.Global {
	v.W.gmu.Lock()
	defer v.W.gmu.Unlock()
	return v.W.globalOf[ref.N]
}

// inRepo tells whether a package variable is one of the repository.
func (v *Verif) inRepo(ref *Term) bool {
	v.W.gmu.Lock()
	g := v.W.globalOf[ref.N]
	v.W.gmu.Unlock()
	return g == nil || strings.HasPrefix(g.Pkg.Pkg.Path(), "github.com/bobg/fab")
}

func sortedHeapNames(m map[string]*Term) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
