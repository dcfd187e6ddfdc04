package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Verif is the verification of one function.
type Verif struct {
	W  *World
	S  *Specs
	Fn *ssa.Function
	C  *Contract

	Obls      []*Obligation
	silent    int
	paths     int
	steps     int
	heapSorts sync.Map
	cloMu     sync.Mutex
	closures  map[*Term]*Closure
	entry     *State
	top       *Frame
	binds     []Value         // variables of the enclosing function, if the function is a closure
	used      map[string]bool // external declarations and contracts relied upon
	warn      map[string]bool
	maxPaths  int
	loopNotes []string
	joins     map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	vacuity   []vac

	claimMaps   map[*Term]*Term // maps of claims, and their owners
	guardedMaps map[*Term]*Term // maps that a lock protects, and the lock
}

type vac struct {
	where string
	facts []*Term
}

// Obligation is one proof obligation.
type Obligation struct {
	Name   string
	Labels []string
	Fn     string
	Pos    string
	Facts  []*Term
	Goal   *Term
	Res    Result
	Err    string
	Path   string
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []deferred
	depth  int
	loops  []*loopCtx
	parent *Frame
	site   string
	binds  []Value
	args   []Value
	isGo   bool
	stop   []*ssa.BasicBlock // where paths wait for others
}

type deferred struct {
	common *ssa.CallCommon
	fn     Value
	args   []Value
	pos    token.Pos
	marker ssa.Instruction
}

type Outcome struct {
	st    *State
	res   []Value
	panic bool
	// A path that stopped where the arms of a branch meet.
	join   *Frame
	merged bool
}

func (fr *Frame) clone() *Frame {
	n := *fr
	n.env = make(map[ssa.Value]Value, len(fr.env)+8)
	for k, v := range fr.env {
		n.env[k] = v
	}
	n.defers = fr.defers[:len(fr.defers):len(fr.defers)]
	n.loops = fr.loops[:len(fr.loops):len(fr.loops)]
	return &n
}

func (v *Verif) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := v.W.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, v.W.Repo+"/"), ps.Line)
}

func (v *Verif) oblige(st *State, fr *Frame, name string, goal *Term, pos token.Pos, labels []string) {
	goal = st.simp(goal)
	if v.silent == 0 && goal != TTrue && !st.dead {
		v.Obls = append(v.Obls, &Obligation{Name: name, Labels: labels, Fn: funcName(v.Fn), Pos: v.pos(pos), Facts: st.facts[:len(st.facts):len(st.facts)], Goal: goal})
	} else if v.silent == 0 && goal == TTrue {
		v.Obls = append(v.Obls, &Obligation{Name: name, Labels: labels, Fn: funcName(v.Fn), Pos: v.pos(pos), Goal: goal, Res: Result{Verdict: "unsat", Solver: "simplifier"}})
	}
	st.assume(goal)
}

func (v *Verif) nonNil(fr *Frame, st *State, ref *Term, pos token.Pos, what string) {
	c := Neq(ref, Int(0))
	if c == TTrue {
		return
	}
	v.safety(fr, st, what, c, pos)
}

// safety is a condition without which the program would crash.
// It is an obligation if the contract promises no crash, and otherwise ends the path.
func (v *Verif) safety(fr *Frame, st *State, what string, c *Term, pos token.Pos) {
	if fr != nil && v.C != nil && len(v.C.nopanic) > 0 {
		v.oblige(st, fr, "no crash: "+what, c, pos, v.C.nopanic)
		return
	}
	st.assume(st.simp(c))
}

// ---- functions

func (v *Verif) newFrame(fn *ssa.Function, args, binds []Value, parent *Frame) *Frame {
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: parent, args: args, binds: binds}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		fr.env[p] = a
	}
	for i, f := range fn.FreeVars {
		b := binds[i]
		fr.env[f] = b
	}
	return fr
}

func (v *Verif) exec(fn *ssa.Function, args, binds []Value, st *State, parent *Frame) []Outcome {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body for " + funcName(fn)))
	}
	fr := v.newFrame(fn, args, binds, parent)
	if fr.depth > 40 {
		panic(unsupported("calls nested too deeply at " + funcName(fn)))
	}
	if fr.depth > 0 {
		for p := parent; p != nil; p = p.parent {
			if p.fn == fn && len(fn.FreeVars) == 0 && fn.Parent() == nil {
				panic(unsupported("recursion without a contract: " + funcName(fn)))
			}
		}
	}
	return v.runBlock(fr, fn.Blocks[0], nil, st)
}

func (v *Verif) runBlock(fr *Frame, b, prev *ssa.BasicBlock, st *State) []Outcome {
	if st.dead {
		return nil
	}
	v.steps++
	if v.steps > 400000 {
		panic(unsupported("too many steps"))
	}
	// Loops.
	for i := len(fr.loops) - 1; i >= 0; i-- {
		lc := fr.loops[i]
		if lc.loop.header == b {
			lc.back(fr, st, prev)
			return nil
		}
		if !lc.loop.body[b] {
			if lc.discard {
				return nil
			}
			fr.loops = fr.loops[:i]
			st.ks = st.ks[:lc.nks]
			continue
		}
		break
	}
	if l := v.W.loopAt(fr.fn, b); l != nil {
		if !v.shortLoop(fr, l, prev, st) {
			return v.runLoop(fr, l, prev, st)
		}
	}
	v.phis(fr, b, prev, st)
	if n := len(fr.stop); n > 0 && fr.stop[n-1] == b {
		return []Outcome{{st: st, join: fr}}
	}
	return v.runInstrs(fr, b, prev, firstNonPhi(b), st)
}

// shortLoop tells whether the loop counts up to a known small number, in which case its iterations are executed one by one.
func (v *Verif) shortLoop(fr *Frame, l *loop, prev *ssa.BasicBlock, st *State) bool {
	const most = 6
	h := l.header
	cond, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != h || !l.body[h.Succs[0]] || l.body[h.Succs[1]] {
		return false
	}
	limit := func() *Term {
		if c, ok := cmp.Y.(*ssa.Const); ok {
			if x := v.constant(c); len(x.L) == 1 {
				return x.L[0]
			}
			return nil
		}
		if in, ok := cmp.Y.(ssa.Instruction); ok && l.body[in.Block()] {
			return nil
		}
		if x, ok := fr.env[cmp.Y]; ok && len(x.L) == 1 {
			return st.simp(x.L[0])
		}
		return nil
	}()
	if limit == nil || !isInt(limit) || limit.N > most {
		return false
	}
	// The counter: a variable that is only incremented by one.
	x := cmp.X
	if b, ok := x.(*ssa.BinOp); ok && b.Op == token.ADD && b.Block() == h && isOne(b.Y) {
		x = b.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return false
	}
	for i, e := range phi.Edges {
		if l.body[h.Preds[i]] {
			b, ok := e.(*ssa.BinOp)
			if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) || !isOne(b.Y) {
				return false
			}
			continue
		}
		c, ok := e.(*ssa.Const)
		if !ok {
			return false
		}
		if x := v.constant(c); len(x.L) != 1 || !isInt(x.L[0]) || x.L[0].N < -1 {
			return false
		}
	}
	return true
}

func isOne(x ssa.Value) bool {
	c, ok := x.(*ssa.Const)
	if !ok || c.Value == nil {
		return false
	}
	n, ok := constant.Int64Val(c.Value)
	return ok && n == 1
}

func firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (v *Verif) phis(fr *Frame, b, prev *ssa.BasicBlock, st *State) {
	var vals []Value
	var ps []*ssa.Phi
	k := -1
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if k < 0 {
			k = predIndex(b, prev)
		}
		x := v.val(fr, st, p.Edges[k])
		x.T = p.Type()
		vals = append(vals, x)
		ps = append(ps, p)
	}
	for i, p := range ps {
		fr.env[p] = vals[i]
	}
}

func (v *Verif) val(fr *Frame, st *State, x ssa.Value) Value {
	switch x := x.(type) {
	case *ssa.Const:
		return v.constant(x)
	case *ssa.Global:
		return Value{T: x.Type(), L: []*Term{v.globalRef(x)}}
	case *ssa.Function:
		return Value{T: x.Type(), Clo: v.closureFor(x)}
	case *ssa.Builtin:
		return Value{T: x.Type()}
	}
	r, ok := fr.env[x]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s (%s) in %s", x.Name(), x, funcName(fr.fn))))
	}
	return r
}

func (v *Verif) closureFor(f *ssa.Function) *Closure {
	if len(f.Blocks) == 0 {
		return &Closure{Fn: f, Ext: extName(f), Sig: f.Signature}
	}
	return &Closure{Fn: f, Sig: f.Signature}
}

func (v *Verif) constant(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Value{T: t, L: []*Term{TNil}}
		}
		x := Value{T: t, L: zeroLeaves(t)}
		if _, ok := t.Underlying().(*types.Slice); ok {
			x.Own = true
		}
		return x
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return one(t, Bool(constant.BoolVal(c.Value)))
	case constant.String:
		return one(t, Lit(constant.StringVal(c.Value)))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return one(t, Int(n))
		}
		return one(t, fn("bigint:"+c.Value.ExactString(), SInt))
	}
	return one(t, fn("const:"+c.Value.ExactString(), SInt))
}

var debugExec = os.Getenv("GOVC_DEBUG") != ""

func (v *Verif) runInstrs(fr *Frame, b, prev *ssa.BasicBlock, idx int, st *State) []Outcome {
	for i := idx; i < len(b.Instrs); i++ {
		if st.dead {
			return nil
		}
		in := b.Instrs[i]
		if debugExec && v.silent == 0 {
			fmt.Fprintf(os.Stderr, "%*s%s: %s\n", fr.depth*2, "", fr.fn.Name(), in)
		}
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Jump:
			return v.runBlock(fr, b.Succs[0], b, st)
		case *ssa.If:
			c := st.simp(v.val(fr, st, in.Cond).L[0])
			if c == TTrue {
				return v.runBlock(fr, b.Succs[0], b, st)
			}
			if c == TFalse {
				return v.runBlock(fr, b.Succs[1], b, st)
			}
			return v.fork(fr, b, st, c)
		case *ssa.Return:
			var res []Value
			for _, r := range in.Results {
				res = append(res, v.val(fr, st, r))
			}
			if fr.parent == nil && v.silent == 0 {
				v.paths++
			}
			if v.paths > v.maxPaths {
				panic(unsupported("too many paths"))
			}
			return []Outcome{{st: st, res: res}}
		case *ssa.Panic:
			v.safety(fr, st, "panic", TFalse, in.Pos())
			return nil
		case *ssa.RunDefers:
			return v.runDefers(fr, b, prev, i, st)
		case *ssa.Defer:
			d := deferred{common: &in.Call, pos: in.Pos()}
			if in.Call.IsInvoke() {
				d.fn = v.val(fr, st, in.Call.Value)
			} else if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
				d.fn = v.val(fr, st, in.Call.Value)
			}
			for _, a := range in.Call.Args {
				d.args = append(d.args, v.val(fr, st, a))
			}
			for _, lc := range fr.loops {
				_ = lc
			}
			if len(fr.loops) > 0 {
				panic(unsupported("defer in a loop"))
			}
			fr.defers = append(fr.defers, d)
		case *ssa.Go:
			outs := v.goStmt(fr, st, in)
			return v.each(fr, b, prev, i, nil, outs)
		case *ssa.Call:
			outs := v.callInstr(fr, st, &in.Call, in.Pos(), in)
			return v.each(fr, b, prev, i, in, outs)
		case *ssa.TypeAssert:
			outs := v.typeAssert(fr, st, in)
			return v.each(fr, b, prev, i, in, outs)
		case *ssa.Store:
			v.store(fr, st, v.val(fr, st, in.Addr), v.val(fr, st, in.Val), in.Pos())
		case *ssa.MapUpdate:
			v.mapUpdate(fr, st, v.val(fr, st, in.Map), v.val(fr, st, in.Key), v.val(fr, st, in.Value), in.Pos())
		case ssa.Value:
			x := v.instr(fr, b, st, in)
			x.T = in.Type()
			fr.env[in] = x
		default:
			panic(unsupported(fmt.Sprintf("instruction %T", in)))
		}
	}
	return nil
}

// each continues after a call with each of its outcomes.
func (v *Verif) each(fr *Frame, b, prev *ssa.BasicBlock, i int, in ssa.Value, outs []Outcome) []Outcome {
	var res []Outcome
	for k, o := range outs {
		if o.st.dead {
			continue
		}
		f := fr
		if k < len(outs)-1 {
			f = fr.clone()
		}
		if in != nil {
			var x Value
			if tup, ok := in.Type().(*types.Tuple); ok {
				x = Value{T: tup, Tup: o.res}
			} else if len(o.res) == 1 {
				x = o.res[0]
				x.T = in.Type()
			}
			f.env[in] = x
		}
		res = append(res, v.runInstrs(f, b, prev, i+1, o.st)...)
	}
	return res
}

func (v *Verif) fork(fr *Frame, b *ssa.BasicBlock, st *State, c *Term) []Outcome {
	if v.mergeHere(fr) {
		if j := v.joinOf(b); j != nil && v.W.loopAt(fr.fn, j) == nil {
			return v.forkMerge(fr, b, j, st, c)
		}
	}
	st2 := st.clone()
	fr2 := fr.clone()
	st.assume(c)
	st2.assume(Not(c))
	if os.Getenv("GOVC_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "fork %s block %s at %s on %.200s\n", funcName(fr.fn), b, v.pos(b.Instrs[len(b.Instrs)-2].Pos()), fmt.Sprint(c))
	}
	var outs []Outcome
	if !v.contradictory(st) {
		outs = append(outs, v.runBlock(fr, b.Succs[0], b, st)...)
	}
	if !v.contradictory(st2) {
		outs = append(outs, v.runBlock(fr2, b.Succs[1], b, st2)...)
	}
	return outs
}

// forkVals splits the state on a condition.
func (v *Verif) split(st *State, c *Term) (yes, no *State) {
	c = st.simp(c)
	if c == TTrue {
		return st, nil
	}
	if c == TFalse {
		return nil, st
	}
	if os.Getenv("GOVC_FORKS") != "" {
		fmt.Fprintf(os.Stderr, "split on %.300s\n", fmt.Sprint(c))
	}
	no = st.clone()
	yes = st
	yes.assume(c)
	no.assume(Not(c))
	if v.contradictory(yes) {
		yes = nil
	}
	if v.contradictory(no) {
		no = nil
	}
	return yes, no
}

func (v *Verif) contradictory(st *State) bool {
	if st.dead {
		return true
	}
	if infeasible(st.facts) {
		st.dead = true
		return true
	}
	return false
}

func (v *Verif) runDefers(fr *Frame, b, prev *ssa.BasicBlock, i int, st *State) []Outcome {
	states := []*Frame{fr}
	sts := []*State{st}
	ds := fr.defers
	fr.defers = nil
	for k := len(ds) - 1; k >= 0; k-- {
		var nf []*Frame
		var ns []*State
		for j := range states {
			outs := v.callDeferred(states[j], sts[j], ds[k])
			for m, o := range outs {
				f := states[j]
				if m < len(outs)-1 {
					f = f.clone()
				}
				nf = append(nf, f)
				ns = append(ns, o.st)
			}
		}
		states, sts = nf, ns
	}
	var res []Outcome
	for j := range states {
		res = append(res, v.runInstrs(states[j], b, prev, i+1, sts[j])...)
	}
	return res
}

func (v *Verif) callDeferred(fr *Frame, st *State, d deferred) []Outcome {
	return v.doCall(fr, st, d.common, d.fn, d.args, d.pos)
}

func (v *Verif) instr(fr *Frame, b *ssa.BasicBlock, st *State, in ssa.Value) Value {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		ref := v.alloc(st, objSize(t))
		if v.immutableStruct(t) {
			return one(in.Type(), ref)
		}
		v.zeroRef(st, ref, t)
		return one(in.Type(), ref)
	case *ssa.UnOp:
		return v.unop(fr, st, in)
	case *ssa.BinOp:
		return v.binop(fr, st, in.Op, v.val(fr, st, in.X), v.val(fr, st, in.Y), in.Type(), in.Pos())
	case *ssa.Extract:
		t := v.val(fr, st, in.Tuple)
		return t.Tup[in.Index]
	case *ssa.Field:
		x := v.val(fr, st, in.X)
		s := x.T.Underlying().(*types.Struct)
		a, bb := fieldRange(s, in.Field)
		r := Value{T: in.Type(), L: x.L[a:bb]}
		v.closureOf(st, &r)
		return r
	case *ssa.FieldAddr:
		x := v.val(fr, st, in.X)
		S := x.T.Underlying().(*types.Pointer).Elem()
		s := S.Underlying().(*types.Struct)
		if x.Addr != nil {
			if x.Addr.Field {
				panic(unsupported("field of a field address"))
			}
			a := *x.Addr
			a.Path = append(append([]int(nil), a.Path...), in.Field)
			return Value{T: in.Type(), Addr: &a}
		}
		v.nonNil(fr, st, x.L[0], in.Pos(), "nil dereference")
		if isObjField(s.Field(in.Field).Type()) {
			return one(in.Type(), Add(x.L[0], Int(fieldOffset(s, in.Field))))
		}
		return Value{T: in.Type(), Addr: &Addr{Field: true, Struct: S, FIdx: in.Field, Ref: x.L[0]}}
	case *ssa.IndexAddr:
		x := v.val(fr, st, in.X)
		i := v.val(fr, st, in.Index).L[0]
		if sl, ok := x.T.Underlying().(*types.Slice); ok {
			v.safety(fr, st, "index out of range", And(Le(Int(0), i), Lt(i, x.L[2])), in.Pos())
			return Value{T: in.Type(), Addr: &Addr{Arr: x.L[0], Idx: Add(x.L[1], i), Elem: sl.Elem()}}
		}
		at := x.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		v.safety(fr, st, "index out of range", And(Le(Int(0), i), Lt(i, Int(at.Len()))), in.Pos())
		return Value{T: in.Type(), Addr: &Addr{Arr: x.L[0], Idx: i, Elem: at.Elem()}}
	case *ssa.Index:
		x := v.val(fr, st, in.X)
		i := v.val(fr, st, in.Index).L[0]
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			v.safety(fr, st, "index out of range", And(Le(Int(0), i), Lt(i, StrLen(x.L[0]))), in.Pos())
			return one(in.Type(), fn("strat", SInt, x.L[0], i))
		}
		at := x.T.Underlying().(*types.Array)
		v.safety(fr, st, "index out of range", And(Le(Int(0), i), Lt(i, Int(at.Len()))), in.Pos())
		if isByte(at.Elem()) {
			return one(in.Type(), fn("strat", SInt, x.L[0], i))
		}
		return Value{T: in.Type(), L: unbox(at.Elem(), Nth(x.L[0], i))}
	case *ssa.Lookup:
		return v.lookup(fr, st, in)
	case *ssa.MakeInterface:
		x := v.materialize(st, v.val(fr, st, in.X))
		b := box(in.X.Type(), x.L)
		if _, param := in.X.Type().(*types.TypeParam); !param && !isIface(in.X.Type()) {
			st.assume(Neq(b, TNil)) // also if it is an element, as it is, of a sequence
		}
		return one(in.Type(), b)
	case *ssa.ChangeInterface:
		return v.val(fr, st, in.X)
	case *ssa.ChangeType:
		return v.val(fr, st, in.X)
	case *ssa.Convert:
		return v.convert(fr, st, v.val(fr, st, in.X), in.Type())
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		c := &Closure{Fn: f, Sig: f.Signature}
		for _, bd := range in.Bindings {
			c.Binds = append(c.Binds, v.val(fr, st, bd))
		}
		if len(f.Blocks) == 0 {
			c.Ext = extName(f)
		}
		return Value{T: in.Type(), Clo: c}
	case *ssa.MakeMap:
		ref := v.alloc(st, 1)
		mt := in.Type().Underlying().(*types.Map)
		v.set(st, mapDom(in.Type()), Store(v.get(st, mapDom(in.Type()), domSort(mt)), ref, ConstArr(keySort(mt.Key()), TFalse)))
		return one(in.Type(), ref)
	case *ssa.MakeSlice:
		n := v.val(fr, st, in.Len).L[0]
		cp := v.val(fr, st, in.Cap).L[0]
		v.safety(fr, st, "makeslice", And(Le(Int(0), n), Le(n, cp)), in.Pos())
		t := in.Type()
		if isByteSlice(t) {
			r := v.newSlice(st, t, fn("zerobytes", SStr, n))
			r.L[2], r.L[3] = n, n
			return r
		}
		el := elemType(t)
		c := Rep(box(el, zeroLeaves(el)), n)
		if isInt(n) && n.N == 0 {
			c = TEmpty
		}
		r := v.newSlice(st, t, c)
		r.L[2] = n
		r.L[3] = n
		return r
	case *ssa.Slice:
		return v.slice(fr, st, in)
	case *ssa.Range:
		return v.rangeStart(fr, st, in)
	case *ssa.Next:
		return v.next(fr, b, st, in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T: %s", in, in)))
}

func (v *Verif) zeroRef(st *State, ref *Term, t types.Type) {
	if v.immutableStruct(t) {
		// Its fields are given their values once. Until then nothing is known of them.
		return
	}
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i).Type(); isObjField(f) {
				v.zeroRef(st, Add(ref, Int(fieldOffset(s, i))), f)
			} else {
				v.storeField(nil, st, t, i, ref, zeroLeaves(f), token.NoPos)
			}
		}
		return
	}
	v.storeRef(nil, st, ref, t, zeroLeavesMem(v, t), token.NoPos)
}

func zeroLeavesMem(v *Verif, t types.Type) []*Term { return zeroLeaves(t) }

func (v *Verif) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	x := v.val(fr, st, in.X)
	switch in.Op {
	case token.MUL:
		return v.load(fr, st, x, in.Pos())
	case token.NOT:
		return one(in.Type(), Not(x.L[0]))
	case token.SUB:
		return one(in.Type(), Sub(Int(0), x.L[0]))
	case token.XOR:
		return one(in.Type(), fn("bitnot", SInt, x.L[0]))
	}
	panic(unsupported("operator " + in.Op.String()))
}

func (v *Verif) equal(st *State, x, y Value) *Term {
	// Comparison with nil.
	if len(x.L) == 1 && x.L[0] == TNil && !isIface(y.T) {
		x, y = y, x
	}
	if len(y.L) == 1 && y.L[0] == TNil && !isIface(x.T) || isNilConst(y) {
		if x.Clo != nil {
			return TFalse
		}
		if x.Addr != nil {
			return TFalse
		}
		if isIface(x.T) {
			return Eq(x.L[0], TNil)
		}
		if x.NilQ != nil {
			return x.NilQ
		}
		return Eq(x.L[0], Int(0))
	}
	if x.Addr != nil || y.Addr != nil {
		panic(unsupported("comparison of interior pointers"))
	}
	if isIface(x.T) != isIface(y.T) {
		if isIface(x.T) {
			return Eq(x.L[0], box(y.T, y.L))
		}
		return Eq(box(x.T, x.L), y.L[0])
	}
	var cs []*Term
	for i := range x.L {
		cs = append(cs, Eq(x.L[i], y.L[i]))
	}
	return And(cs...)
}

func isNilConst(y Value) bool {
	if y.Addr != nil || y.Clo != nil || len(y.L) == 0 {
		return false
	}
	switch y.T.Underlying().(type) {
	case *types.Slice:
		return y.L[0] == Int(0) && y.L[2] == Int(0)
	case *types.Signature, *types.Map, *types.Pointer, *types.Chan:
		return y.L[0] == Int(0)
	case *types.Basic:
		return y.L[0] == TNil
	}
	return false
}

func (v *Verif) binop(fr *Frame, st *State, op token.Token, x, y Value, t types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return one(t, v.equal(st, x, y))
	case token.NEQ:
		return one(t, Not(v.equal(st, x, y)))
	}
	a, b := x.L[0], y.L[0]
	if a.S == SStr {
		switch op {
		case token.ADD:
			return one(t, StrCat(a, b))
		case token.LSS:
			return one(t, fn("strlt", SBool, a, b))
		case token.GTR:
			return one(t, fn("strlt", SBool, b, a))
		case token.LEQ:
			return one(t, Not(fn("strlt", SBool, b, a)))
		case token.GEQ:
			return one(t, Not(fn("strlt", SBool, a, b)))
		}
	}
	switch op {
	case token.ADD:
		return one(t, Add(a, b))
	case token.SUB:
		return one(t, Sub(a, b))
	case token.MUL:
		return one(t, Mul(a, b))
	case token.QUO:
		if isInt(a) && isInt(b) && b.N != 0 {
			return one(t, Int(a.N/b.N))
		}
		return one(t, fn("godiv", SInt, a, b))
	case token.REM:
		return one(t, goRem(a, b))
	case token.LSS:
		return one(t, Lt(a, b))
	case token.LEQ:
		return one(t, Le(a, b))
	case token.GTR:
		return one(t, Lt(b, a))
	case token.GEQ:
		return one(t, Le(b, a))
	case token.OR, token.AND, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if isInt(a) && isInt(b) {
			switch op {
			case token.OR:
				return one(t, Int(a.N|b.N))
			case token.AND:
				return one(t, Int(a.N&b.N))
			case token.XOR:
				return one(t, Int(a.N^b.N))
			case token.SHL:
				return one(t, Int(a.N<<uint(b.N)))
			case token.SHR:
				return one(t, Int(a.N>>uint(b.N)))
			}
		}
		return one(t, fn("bit"+op.String(), SInt, a, b))
	}
	panic(unsupported("operator " + op.String()))
}

func allEven(l lin) bool {
	for _, c := range l.m {
		if c%2 != 0 {
			return false
		}
	}
	return true
}

func (v *Verif) convert(fr *Frame, st *State, x Value, t types.Type) Value {
	from := x.T.Underlying()
	to := t.Underlying()
	fb, fok := from.(*types.Basic)
	tb, tok := to.(*types.Basic)
	switch {
	case fok && tok && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return one(t, x.L[0])
	case fok && tok && fb.Info()&types.IsNumeric != 0 && tb.Info()&types.IsNumeric != 0:
		return one(t, x.L[0])
	case isByteSlice(x.T) && tok && tb.Info()&types.IsString != 0:
		return one(t, v.content(st, x))
	case fok && fb.Info()&types.IsString != 0 && isByteSlice(t):
		return v.newSlice(st, t, x.L[0])
	case fok && tok && tb.Info()&types.IsString != 0:
		return one(t, fn("runestr", SStr, x.L[0]))
	case len(leafSorts(x.T)) == len(leafSorts(t)):
		return Value{T: t, L: x.L, Own: x.Own}
	}
	panic(unsupported(fmt.Sprintf("conversion from %s to %s", x.T, t)))
}

func (v *Verif) slice(fr *Frame, st *State, in *ssa.Slice) Value {
	x := v.val(fr, st, in.X)
	lo := Int(0)
	if in.Low != nil {
		lo = v.val(fr, st, in.Low).L[0]
	}
	if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		hi := StrLen(x.L[0])
		if in.High != nil {
			hi = v.val(fr, st, in.High).L[0]
		}
		v.safety(fr, st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, StrLen(x.L[0]))), in.Pos())
		return one(in.Type(), fn("strsub", SStr, x.L[0], lo, Sub(hi, lo)))
	}
	var arr, off, n, cp *Term
	own := x.Own
	if p, ok := x.T.Underlying().(*types.Pointer); ok {
		at := p.Elem().Underlying().(*types.Array)
		arr, off, n, cp = x.L[0], Int(0), Int(at.Len()), Int(at.Len())
		own = isTopBased(arr)
	} else {
		arr, off, n, cp = x.L[0], x.L[1], x.L[2], x.L[3]
	}
	hi := n
	if in.High != nil {
		hi = v.val(fr, st, in.High).L[0]
	}
	mx := cp
	if in.Max != nil {
		mx = v.val(fr, st, in.Max).L[0]
	}
	v.safety(fr, st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), in.Pos())
	return Value{T: in.Type(), L: []*Term{arr, Add(off, lo), Sub(hi, lo), Sub(mx, lo)}, Own: own}
}

// ---- maps

func mapDom(t types.Type) string { return "M:" + typeKey(t.Underlying()) + "#dom" }
func mapVal(t types.Type, i int) string {
	return fmt.Sprintf("M:%s#%d", typeKey(t.Underlying()), i)
}
func domSort(mt *types.Map) Sort { return SArr(SInt, SArr(keySort(mt.Key()), SBool)) }
func valSort(mt *types.Map, s Sort) Sort {
	return SArr(SInt, SArr(keySort(mt.Key()), s))
}

func (v *Verif) mapDomTerm(st *State, m Value) *Term {
	mt := m.T.Underlying().(*types.Map)
	if m.L[0] == Int(0) {
		return ConstArr(keySort(mt.Key()), TFalse)
	}
	return Select(v.get(st, mapDom(m.T), domSort(mt)), m.L[0])
}

func (v *Verif) mapGet(st *State, m Value, k *Term) (ok *Term, val Value) {
	mt := m.T.Underlying().(*types.Map)
	dom := v.mapDomTerm(st, m)
	ok = Select(dom, k)
	val = Value{T: mt.Elem()}
	for i, s := range leafSorts(mt.Elem()) {
		val.L = append(val.L, Select(Select(v.get(st, mapVal(m.T, i), valSort(mt, s)), m.L[0]), k))
	}
	return ok, val
}

func (v *Verif) mapUpdate(fr *Frame, st *State, m, k, x Value, pos token.Pos) {
	mt := m.T.Underlying().(*types.Map)
	v.nonNil(fr, st, m.L[0], pos, "assignment to entry in nil map")
	k = v.materialize(st, k)
	x = v.materialize(st, x)
	if isIface(mt.Key()) && !isIface(k.T) {
		k = one(mt.Key(), box(k.T, k.L))
	}
	kt := keyTerm(mt.Key(), k.L)
	v.access(st, fr, mapDom(m.T), m.L[0], nil, true, pos)
	v.guardMap(fr, st, m, true, pos)
	dh := v.get(st, mapDom(m.T), domSort(mt))
	v.claimsAdd(fr, st, m, k, x, Select(Select(dh, m.L[0]), kt), pos)
	v.set(st, mapDom(m.T), Store(dh, m.L[0], Store(Select(dh, m.L[0]), kt, TTrue)))
	for i, s := range leafSorts(mt.Elem()) {
		h := v.get(st, mapVal(m.T, i), valSort(mt, s))
		v.set(st, mapVal(m.T, i), Store(h, m.L[0], Store(Select(h, m.L[0]), kt, x.L[i])))
	}
}

func (v *Verif) lookup(fr *Frame, st *State, in *ssa.Lookup) Value {
	m := v.val(fr, st, in.X)
	k := v.val(fr, st, in.Index)
	if b, ok := m.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		v.safety(fr, st, "index out of range", And(Le(Int(0), k.L[0]), Lt(k.L[0], StrLen(m.L[0]))), in.Pos())
		return one(in.Type(), fn("strat", SInt, m.L[0], k.L[0]))
	}
	mt := m.T.Underlying().(*types.Map)
	k = v.materialize(st, k)
	v.access(st, fr, mapDom(m.T), m.L[0], nil, false, in.Pos())
	v.guardMap(fr, st, m, false, in.Pos())
	ok, val := v.mapGet(st, m, keyTerm(mt.Key(), k.L))
	if ok != TTrue {
		st.assume(Implies(Eq(m.L[0], Int(0)), Not(ok)))
		z := zeroLeaves(mt.Elem())
		for i := range val.L {
			val.L[i] = Ite(ok, val.L[i], z[i])
		}
	}
	v.refFacts(st, val.T, val.L)
	v.closureOf(st, &val)
	v.claimsFound(fr, st, m, k, ok, val)
	if in.CommaOk {
		return Value{T: in.Type(), Tup: []Value{val, one(tBool, ok)}}
	}
	return val
}

func (v *Verif) rangeStart(fr *Frame, st *State, in *ssa.Range) Value {
	m := v.val(fr, st, in.X)
	mt, ok := m.T.Underlying().(*types.Map)
	if !ok {
		panic(unsupported("range over a string"))
	}
	v.access(st, fr, mapDom(m.T), m.L[0], nil, false, in.Pos())
	v.guardMap(fr, st, m, false, in.Pos())
	dom := v.mapDomTerm(st, m)
	seq := v.enumSeq(st, dom, mt.Key())
	return Value{T: in.Type(), It: &Iter{Map: m, Seq: seq, Dom: dom, Heap: mapDom(m.T)}}
}

// enumSeq is some enumeration of the elements of a set, each occurring once.
func (v *Verif) enumSeq(st *State, dom *Term, key types.Type) *Term {
	nonce := v.fresh(st, "order", SInt)
	seq := fn("enumseq", SSeq, dom, nonce)
	if dom.Op == "const" && dom.Args[0] == TFalse {
		return TEmpty
	}
	ks := keySort(key)
	if seq.Op != "seqempty" {
		st.assume(Eq(Len(seq), fn("card", SInt, dom)))
	}
	idx := freshSym("enumidx", SInt, append(sortsOf(st.ks), ks)...)
	at := func(k *Term) *Term { return app(idx, append(append([]*Term(nil), st.ks...), k)...) }
	i := Var("i!e", SInt)
	k := Var("k!e", ks)
	nth := Nth(seq, i)
	kk := keyTerm(key, unbox(key, nth))
	st.assume(Forall([]*Term{i}, Implies(And(Le(Int(0), i), Lt(i, Len(seq))), And(Select(dom, kk), Eq(at(kk), i), wellTyped(key, nth))), []*Term{nth}))
	st.assume(Forall([]*Term{k}, Implies(Select(dom, k), And(Le(Int(0), at(k)), Lt(at(k), Len(seq)), Eq(Nth(seq, at(k)), box(key, keyLeaves(key, k))))), []*Term{Select(dom, k)}))
	return seq
}

func sortsOf(ts []*Term) []Sort {
	out := make([]Sort, len(ts))
	for i, t := range ts {
		out[i] = t.S
	}
	return out
}

func (v *Verif) next(fr *Frame, b *ssa.BasicBlock, st *State, in *ssa.Next) Value {
	it := v.val(fr, st, in.Iter).It
	if it == nil {
		panic(unsupported("range over a string"))
	}
	var pos *Term
	for i := len(fr.loops) - 1; i >= 0; i-- {
		if fr.loops[i].loop.header == b {
			pos = fr.loops[i].k
		}
	}
	if pos == nil {
		panic(unsupported("range outside of a loop"))
	}
	mt := it.Map.T.Underlying().(*types.Map)
	if v.mapDomTerm(st, it.Map) != it.Dom && v.silent == 0 {
		v.oblige(st, fr, "map is not changed while ranging over it", Eq(v.mapDomTerm(st, it.Map), it.Dom), in.Pos(), []string{"*"})
	}
	ok := Lt(pos, Len(it.Seq))
	el := Nth(it.Seq, pos)
	kl := unbox(mt.Key(), el)
	_, val := v.mapGet(st, it.Map, keyTerm(mt.Key(), kl))
	st.assume(Le(Int(0), pos))
	return Value{T: in.Type(), Tup: []Value{one(tBool, ok), {T: mt.Key(), L: kl}, val}}
}

// ---- type assertions

func (v *Verif) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) []Outcome {
	x := v.val(fr, st, in.X)
	cond := v.hasType(x.L[0], in.AssertedType)
	mkval := func(ok bool) Value {
		if !ok {
			return Value{T: in.AssertedType, L: zeroLeaves(in.AssertedType)}
		}
		if isIface(in.AssertedType) {
			return one(in.AssertedType, x.L[0])
		}
		return Value{T: in.AssertedType, L: unbox(in.AssertedType, x.L[0])}
	}
	if !in.CommaOk {
		v.safety(fr, st, "type assertion", cond, in.Pos())
		y := mkval(true)
		v.loaded(st, &y)
		return []Outcome{{st: st, res: []Value{y}}}
	}
	cond = st.simp(cond)
	if _, basic := in.AssertedType.Underlying().(*types.Basic); (basic || isIface(in.AssertedType)) && cond != TTrue && cond != TFalse {
		y, n := mkval(true), mkval(false)
		z := Value{T: in.AssertedType}
		for i := range y.L {
			z.L = append(z.L, Ite(cond, y.L[i], n.L[i]))
		}
		if basic {
			st.assume(Implies(cond, wellTyped(in.AssertedType, x.L[0])))
		}
		return []Outcome{{st: st, res: []Value{z, one(tBool, cond)}}}
	}
	yes, no := v.split(st, cond)
	var outs []Outcome
	if yes != nil {
		y := mkval(true)
		v.loaded(yes, &y)
		if !isIface(in.AssertedType) {
			yes.assume(wellTyped(in.AssertedType, x.L[0]))
		}
		outs = append(outs, Outcome{st: yes, res: []Value{y, one(tBool, TTrue)}})
	}
	if no != nil {
		outs = append(outs, Outcome{st: no, res: []Value{mkval(false), one(tBool, TFalse)}})
	}
	return outs
}

func (v *Verif) hasType(x *Term, t types.Type) *Term {
	if !isIface(t) {
		return Eq(TagOf(x), Int(tagNum(t)))
	}
	it := t.Underlying().(*types.Interface)
	if x == TNil {
		return TFalse
	}
	tg := TagOf(x)
	if isInt(tg) {
		if dt := tagType(tg.N); dt != nil {
			return Bool(types.Implements(dt, it))
		}
	}
	if it.NumMethods() == 0 {
		return Neq(x, TNil)
	}
	return And(Neq(x, TNil), fn("implements:"+typeKey(t), SBool, tg))
}

// goRem is the remainder of a division in Go.
func goRem(a, b *Term) *Term {
	if isInt(b) && b.N != 0 {
		if isInt(a) {
			return Int(a.N % b.N)
		}
		if b.N == 2 {
			if l := linOf(a); allEven(l) {
				return Int(l.c % 2)
			}
		}
		if b.N > 0 {
			return Ite(Le(Int(0), a), mk("mod", "", 0, SInt, a, b), Sub(Int(0), mk("mod", "", 0, SInt, Sub(Int(0), a), b)))
		}
	}
	return fn("gorem", SInt, a, b)
}
