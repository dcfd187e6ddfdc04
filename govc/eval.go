package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is the value of an expression of the contract language: a Go value, or (with T nil) a logical term.
type SV struct {
	Value
	Elem types.Type // of a raw sequence
	dom  bool
}

func raw(t *Term) SV {
	switch t.S {
	case SBool:
		return SV{Value: one(tBool, t)}
	case SInt:
		return SV{Value: one(tInt, t)}
	case SStr:
		return SV{Value: one(tString, t)}
	}
	return SV{Value: Value{L: []*Term{t}}}
}

func rawSeq(t *Term, el types.Type) SV {
	return SV{Value: Value{L: []*Term{t}}, Elem: el}
}

type Eval struct {
	v     *Verif
	fr    *Frame
	st    *State
	pre   *State
	entry *State // of the loop, in an invariant
	env   map[string]SV
	lets  map[string]*Expr
	pkg   *types.Package
	depth int
	world *Term
	inDef int
}

func (v *Verif) newEval(fr *Frame, st, pre *State) *Eval {
	ev := &Eval{v: v, fr: fr, st: st, pre: pre, env: map[string]SV{}, lets: map[string]*Expr{}}
	if v.Fn != nil {
		ev.pkg = fnPkg(v.Fn)
	}
	return ev
}

func fnPkg(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (ev *Eval) letsOf(c *Contract) {
	for k, e := range c.lets {
		ev.lets[k] = e
	}
}

func (ev *Eval) bindParams(fn *ssa.Function, args []Value) {
	if p := fnPkg(fn); p != nil {
		ev.pkg = p
	}
	for i, p := range fn.Params {
		a := args[i]
		a.T = p.Type()
		n := p.Name()
		if n == "_" || n == "" {
			n = fmt.Sprintf("p%d", i)
		}
		ev.env[n] = SV{Value: a}
		ev.env[fmt.Sprintf("arg%d", i)] = SV{Value: a}
		if i == 0 && fn.Signature.Recv() != nil {
			ev.env["recv"] = SV{Value: a}
		}
	}
}

func (ev *Eval) bindResults(sig *types.Signature, names []string, res []Value) {
	n := sig.Results().Len()
	for i := 0; i < n && i < len(res); i++ {
		r := res[i]
		r.T = sig.Results().At(i).Type()
		x := SV{Value: r}
		ev.env[fmt.Sprintf("r%d", i)] = x
		if i < len(names) {
			ev.env[names[i]] = x
			continue
		}
		if len(names) > 0 {
			continue
		}
		if i == n-1 && typeKey(r.T) == "error" {
			ev.env["err"] = x
		}
		if i == 0 {
			ev.env["result"] = x
		}
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			if _, ok := ev.env[nm]; !ok {
				ev.env[nm] = x
			}
		}
	}
}

func (ev *Eval) bindExtern(d *extern, sig *types.Signature, args []Value) {
	for i, a := range args {
		ev.env[fmt.Sprintf("arg%d", i)] = SV{Value: a}
		if i < len(d.params) {
			ev.env[d.params[i]] = SV{Value: a}
		}
	}
	for k, e := range d.lets {
		ev.lets[k] = e
	}
}

func (ev *Eval) fail(f string, args ...any) {
	panic(specErr(fmt.Sprintf(f, args...)))
}

// boundVar is the value that a variable of the enclosing function has for a closure.
func (ev *Eval) boundVar(ref *Term, name, variable string) SV {
	f := ev.v.W.Funcs[name]
	if f == nil {
		ev.fail("no function %s", name)
	}
	for i, fv := range f.FreeVars {
		if fv.Name() != variable {
			continue
		}
		at := fn(fmt.Sprintf("clobind:%d", i), SInt, ref)
		p, ok := fv.Type().Underlying().(*types.Pointer)
		if !ok {
			ev.fail("%s is not a variable", variable)
		}
		return SV{Value: ev.v.loadRef(nil, ev.st, at, p.Elem(), 0)}
	}
	ev.fail("%s has no variable %s", name, variable)
	return SV{}
}

func (ev *Eval) sub() *Eval {
	n := *ev
	n.env = make(map[string]SV, len(ev.env)+2)
	for k, v := range ev.env {
		n.env[k] = v
	}
	return &n
}

func (ev *Eval) boolExpr(e *Expr) *Term {
	x := ev.expr(e)
	if len(x.L) != 1 || x.L[0].S != SBool {
		ev.fail("not a condition: %s", e)
	}
	return x.L[0]
}

func (ev *Eval) intExpr(e *Expr) *Term {
	x := ev.expr(e)
	if len(x.L) != 1 || x.L[0].S != SInt {
		ev.fail("not an integer: %s", e)
	}
	return x.L[0]
}

// seqExpr is the sequence denoted by a slice or raw sequence.
func (ev *Eval) seqExpr(e *Expr) (*Term, types.Type) {
	return ev.seqOf(ev.expr(e))
}

func (ev *Eval) seqOf(x SV) (*Term, types.Type) {
	if x.T != nil {
		if sl, ok := x.T.Underlying().(*types.Slice); ok {
			if isByteSlice(x.T) {
				ev.fail("a byte slice is not a sequence; use str()")
			}
			return ev.v.content(ev.st, x.Value), sl.Elem()
		}
		if a, ok := x.T.Underlying().(*types.Array); ok && x.L[0].S == SSeq {
			return x.L[0], a.Elem()
		}
		if x.L[0] == Int(0) && typeKey(x.T) == "untyped nil" {
			return TEmpty, nil
		}
		ev.fail("not a sequence: a %s", x.T)
	}
	if x.L[0].S == SSeq {
		return x.L[0], x.Elem
	}
	if x.L[0].S == SVal {
		return Sel("qval", x.L[0]), x.Elem
	}
	ev.fail("not a sequence")
	return nil, nil
}

func (ev *Eval) boxed(x SV) *Term {
	if x.T == nil {
		if x.L[0].S == SVal {
			return x.L[0]
		}
		return boxLeaf(x.L[0])
	}
	if typeKey(x.T) == "untyped nil" {
		return TNil
	}
	if x.Clo != nil && len(x.L) == 0 {
		x.Value = ev.v.materialize(ev.st, x.Value)
	}
	if sl, ok := x.T.Underlying().(*types.Slice); ok {
		_ = sl
		if isByteSlice(x.T) {
			return VStr(Int(0), ev.v.content(ev.st, x.Value))
		}
		return VSeq(Int(0), ev.v.content(ev.st, x.Value))
	}
	return box(x.T, x.L)
}

func (ev *Eval) str(x SV) *Term {
	if x.T != nil && isByteSlice(x.T) {
		return ev.v.content(ev.st, x.Value)
	}
	if len(x.L) == 1 && x.L[0].S == SStr {
		return x.L[0]
	}
	if len(x.L) == 1 && x.T == nil && x.L[0].S == SVal {
		return Sel("sval", x.L[0])
	}
	ev.fail("not a string")
	return nil
}

func (ev *Eval) val(x SV) *Term { return ev.boxed(x) }

func isNilSV(x SV) bool {
	return x.T != nil && typeKey(x.T) == "untyped nil"
}

func (ev *Eval) equal(a, b SV) *Term {
	if isNilSV(a) {
		a, b = b, a
	}
	if isNilSV(b) {
		if isNilSV(a) {
			return TTrue
		}
		if a.T == nil {
			switch a.L[0].S {
			case SVal:
				return Eq(a.L[0], TNil)
			case SSeq:
				return Eq(a.L[0], TEmpty)
			}
		}
		if a.Clo != nil {
			return TFalse
		}
		if isIface(a.T) {
			return Eq(a.L[0], TNil)
		}
		return Eq(a.L[0], Int(0))
	}
	if a.T != nil && b.T != nil {
		if isIface(a.T) || isIface(b.T) {
			return Eq(ev.box2(a), ev.box2(b))
		}
		if isByteSlice(a.T) != isByteSlice(b.T) {
			return Eq(ev.str(a), ev.str(b))
		}
		if a.Clo != nil || b.Clo != nil {
			a.Value, b.Value = ev.v.materialize(ev.st, a.Value), ev.v.materialize(ev.st, b.Value)
		}
		if len(a.L) != len(b.L) {
			ev.fail("comparison of %s and %s", a.T, b.T)
		}
		var cs []*Term
		for i := range a.L {
			if a.L[i].S != b.L[i].S {
				ev.fail("comparison of %s and %s", a.T, b.T)
			}
			cs = append(cs, Eq(a.L[i], b.L[i]))
		}
		return And(cs...)
	}
	at, bt := a, b
	if a.T != nil {
		at, bt = b, a
	}
	// at is raw.
	switch at.L[0].S {
	case SSeq:
		s, _ := ev.seqOf(bt)
		return Eq(at.L[0], s)
	case SVal:
		return Eq(at.L[0], ev.boxed(bt))
	}
	if len(bt.L) == 1 && bt.L[0].S == at.L[0].S {
		return Eq(at.L[0], bt.L[0])
	}
	ev.fail("comparison of a %s", at.L[0].S)
	return nil
}

// box2 puts a Go value in an interface, as Go does.
func (ev *Eval) box2(x SV) *Term {
	if x.T == nil {
		return x.L[0]
	}
	if x.Clo != nil && len(x.L) == 0 {
		x.Value = ev.v.materialize(ev.st, x.Value)
	}
	return box(x.T, x.L)
}

func (ev *Eval) loadField(x SV, name string) SV {
	if x.T == nil && x.L[0].S == SVal {
		ev.fail("field %s of an untyped value", name)
	}
	t := x.T
	if p, ok := t.Underlying().(*types.Pointer); ok {
		S := p.Elem()
		s, ok := S.Underlying().(*types.Struct)
		if !ok {
			ev.fail("field %s of a %s", name, t)
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				ft := s.Field(i).Type()
				if isObjField(ft) {
					return SV{Value: ev.v.loadRef(nil, ev.st, Add(x.L[0], Int(fieldOffset(s, i))), ft, 0)}
				}
				return SV{Value: ev.v.loadField(nil, ev.st, S, i, x.L[0], 0)}
			}
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Embedded() {
				f := s.Field(i)
				if isObjField(f.Type()) {
					return ev.loadField(SV{Value: one(types.NewPointer(f.Type()), Add(x.L[0], Int(fieldOffset(s, i))))}, name)
				}
			}
		}
		ev.fail("no field %s in %s", name, S)
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		ev.fail("field %s of a %s", name, t)
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			a, b := fieldRange(s, i)
			return SV{Value: Value{T: s.Field(i).Type(), L: x.L[a:b]}}
		}
	}
	ev.fail("no field %s in %s", name, t)
	return SV{}
}

func (ev *Eval) index(x SV, i *Expr) SV {
	if x.T != nil {
		if m, ok := x.T.Underlying().(*types.Map); ok {
			k := ev.mapKey(m, i)
			_, val := ev.v.mapGet(ev.st, x.Value, k)
			return SV{Value: val}
		}
		if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return raw(fn("strat", SInt, x.L[0], ev.intExpr(i)))
		}
		if isByteSlice(x.T) {
			return raw(fn("strat", SInt, ev.str(x), ev.intExpr(i)))
		}
	}
	if x.T == nil {
		if strings.HasPrefix(string(x.L[0].S), "(Array") {
			k, _ := arrParts(x.L[0].S)
			return raw(Select(x.L[0], ev.coerce(ev.expr(i), k)))
		}
	}
	s, el := ev.seqOf(x)
	e := Nth(s, ev.intExpr(i))
	return ev.elem(e, el)
}

func (ev *Eval) elem(e *Term, el types.Type) SV {
	if el == nil {
		return raw(e)
	}
	return SV{Value: Value{T: el, L: unbox(el, e)}}
}

// coerce makes a term of the given sort.
func (ev *Eval) coerce(x SV, s Sort) *Term {
	switch s {
	case SVal:
		return ev.boxed(x)
	case SSeq:
		t, _ := ev.seqOf(x)
		return t
	case SStr:
		return ev.str(x)
	}
	if isNilSV(x) && s == SInt {
		return Int(0)
	}
	if x.Clo != nil && len(x.L) == 0 {
		x.Value = ev.v.materialize(ev.st, x.Value)
	}
	if len(x.L) == 1 && x.L[0].S == s {
		return x.L[0]
	}
	if x.T == nil && len(x.L) == 1 && x.L[0].S == SVal && s == SInt {
		return Sel("ival", x.L[0])
	}
	if x.T != nil && s == SInt {
		if _, ok := x.T.Underlying().(*types.Slice); ok {
			return x.L[0]
		}
	}
	ev.fail("a %s is needed", s)
	return nil
}

func (ev *Eval) mapKey(m *types.Map, i *Expr) *Term {
	x := ev.expr(i)
	if keySort(m.Key()) == SVal {
		return ev.box2(x)
	}
	return ev.coerce(x, keySort(m.Key()))
}

func (ev *Eval) ident(name string) (SV, bool) {
	if x, ok := ev.env[name]; ok {
		return x, true
	}
	if e, ok := ev.lets[name]; ok {
		return ev.expr(e), true
	}
	if d, ok := ev.v.S.defs[name]; ok && len(d.params) == 0 {
		return ev.expr(d.body), true
	}
	if s, ok := ev.v.S.ghosts[name]; ok {
		if name == "world" && ev.world != nil {
			return raw(ev.world), true
		}
		return raw(ev.v.get(ev.st, name, s)), true
	}
	if ev.v.Fn != nil && len(ev.v.binds) == len(ev.v.Fn.FreeVars) {
		for i, fv := range ev.v.Fn.FreeVars {
			if fv.Name() != name {
				continue
			}
			b := ev.v.binds[i]
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok {
				return SV{Value: ev.v.loadRef(nil, ev.st, b.L[0], p.Elem(), 0)}, true
			}
			return SV{Value: b}, true
		}
	}
	if o := ev.v.W.lookupObj(ev.pkg, name); o != nil {
		return ev.object(o)
	}
	return SV{}, false
}

func (ev *Eval) object(o types.Object) (SV, bool) {
	switch o := o.(type) {
	case *types.Const:
		c := ssa.NewConst(o.Val(), o.Type())
		return SV{Value: ev.v.constant(c)}, true
	case *types.Var:
		if sp := ev.v.W.Prog.Package(o.Pkg()); sp != nil {
			if g := sp.Var(o.Name()); g != nil {
				return SV{Value: ev.v.loadRef(nil, ev.st, ev.v.globalRef(g), o.Type(), 0)}, true
			}
		}
	case *types.Func:
		if f := ev.v.W.Prog.FuncValue(o); f != nil {
			return SV{Value: Value{T: o.Type(), Clo: ev.v.closureFor(f)}}, true
		}
	}
	return SV{}, false
}

func (e *Expr) String() string {
	if e == nil {
		return "?"
	}
	switch e.op {
	case "int":
		return fmt.Sprint(e.n)
	case "str":
		return fmt.Sprintf("%q", e.name)
	case "id", "bool":
		return e.name
	case "nil":
		return "nil"
	case "call":
		var as []string
		for _, a := range e.args {
			as = append(as, a.String())
		}
		if e.typ != "" {
			as = append(as, e.typ)
		}
		return e.name + "(" + strings.Join(as, ", ") + ")"
	case "sel":
		return e.args[0].String() + "." + e.name
	}
	var as []string
	for _, a := range e.args {
		as = append(as, a.String())
	}
	return "(" + e.op + " " + strings.Join(as, " ") + ")"
}

func (ev *Eval) withState(st *State, f func(*Eval) SV) SV {
	n := ev.sub()
	n.st = st
	n.world = nil
	return f(n)
}

func (ev *Eval) expr(e *Expr) SV {
	switch e.op {
	case "int":
		return raw(Int(e.n))
	case "str":
		return raw(Lit(e.name))
	case "bool":
		return raw(Bool(e.name == "true"))
	case "nil":
		return SV{Value: Value{T: types.Typ[types.UntypedNil], L: []*Term{Int(0)}}}
	case "id":
		x, ok := ev.ident(e.name)
		if !ok {
			ev.fail("unknown name %s", e.name)
		}
		return x
	case "!":
		return raw(Not(ev.boolExpr(e.args[0])))
	case "neg":
		return raw(Sub(Int(0), ev.intExpr(e.args[0])))
	case "&&":
		a := ev.boolExpr(e.args[0])
		if a == TFalse {
			return raw(TFalse)
		}
		return raw(And(a, ev.boolExpr(e.args[1])))
	case "||":
		a := ev.boolExpr(e.args[0])
		if a == TTrue {
			return raw(TTrue)
		}
		return raw(Or(a, ev.boolExpr(e.args[1])))
	case "==>":
		a := ev.boolExpr(e.args[0])
		if a == TFalse || ev.st.simp(a) == TFalse {
			return raw(TTrue)
		}
		return raw(Implies(a, ev.boolExpr(e.args[1])))
	case "<==>":
		return raw(Eq(ev.boolExpr(e.args[0]), ev.boolExpr(e.args[1])))
	case "==":
		return raw(ev.equal(ev.expr(e.args[0]), ev.expr(e.args[1])))
	case "!=":
		return raw(Not(ev.equal(ev.expr(e.args[0]), ev.expr(e.args[1]))))
	case "<", "<=", ">", ">=":
		a, b := ev.expr(e.args[0]), ev.expr(e.args[1])
		if len(a.L) == 1 && a.L[0].S == SStr {
			x, y := ev.str(a), ev.str(b)
			switch e.op {
			case "<":
				return raw(fn("strlt", SBool, x, y))
			case ">":
				return raw(fn("strlt", SBool, y, x))
			case "<=":
				return raw(Not(fn("strlt", SBool, y, x)))
			}
			return raw(Not(fn("strlt", SBool, x, y)))
		}
		x, y := ev.coerce(a, SInt), ev.coerce(b, SInt)
		switch e.op {
		case "<":
			return raw(Lt(x, y))
		case "<=":
			return raw(Le(x, y))
		case ">":
			return raw(Lt(y, x))
		}
		return raw(Le(y, x))
	case "+":
		a := ev.expr(e.args[0])
		b := ev.expr(e.args[1])
		if len(a.L) == 1 && a.L[0].S == SStr || a.T != nil && isByteSlice(a.T) {
			return raw(StrCat(ev.str(a), ev.str(b)))
		}
		return raw(Add(ev.coerce(a, SInt), ev.coerce(b, SInt)))
	case "-":
		return raw(Sub(ev.intExpr(e.args[0]), ev.intExpr(e.args[1])))
	case "*":
		return raw(Mul(ev.intExpr(e.args[0]), ev.intExpr(e.args[1])))
	case "deref":
		x := ev.expr(e.args[0])
		p, ok := x.T.Underlying().(*types.Pointer)
		if !ok {
			ev.fail("not a pointer: %s", e.args[0])
		}
		if x.Addr != nil {
			return SV{Value: ev.v.loadAddr(nil, ev.st, x.Addr, p.Elem(), 0)}
		}
		return SV{Value: ev.v.loadRef(nil, ev.st, x.L[0], p.Elem(), 0)}
	case "sel":
		if e.args[0].op == "id" {
			n := e.args[0].name
			if _, ok := ev.env[n]; !ok {
				if _, ok := ev.lets[n]; !ok {
					if o := ev.v.W.lookupObj(ev.pkg, n+"."+e.name); o != nil {
						if x, ok := ev.object(o); ok {
							return x
						}
					}
				}
			}
		}
		return ev.loadField(ev.expr(e.args[0]), e.name)
	case "index":
		return ev.index(ev.expr(e.args[0]), e.args[1])
	case "slice":
		x := ev.expr(e.args[0])
		lo := ev.intExpr(e.args[1])
		if x.T != nil {
			if b, ok := x.T.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				hi := StrLen(x.L[0])
				if e.args[2] != nil {
					hi = ev.intExpr(e.args[2])
				}
				return raw(fn("strsub", SStr, x.L[0], lo, Sub(hi, lo)))
			}
		}
		s, el := ev.seqOf(x)
		if e.args[2] == nil {
			return rawSeq(Drop(s, lo), el)
		}
		return rawSeq(SeqSub(s, lo, Sub(ev.intExpr(e.args[2]), lo)), el)
	case "forall", "exists":
		n := ev.sub()
		n.depth++
		var vars []*Term
		for _, q := range e.vars {
			if s := specSort(q.typ); s != "" {
				t := Var(fmt.Sprintf("%s?%d", q.name, n.depth), s)
				vars = append(vars, t)
				n.env[q.name] = raw(t)
				continue
			}
			T := ev.v.W.parseType(ev.pkg, q.typ)
			x := Value{T: T}
			for i, s := range leafSorts(T) {
				t := Var(fmt.Sprintf("%s?%d.%d", q.name, n.depth, i), s)
				vars = append(vars, t)
				x.L = append(x.L, t)
			}
			n.env[q.name] = SV{Value: x}
		}
		var pats [][]*Term
		for _, ps := range e.pats {
			var ts []*Term
			for _, p := range ps {
				pv := n.expr(p)
				ts = append(ts, pv.L[0])
			}
			pats = append(pats, ts)
		}
		body := n.boolExpr(e.args[0])
		if e.op == "forall" {
			return raw(Forall(vars, body, pats...))
		}
		return raw(Exists(vars, body, pats...))
	case "call":
		return ev.call(e)
	}
	ev.fail("expression %s", e)
	return SV{}
}

func (ev *Eval) call(e *Expr) SV {
	v := ev.v
	switch e.name {
	case "len":
		x := ev.expr(e.args[0])
		if x.T != nil {
			switch u := x.T.Underlying().(type) {
			case *types.Slice:
				return raw(x.L[2])
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					return raw(StrLen(x.L[0]))
				}
			case *types.Map:
				return raw(fn("card", SInt, v.mapDomTerm(ev.st, x.Value)))
			}
		}
		s, _ := ev.seqOf(x)
		return raw(Len(s))
	case "seq":
		s, el := ev.seqExpr(e.args[0])
		return rawSeq(s, el)
	case "elems": // elems(x, T): a raw sequence whose elements are of type T
		s, _ := ev.seqExpr(e.args[0])
		return rawSeq(s, v.W.parseType(ev.pkg, e.typ))
	case "old":
		if ev.pre == nil {
			ev.fail("old() is not available here")
		}
		return ev.withState(ev.pre, func(n *Eval) SV { return n.expr(e.args[0]) })
	case "entry": // entry(e): the value when the loop was entered
		if ev.entry == nil {
			ev.fail("entry() is not available here")
		}
		return ev.withState(ev.entry, func(n *Eval) SV { return n.expr(e.args[0]) })
	case "bound": // bound(f, "pkg.F$1", "x", T): f is the function F$1, and what its variable x of type T is
		ref := v.materialize(ev.st, ev.expr(e.args[0]).Value).L[0]
		return ev.boundVar(ref, e.args[1].name, e.args[2].name)
	case "alive": // alive(s): what the slice, pointer or map s refers to has been allocated
		return raw(Lt(ev.expr(e.args[0]).L[0], v.get(ev.st, "top", SInt)))
	case "created": // created(s): what the slice, pointer or map s refers to has been allocated by the function
		if ev.pre == nil {
			ev.fail("created() is not available here")
		}
		r := ev.expr(e.args[0]).L[0]
		return raw(And(Le(v.get(ev.pre, "top", SInt), r), Lt(r, v.get(ev.st, "top", SInt))))
	case "isfunc": // isfunc(f, "pkg.F$1"): f is the function F$1
		return raw(Eq(fn("clofn", SStr, v.materialize(ev.st, ev.expr(e.args[0]).Value).L[0]), Lit(e.args[1].name)))
	case "at": // at(w, e): e in the world w
		n := ev.sub()
		n.world = ev.intExpr(e.args[0])
		return n.expr(e.args[1])
	case "ev":
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, ev.boxed(ev.expr(a)))
		}
		return raw(VEv(e.args[0].name, SeqOf(as...)))
	case "iskind": // iskind(event, "name")
		return raw(And(IsCtor("VEv", ev.boxed(ev.expr(e.args[0]))), Eq(Sel("ekind", ev.boxed(ev.expr(e.args[0]))), kindTerm(e.args[1].name))))
	case "evarg": // evarg(event, i)
		return raw(Nth(Sel("eargs", ev.boxed(ev.expr(e.args[0]))), ev.intExpr(e.args[1])))
	case "evargs":
		return raw(Sel("eargs", ev.boxed(ev.expr(e.args[0]))))
	case "cat":
		var ss []*Term
		var el types.Type
		for _, a := range e.args {
			s, t := ev.seqExpr(a)
			if t != nil {
				el = t
			}
			ss = append(ss, s)
		}
		return rawSeq(Cat(ss...), el)
	case "unit":
		x := ev.expr(e.args[0])
		return rawSeq(Unit(ev.boxedElem(x)), x.T)
	case "list":
		var ts []*Term
		var el types.Type
		for _, a := range e.args {
			x := ev.expr(a)
			el = x.T
			ts = append(ts, ev.boxedElem(x))
		}
		return rawSeq(SeqOf(ts...), el)
	case "empty":
		return rawSeq(TEmpty, nil)
	case "take":
		s, el := ev.seqExpr(e.args[0])
		return rawSeq(Take(s, ev.intExpr(e.args[1])), el)
	case "drop":
		s, el := ev.seqExpr(e.args[0])
		return rawSeq(Drop(s, ev.intExpr(e.args[1])), el)
	case "nth":
		s, el := ev.seqExpr(e.args[0])
		return ev.elem(Nth(s, ev.intExpr(e.args[1])), el)
	case "mem":
		s, _ := ev.seqExpr(e.args[0])
		return raw(Mem(s, ev.boxedElem(ev.expr(e.args[1]))))
	case "sorted":
		s, el := ev.seqExpr(e.args[0])
		return rawSeq(fn("sortseq", SSeq, s), el)
	case "upd":
		s, el := ev.seqExpr(e.args[0])
		return rawSeq(Upd(s, ev.intExpr(e.args[1]), ev.boxedElem(ev.expr(e.args[2]))), el)
	case "rep":
		x := ev.expr(e.args[0])
		return rawSeq(Rep(ev.boxedElem(x), ev.intExpr(e.args[1])), x.T)
	case "has":
		x := ev.expr(e.args[0])
		if x.T == nil {
			if strings.HasPrefix(string(x.L[0].S), "(Array") {
				k, _ := arrParts(x.L[0].S)
				return raw(Select(x.L[0], ev.coerce(ev.expr(e.args[1]), k)))
			}
			ev.fail("has() of a term that is not a set")
		}
		m := x.T.Underlying().(*types.Map)
		return raw(Select(v.mapDomTerm(ev.st, x.Value), ev.mapKey(m, e.args[1])))
	case "dom":
		x := ev.expr(e.args[0])
		return SV{Value: Value{L: []*Term{v.mapDomTerm(ev.st, x.Value)}}}
	case "store":
		x := ev.expr(e.args[0])
		k, s := arrParts(x.L[0].S)
		return SV{Value: Value{L: []*Term{Store(x.L[0], ev.coerce(ev.expr(e.args[1]), k), ev.coerce(ev.expr(e.args[2]), s))}}}
	case "is":
		return raw(v.hasType(ev.boxed(ev.expr(e.args[0])), v.W.parseType(ev.pkg, e.typ)))
	case "as":
		T := v.W.parseType(ev.pkg, e.typ)
		x := ev.expr(e.args[0])
		if x.T != nil && !isIface(x.T) {
			if len(x.L) == len(leafSorts(T)) {
				return SV{Value: Value{T: T, L: x.L}}
			}
		}
		return SV{Value: Value{T: T, L: unbox(T, ev.boxed(x))}}
	case "wrap": // wrap(T, x): the interface value holding x as a T
		T := v.W.parseType(ev.pkg, e.typ)
		x := ev.expr(e.args[0])
		return raw(box(T, x.L))
	case "zero":
		T := v.W.parseType(ev.pkg, e.typ)
		return SV{Value: Value{T: T, L: zeroLeaves(T)}}
	case "typetag":
		return raw(TagOf(ev.boxed(ev.expr(e.args[0]))))
	case "tag":
		return raw(Int(tagNum(v.W.parseType(ev.pkg, e.typ))))
	case "ite":
		c := ev.boolExpr(e.args[0])
		if c == TTrue {
			return ev.expr(e.args[1])
		}
		if c == TFalse {
			return ev.expr(e.args[2])
		}
		a, b := ev.expr(e.args[1]), ev.expr(e.args[2])
		if isNilSV(a) && b.T != nil {
			a = SV{Value: Value{T: b.T, L: zeroLeaves(b.T)}}
		}
		if isNilSV(b) && a.T != nil {
			b = SV{Value: Value{T: a.T, L: zeroLeaves(a.T)}}
		}
		if a.T == nil || b.T == nil {
			if a.T == nil && a.L[0].S == SSeq || b.T == nil && b.L[0].S == SSeq {
				x, el := ev.seqOf(a)
				y, el2 := ev.seqOf(b)
				if el == nil {
					el = el2
				}
				return rawSeq(Ite(c, x, y), el)
			}
			return raw(Ite(c, ev.boxed(a), ev.boxed(b)))
		}
		if isIface(a.T) != isIface(b.T) {
			return raw(Ite(c, ev.boxed(a), ev.boxed(b)))
		}
		out := SV{Value: Value{T: a.T}}
		for i := range a.L {
			out.L = append(out.L, Ite(c, a.L[i], b.L[i]))
		}
		return out
	case "box":
		return raw(ev.boxed(ev.expr(e.args[0])))
	case "iface":
		return raw(ev.box2(ev.expr(e.args[0])))
	case "str":
		return raw(ev.str(ev.expr(e.args[0])))
	case "ref":
		x := ev.expr(e.args[0])
		if x.T != nil && isIface(x.T) || x.T == nil && x.L[0].S == SVal {
			return raw(Sel("pref", x.L[0]))
		}
		return raw(ev.v.materialize(ev.st, x.Value).L[0])
	case "isfresh":
		if ev.pre == nil {
			ev.fail("isfresh() is not available here")
		}
		x := ev.expr(e.args[0])
		r := x.L[0]
		if r.S == SVal {
			r = Sel("pref", r)
		}
		return raw(Le(v.get(ev.pre, "top", SInt), r))
	case "carries":
		return raw(fn("carries", SBool, ev.boxed(ev.expr(e.args[0])), ev.boxed(ev.expr(e.args[1]))))
	case "sqlok", "sqlconflict":
		return ev.sqlExec(e)
	case "erris":
		return raw(fn("erris", SBool, ev.boxed(ev.expr(e.args[0])), ev.boxed(ev.expr(e.args[1]))))
	case "errjoin":
		s, _ := ev.seqExpr(e.args[0])
		return raw(fn("errjoin", SVal, s))
	case "res": // res(i, f(args)): a result of a pure function
		return ev.pureCall(e.args[1], int(e.args[0].n))
	case "rem": // rem(a, b): the remainder, as in Go
		return raw(goRem(ev.expr(e.args[0]).L[0], ev.expr(e.args[1]).L[0]))
	case "field": // field("pkg.T.f", ref)
		ev.fail("field()")
	case "cells":
		ev.fail("cells()")
	case "kindof": // the reflect.Kind of the dynamic type
		return raw(v.kindOf(ev.st, ev.boxed(ev.expr(e.args[0]))))
	case "background":
		return raw(fn("ctxbackground", SVal))
	case "ctxwith":
		return raw(fn("ctxwith", SVal, ev.boxed(ev.expr(e.args[0])), ev.boxed(ev.expr(e.args[1])), ev.boxed(ev.expr(e.args[2]))))
	case "subset":
		a, b := ev.expr(e.args[0]), ev.expr(e.args[1])
		k, _ := arrParts(a.L[0].S)
		x := Var(fmt.Sprintf("x?%d", ev.depth+1), k)
		return raw(Forall([]*Term{x}, Implies(Select(a.L[0], x), Select(b.L[0], x)), []*Term{Select(a.L[0], x)}))
	}
	if d, ok := v.S.defs[e.name]; ok {
		if len(e.args) != len(d.params) {
			ev.fail("%s takes %d arguments", e.name, len(d.params))
		}
		if ev.inDef > 30 {
			ev.fail("definition of %s is recursive", e.name)
		}
		n := ev.sub()
		n.env = map[string]SV{}
		n.lets = nil
		n.inDef++
		for i, p := range d.params {
			n.env[p.name] = ev.typed(ev.expr(e.args[i]), p.typ)
		}
		return n.expr(d.body)
	}
	if d, ok := v.S.recs[e.name]; ok {
		return ev.recCall(e, d)
	}
	if lf, ok := v.S.logics[e.name]; ok {
		if len(e.args) != len(lf.args) {
			ev.fail("%s takes %d arguments", e.name, len(lf.args))
		}
		var as []*Term
		for i, a := range e.args {
			as = append(as, ev.coerceTyp(ev.expr(a), lf.args[i]))
		}
		return ev.mkTyped(fn("logic:"+e.name, ev.sortOfTyp(lf.res), as...), lf.res)
	}
	if f := v.W.Funcs[e.name]; f != nil && len(f.Blocks) > 0 && v.S.externs[e.name] == nil {
		return ev.repoCall(f, e)
	}
	return ev.pureCall(e, 0)
}

// repoCall is the result of a function of the repository, got by executing its body.
// Only functions without effects may be used so.
func (ev *Eval) repoCall(f *ssa.Function, e *Expr) SV {
	v := ev.v
	if len(e.args) != len(f.Params) || f.Signature.Results().Len() != 1 {
		ev.fail("call of %s", e.name)
	}
	var args []Value
	for i, a := range e.args {
		args = append(args, ev.typed(ev.expr(a), "").Value)
		if isIface(f.Params[i].Type()) {
			args[i] = one(f.Params[i].Type(), ev.box2(ev.expr(a)))
		}
	}
	v.silent++
	defer func() { v.silent-- }()
	st := ev.st.clone()
	st.gor, st.unjoined = nil, nil
	base := map[*Term]bool{}
	for _, t := range st.facts {
		base[t] = true
	}
	outs := v.exec(f, args, nil, st, nil)
	if len(outs) == 0 {
		// Typically because the state is not possible; otherwise nothing is known about the result.
		return SV{Value: v.freshValue(ev.st, f.Signature.Results().At(0).Type(), "noresult")}
	}
	var conds []*Term
	var out SV
	for i := len(outs) - 1; i >= 0; i-- {
		o := outs[i]
		if o.st.heap["world"] != ev.st.heap["world"] || o.st.heap["trace"] != ev.st.heap["trace"] {
			ev.fail("%s has effects", e.name)
		}
		var cs []*Term
		for _, t := range o.st.facts {
			if !base[t] {
				cs = append(cs, t)
			}
		}
		c := And(cs...)
		conds = append(conds, c)
		r := v.materialize(o.st, o.res[0])
		if i == len(outs)-1 {
			out = SV{Value: r}
			continue
		}
		n := SV{Value: Value{T: r.T}}
		for k := range r.L {
			n.L = append(n.L, Ite(c, r.L[k], out.L[k]))
		}
		out = n
	}
	out.T = f.Signature.Results().At(0).Type()
	ev.st.assume(Or(conds...))
	return out
}

func (ev *Eval) boxedElem(x SV) *Term {
	if x.T != nil {
		if isNilSV(x) {
			return TNil
		}
		if x.Clo != nil && len(x.L) == 0 {
			x.Value = ev.v.materialize(ev.st, x.Value)
		}
		return box(x.T, x.L)
	}
	return ev.boxed(x)
}

// typed gives a raw argument the type of the parameter.
func (ev *Eval) typed(x SV, typ string) SV {
	if typ == "" {
		return x
	}
	if specSort(typ) != "" || strings.HasPrefix(typ, "seq<") {
		t := ev.coerceTyp(x, typ)
		return ev.mkTyped(t, typ)
	}
	T := ev.v.W.parseType(ev.pkg, typ)
	if x.T != nil && !isNilSV(x) && isIface(x.T) == isIface(T) {
		return x
	}
	if isNilSV(x) {
		return SV{Value: Value{T: T, L: zeroLeaves(T)}}
	}
	if isIface(T) {
		return SV{Value: one(T, ev.boxed(x))}
	}
	return SV{Value: Value{T: T, L: unbox(T, ev.boxed(x))}}
}

func (ev *Eval) sortOfTyp(typ string) Sort {
	if s := specSort(typ); s != "" {
		return s
	}
	if strings.HasPrefix(typ, "seq<") {
		return SSeq
	}
	T := ev.v.W.parseType(ev.pkg, typ)
	if ls := leafSorts(T); len(ls) == 1 {
		return ls[0]
	}
	return SVal
}

func (ev *Eval) coerceTyp(x SV, typ string) *Term {
	return ev.coerce(x, ev.sortOfTyp(typ))
}

func (ev *Eval) mkTyped(t *Term, typ string) SV {
	if strings.HasPrefix(typ, "seq<") {
		return rawSeq(t, ev.v.W.parseType(ev.pkg, strings.TrimSuffix(typ[4:], ">")))
	}
	if specSort(typ) != "" {
		return raw(t)
	}
	T := ev.v.W.parseType(ev.pkg, typ)
	if ls := leafSorts(T); len(ls) == 1 {
		return SV{Value: one(T, t)}
	}
	return SV{Value: Value{T: T, L: unbox(T, t)}}
}

func (ev *Eval) recCall(e *Expr, d *defn) SV {
	if len(e.args) != len(d.params) {
		ev.fail("%s takes %d arguments", e.name, len(d.params))
	}
	var as []*Term
	for i, a := range e.args {
		as = append(as, ev.coerceTyp(ev.typed(ev.expr(a), d.params[i].typ), d.params[i].typ))
	}
	for _, h := range d.reads {
		if h.name == "world" && ev.world != nil {
			as = append(as, ev.world)
			continue
		}
		as = append(as, ev.v.get(ev.st, h.name, h.sort))
	}
	name := "rec:" + e.name
	if recDefs[name] == nil {
		name = fmt.Sprintf("%s/%d", name, len(as))
	}
	return ev.mkTyped(fn(name, ev.sortOfTyp(d.res), as...), d.res)
}

// registerRecs makes the recursive definitions known to the solver interface.
func (v *Verif) registerRecs() {
	body := func(d *defn, st *State, params []*Term) *Term {
		vv := &Verif{W: v.W, S: v.S, closures: map[*Term]*Closure{}, used: map[string]bool{}, silent: 1}
		ev := vv.newEval(nil, st, nil)
		if p := v.W.pkgsNamed("fab"); len(p) > 0 {
			ev.pkg = p[0]
		}
		for i, p := range d.params {
			ev.env[p.name] = ev.mkTyped(params[i], p.typ)
		}
		return ev.coerceTyp(ev.expr(d.body), d.res)
	}
	// What the definitions read.
	vv := &Verif{W: v.W, S: v.S, closures: map[*Term]*Closure{}, used: map[string]bool{}, silent: 1}
	evs := vv.newEval(nil, newState(), nil)
	if p := v.W.pkgsNamed("fab"); len(p) > 0 {
		evs.pkg = p[0]
	}
	for changed := true; changed; {
		changed = false
		for _, name := range sortedKeys(v.S.recs) {
			d := v.S.recs[name]
			if recDefs["rec:"+name] != nil {
				continue
			}
			var ps []*Term
			for _, p := range d.params {
				ps = append(ps, Var("par!"+p.name, evs.sortOfTyp(p.typ)))
			}
			have := map[string]bool{}
			for _, h := range d.reads {
				have[h.name] = true
			}
			seen := map[*Term]bool{}
			var visit func(t *Term)
			visit = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if n, ok := strings.CutPrefix(t.Name, "h0:"); ok && t.Op == "sym" && !have[n] {
					have[n] = true
					d.reads = append(d.reads, heapName{n, t.S})
					changed = true
				}
				for _, a := range t.Args {
					visit(a)
				}
			}
			visit(body(d, newState(), ps))
		}
	}
	for name, d := range v.S.recs {
		name, d := name, d
		if recDefs["rec:"+name] != nil {
			continue
		}
		recDefs["rec:"+name] = &recDef{name: "rec:" + name, fuel: 2, unfold: func(args []*Term) *Term {
			st := newState()
			for i, h := range d.reads {
				st.heap[h.name] = args[len(d.params)+i]
			}
			return body(d, st, args)
		}}
	}
}

func newState() *State {
	return &State{heap: map[string]*Term{}, known: map[*Term]bool{}, eqs: map[*Term]*Term{}}
}

// pureCall is a call of an external function that is a function of its arguments (and of the world).
func (ev *Eval) pureCall(e *Expr, i int) SV {
	v := ev.v
	if e.op != "call" {
		ev.fail("call expected: %s", e)
	}
	d := v.S.externs[e.name]
	if d == nil {
		d = v.S.defaultExtern(e.name)
	}
	if d.kind != "pure" && d.kind != "read" {
		ev.fail("unknown function %s", e.name)
	}
	sig := v.W.extSig(e.name)
	if sig == nil {
		ev.fail("unknown function %s", e.name)
	}
	var as []*Term
	if d.kind == "read" {
		w := ev.world
		if w == nil {
			if x, ok := ev.env["world"]; ok {
				w = x.L[0]
			} else {
				w = v.get(ev.st, "world", SInt)
			}
		}
		as = append(as, w)
	}
	var pts []types.Type
	if sig.Recv() != nil {
		pts = append(pts, sig.Recv().Type())
	}
	for k := 0; k < sig.Params().Len(); k++ {
		pts = append(pts, sig.Params().At(k).Type())
	}
	variadic := sig.Variadic()
	for k, a := range e.args {
		x := ev.expr(a)
		if variadic && k >= len(pts)-1 {
			// Either the one sequence, or the elements.
			if k == len(pts)-1 && len(e.args) == len(pts) && ev.isSeq(x) {
				s, _ := ev.seqOf(x)
				as = append(as, s)
			} else {
				var ts []*Term
				for _, b := range e.args[k:] {
					ts = append(ts, ev.boxedElem(ev.expr(b)))
				}
				as = append(as, SeqOf(ts...))
			}
			break
		}
		if k < len(pts) {
			if _, ok := pts[k].Underlying().(*types.Slice); ok {
				if isByteSlice(pts[k]) {
					as = append(as, ev.str(x))
				} else {
					s, _ := ev.seqOf(x)
					as = append(as, s)
				}
				continue
			}
			if isIface(pts[k]) {
				as = append(as, ev.box2(x))
				continue
			}
		}
		as = append(as, x.L...)
	}
	if variadic && len(e.args) < len(pts) {
		as = append(as, TEmpty)
	}
	base := e.name
	n := sig.Results().Len()
	if n > 1 {
		base = fmt.Sprintf("%s.%d", e.name, i)
	}
	t := sig.Results().At(i).Type()
	if sl, ok := t.Underlying().(*types.Slice); ok {
		if isByteSlice(t) {
			return raw(fn(base, SStr, as...))
		}
		return rawSeq(fn(base, SSeq, as...), sl.Elem())
	}
	ss := leafSorts(t)
	x := Value{T: t}
	for k, s := range ss {
		b := base
		if len(ss) > 1 {
			b = fmt.Sprintf("%s#%d", base, k)
		}
		x.L = append(x.L, fn(b, s, as...))
	}
	return SV{Value: x}
}

func (ev *Eval) isSeq(x SV) bool {
	if x.T == nil {
		return x.L[0].S == SSeq
	}
	_, ok := x.T.Underlying().(*types.Slice)
	return ok
}

// extSig finds the signature of an external function, "pkg.F", "pkg.(*T).M" or "pkg.I.M".
func (w *World) extSig(name string) *types.Signature {
	if v, ok := w.sigCache.Load(name); ok {
		s, _ := v.(*types.Signature)
		return s
	}
	s := w.extSig1(name)
	if s != nil {
		w.sigCache.Store(name, s)
	}
	return s
}

func (w *World) extSig1(name string) *types.Signature {
	if name == "error.Error" {
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(), types.NewTuple(types.NewVar(0, nil, "", tString)), false)
	}
	i := strings.Index(name, ".")
	if i < 0 {
		return nil
	}
	rest := name[i+1:]
	for _, p := range w.pkgsNamed(name[:i]) {
		if !strings.Contains(rest, ".") {
			if o, ok := p.Scope().Lookup(rest).(*types.Func); ok {
				return o.Type().(*types.Signature)
			}
			continue
		}
		j := strings.LastIndex(rest, ".")
		tn, m := strings.Trim(rest[:j], "(*)"), rest[j+1:]
		o, ok := p.Scope().Lookup(tn).(*types.TypeName)
		if !ok {
			continue
		}
		if f, _, _ := types.LookupFieldOrMethod(types.NewPointer(o.Type()), true, p, m); f != nil {
			if ff, ok := f.(*types.Func); ok {
				return ff.Type().(*types.Signature)
			}
		}
		if f, _, _ := types.LookupFieldOrMethod(o.Type(), true, p, m); f != nil {
			if ff, ok := f.(*types.Func); ok {
				return ff.Type().(*types.Signature)
			}
		}
	}
	return nil
}

// ghost performs an update of ghost state.
func (ev *Eval) ghost(g *ghostUpd) {
	s, ok := ev.v.S.ghosts[g.name]
	if !ok {
		ev.fail("no ghost variable %s", g.name)
	}
	old := ev.v.get(ev.st, g.name, s)
	var nt *Term
	if g.idx != nil {
		k, vs := arrParts(s)
		nt = Store(old, ev.coerce(ev.expr(g.idx), k), ev.coerce(ev.expr(g.e), vs))
	} else {
		x := ev.expr(g.e)
		if strings.HasPrefix(string(s), "(Array") {
			nt = x.L[0]
		} else {
			nt = ev.coerce(x, s)
		}
	}
	if g.cond != nil {
		nt = Ite(ev.boolExpr(g.cond), nt, old)
	}
	ev.v.set(ev.st, g.name, nt)
}

// havocLoc forgets one location: "x.f", "*p", "seq(x)" or a ghost element "g[x]".
func (ev *Eval) havocLoc(s string) {
	e := parseExpr(s)
	v := ev.v
	switch e.op {
	case "sel":
		x := ev.expr(e.args[0])
		p, ok := x.T.Underlying().(*types.Pointer)
		if !ok {
			ev.fail("modifies @%s", s)
		}
		S := p.Elem()
		st := S.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == e.name {
				nv := v.freshValue(ev.st, st.Field(i).Type(), "hv")
				if isObjField(st.Field(i).Type()) {
					v.storeRef(nil, ev.st, Add(x.L[0], Int(fieldOffset(st, i))), st.Field(i).Type(), nv.L, 0)
				} else {
					v.storeField(nil, ev.st, S, i, x.L[0], nv.L, 0)
				}
				return
			}
		}
		ev.fail("modifies @%s", s)
	case "deref":
		x := ev.expr(e.args[0])
		p := x.T.Underlying().(*types.Pointer)
		nv := v.freshValue(ev.st, p.Elem(), "hv")
		if x.Addr != nil {
			v.storeAddr(nil, ev.st, x.Addr, nv, 0)
		} else {
			v.storeRef(nil, ev.st, x.L[0], p.Elem(), nv.L, 0)
		}
	case "call":
		if e.name == "seq" {
			x := ev.expr(e.args[0])
			if isByteSlice(x.T) {
				b := v.get(ev.st, heapB, SArr(SInt, SStr))
				nb := v.fresh(ev.st, "hvb", SStr)
				ev.st.assume(Eq(StrLen(nb), StrLen(Select(b, x.L[0]))))
				v.set(ev.st, heapB, Store(b, x.L[0], nb))
				return
			}
			h := v.get(ev.st, heapE, SArr(SInt, SSeq))
			old := Select(h, x.L[0])
			mid := v.fresh(ev.st, "hvs", SSeq)
			ev.st.assume(Eq(Len(mid), x.L[2]))
			v.set(ev.st, heapE, Store(h, x.L[0], Cat(Take(old, x.L[1]), mid, Drop(old, Add(x.L[1], x.L[2])))))
			return
		}
		if e.name == "map" {
			x := ev.expr(e.args[0])
			mt := x.T.Underlying().(*types.Map)
			h := v.get(ev.st, mapDom(x.T), domSort(mt))
			_, es := arrParts(h.S)
			v.set(ev.st, mapDom(x.T), Store(h, x.L[0], v.fresh(ev.st, "hvm", es)))
			for i, s := range leafSorts(mt.Elem()) {
				h := v.get(ev.st, mapVal(x.T, i), valSort(mt, s))
				_, es := arrParts(h.S)
				v.set(ev.st, mapVal(x.T, i), Store(h, x.L[0], v.fresh(ev.st, "hvm", es)))
			}
			return
		}
		ev.fail("modifies @%s", s)
	default:
		ev.fail("modifies @%s", s)
	}
}
