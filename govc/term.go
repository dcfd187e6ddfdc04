package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed and simplified on construction.

type Sort string

const (
	SBool Sort = "Bool"
	SInt  Sort = "Int"
	SStr  Sort = "Sx"
	SVal  Sort = "Val"
	SSeq  Sort = "Sq"
)

func SArr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

func arrParts(s Sort) (Sort, Sort) {
	str := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

type Term struct {
	Op   string // "int", "lit" (string literal), "true", "false", "sym" (applied symbol), "var" (bound), or an operator
	Name string // symbol or literal text
	N    int64
	Args []*Term
	S    Sort
	id   int
	seq  int // the highest creation number among the symbols within
	bv   bool
}

// Sym describes a declared symbol.
type Sym struct {
	Name string
	Args []Sort
	Res  Sort
	Seq  int
	// NonNeg marks loop counters.
	NonNeg bool
	// A heap of a loop that differs from that before the loop only at new objects.
	Before *Term
	KS     []*Term // the iterations of the enclosing loops
	Since  int
}

// unframe gives the heap before the loops that did not change it at i.
func unframe(a, i *Term) *Term {
	for a.Op == "sym" && len(a.Args) > 0 {
		s := syms[a.Name]
		if s.Before == nil || i.seq >= s.Since || i.bv || later(i) {
			break
		}
		for j, k := range s.KS {
			if a.Args[j] != k {
				return a
			}
		}
		a = s.Before
	}
	return a
}

var (
	tmu    sync.Mutex
	table  = map[string]*Term{}
	syms   = map[string]*Sym{}
	symSeq = 0
)

func mk(op, name string, n int64, s Sort, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(n, 10))
	b.WriteByte('|')
	b.WriteString(string(s))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	tmu.Lock()
	defer tmu.Unlock()
	if t, ok := table[key]; ok {
		return t
	}
	t := &Term{Op: op, Name: name, N: n, S: s, Args: args, id: len(table) + 1}
	if op == "sym" {
		if sy := syms[name]; sy != nil {
			t.seq = sy.Seq
		}
	}
	if op == "var" {
		t.bv = true
	}
	for _, a := range args {
		if a.seq > t.seq {
			t.seq = a.seq
		}
		if a.bv {
			t.bv = true
		}
	}
	table[key] = t
	return t
}

func declare(name string, res Sort, args ...Sort) *Sym {
	tmu.Lock()
	defer tmu.Unlock()
	if s, ok := syms[name]; ok {
		return s
	}
	s := &Sym{Name: name, Args: args, Res: res}
	syms[name] = s
	return s
}

// freshSym declares a symbol with a new name and creation number.
func freshSym(base string, res Sort, args ...Sort) *Sym {
	tmu.Lock()
	defer tmu.Unlock()
	symSeq++
	s := &Sym{Name: fmt.Sprintf("%s!%d", base, symSeq), Args: args, Res: res, Seq: symSeq}
	syms[s.Name] = s
	return s
}

func declareSeq(name string, res Sort, seq int, args ...Sort) *Sym {
	s := declare(name, res, args...)
	tmu.Lock()
	s.Seq = seq
	tmu.Unlock()
	return s
}

func setNonNeg(name string) {
	tmu.Lock()
	syms[name].NonNeg = true
	tmu.Unlock()
}

func nextSeq() int {
	tmu.Lock()
	defer tmu.Unlock()
	symSeq++
	return symSeq
}

// app applies a declared symbol.
func app(s *Sym, args ...*Term) *Term {
	if len(args) != len(s.Args) {
		panic(fmt.Sprintf("arity of %s: got %d want %d", s.Name, len(args), len(s.Args)))
	}
	for i, a := range args {
		if a.S != s.Args[i] {
			panic(fmt.Sprintf("sort of argument %d of %s: got %s want %s", i, s.Name, a.S, s.Args[i]))
		}
	}
	if t := foldSym(s, args); t != nil {
		return t
	}
	return mk("sym", s.Name, 0, s.Res, args...)
}

// fn applies a function symbol, declaring it from its arguments.
func fn(name string, res Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.S
	}
	s := declare(name, res, ss...)
	return app(s, args...)
}

func nonneg(t *Term) bool {
	if t.Op == "sym" {
		if s := syms[t.Name]; s != nil && s.NonNeg {
			return true
		}
		switch t.Name {
		case "seqlen", "strlen":
			return true
		}
	}
	return t.Op == "int" && t.N >= 0
}

var (
	TTrue  = mk("true", "", 0, SBool)
	TFalse = mk("false", "", 0, SBool)
)

func Int(n int64) *Term { return mk("int", "", n, SInt) }
func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func Lit(s string) *Term              { return mk("lit", s, 0, SStr) }
func Var(name string, s Sort) *Term   { return mk("var", name, 0, s) }
func isLit(t *Term) bool              { return t.Op == "lit" }
func isInt(t *Term) bool              { return t.Op == "int" }
func isSym(t *Term, name string) bool { return t.Op == "sym" && t.Name == name }

// ---- booleans

func Not(a *Term) *Term {
	switch {
	case a == TTrue:
		return TFalse
	case a == TFalse:
		return TTrue
	case a.Op == "not":
		return a.Args[0]
	case a.Op == "<=":
		return Lt(a.Args[1], a.Args[0])
	case a.Op == "<":
		return Le(a.Args[1], a.Args[0])
	}
	return mk("not", "", 0, SBool, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == TTrue || seen[a] {
			return true
		}
		if a == TFalse || seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TFalse
		}
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return mk("and", "", 0, SBool, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.Op == "or" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if a == TFalse || seen[a] {
			return true
		}
		if a == TTrue || seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return TTrue
		}
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return mk("or", "", 0, SBool, out...)
}

func Implies(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue || a == b {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	return mk("=>", "", 0, SBool, a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == TTrue:
		return a
	case c == TFalse:
		return b
	case a == b:
		return a
	}
	if a.S == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
		if a == TTrue {
			return Or(c, b)
		}
		if b == TFalse {
			return And(c, a)
		}
		if a == TFalse {
			return And(Not(c), b)
		}
		if b == TTrue {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	return mk("ite", "", 0, a.S, c, a, b)
}

// ---- linear integers

type lin struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) lin {
	l := lin{m: map[*Term]int64{}}
	linAdd(&l, t, 1)
	return l
}

func linAdd(l *lin, t *Term, k int64) {
	switch t.Op {
	case "int":
		l.c += k * t.N
	case "+":
		for _, a := range t.Args {
			linAdd(l, a, k)
		}
	case "*":
		if isInt(t.Args[0]) {
			linAdd(l, t.Args[1], k*t.Args[0].N)
			return
		}
		fallthrough
	default:
		l.m[t] += k
		if l.m[t] == 0 {
			delete(l.m, t)
		}
	}
}

func (l lin) term() *Term {
	ts := make([]*Term, 0, len(l.m))
	for t := range l.m {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		c := l.m[t]
		if c == 1 {
			out = append(out, t)
		} else {
			out = append(out, mk("*", "", 0, SInt, Int(c), t))
		}
	}
	if l.c != 0 || len(out) == 0 {
		out = append(out, Int(l.c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("+", "", 0, SInt, out...)
}

func Add(as ...*Term) *Term {
	l := lin{m: map[*Term]int64{}}
	for _, a := range as {
		linAdd(&l, a, 1)
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	l := lin{m: map[*Term]int64{}}
	linAdd(&l, a, 1)
	linAdd(&l, b, -1)
	return l.term()
}

func Mul(a, b *Term) *Term {
	if isInt(b) {
		a, b = b, a
	}
	if isInt(a) {
		l := lin{m: map[*Term]int64{}}
		linAdd(&l, b, a.N)
		return l.term()
	}
	return mk("mulx", "", 0, SInt, a, b)
}

func diff(a, b *Term) (int64, bool) {
	l := lin{m: map[*Term]int64{}}
	linAdd(&l, a, 1)
	linAdd(&l, b, -1)
	return l.c, len(l.m) == 0
}

// sign of a-b when it can be told: all remaining terms nonnegative with the same sign.
func Le(a, b *Term) *Term {
	l := lin{m: map[*Term]int64{}}
	linAdd(&l, a, 1)
	linAdd(&l, b, -1)
	if len(l.m) == 0 {
		return Bool(l.c <= 0)
	}
	pos, neg := true, true // l >= c, l <= c
	for t, c := range l.m {
		if !nonneg(t) {
			pos, neg = false, false
			break
		}
		if c > 0 {
			neg = false
		} else {
			pos = false
		}
	}
	if pos && l.c > 0 {
		return TFalse
	}
	if neg && l.c <= 0 {
		return TTrue
	}
	return mk("<=", "", 0, SBool, a, b)
}

func Lt(a, b *Term) *Term {
	l := lin{m: map[*Term]int64{}}
	linAdd(&l, a, 1)
	linAdd(&l, b, -1)
	if len(l.m) == 0 {
		return Bool(l.c < 0)
	}
	pos, neg := true, true
	for t, c := range l.m {
		if !nonneg(t) {
			pos, neg = false, false
			break
		}
		if c > 0 {
			neg = false
		} else {
			pos = false
		}
	}
	if pos && l.c >= 0 {
		return TFalse
	}
	if neg && l.c < 0 {
		return TTrue
	}
	return mk("<", "", 0, SBool, a, b)
}

// ---- equality

// distinct tells whether a and b are known to differ.
func distinct(a, b *Term) bool {
	if a == b {
		return false
	}
	switch a.S {
	case SInt:
		if d, ok := diff(a, b); ok {
			return d != 0
		}
		return refDistinct(a, b) || refDistinct(b, a)
	case SStr:
		return isLit(a) && isLit(b)
	case SBool:
		return a == TTrue && b == TFalse || a == TFalse && b == TTrue
	case SVal:
		ca, cb := ctorOf(a), ctorOf(b)
		if ca == "" || cb == "" {
			if isSym(a, "errwrap") && cb == "VNil" || isSym(b, "errwrap") && ca == "VNil" {
				return true
			}
			if isSym(a, "errnew") && cb == "VNil" || isSym(b, "errnew") && ca == "VNil" {
				return true
			}
			return false
		}
		if ca != cb {
			return true
		}
		for i := range a.Args {
			if distinct(a.Args[i], b.Args[i]) {
				return true
			}
		}
		return false
	}
	return false
}

// refDistinct: a is an address allocated from an allocation mark newer than anything in b.
func refDistinct(a, b *Term) bool {
	l := linOf(a)
	if len(l.m) != 1 {
		return false
	}
	for t, c := range l.m {
		if c == 1 && t.Op == "sym" && strings.HasPrefix(t.Name, "top!") {
			for _, k := range t.Args {
				if k.Op != "sym" || !strings.HasPrefix(k.Name, "K!") {
					return false
				}
			}
			return l.c >= 0 && b.seq < syms[t.Name].Seq && !b.bv && !later(b)
		}
	}
	return false
}

var laterCache sync.Map

// later tells whether t may speak of a later iteration of a loop than the current one.
func later(t *Term) bool {
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := laterCache.Load(t); ok {
		return v.(bool)
	}
	r := false
	indexed := t.Op == "sym" && strings.Contains(t.Name, "!")
	for _, a := range t.Args {
		if later(a) || indexed && a.S == SInt && !notLater(a) {
			r = true
			break
		}
	}
	laterCache.Store(t, r)
	return r
}

// notLater: the index is the current iteration, an earlier one, or the first.
func notLater(a *Term) bool {
	l := linOf(a)
	if l.c > 0 || len(l.m) > 1 {
		return false
	}
	for x, c := range l.m {
		if c != 1 || x.Op != "sym" || !strings.HasPrefix(x.Name, "K!") {
			return false
		}
	}
	return true
}

func Eq(a, b *Term) *Term {
	if a.S != b.S {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.S, b.S, a, b))
	}
	if a == b {
		return TTrue
	}
	if distinct(a, b) {
		return TFalse
	}
	switch a.S {
	case SBool:
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	case SVal:
		if ca := ctorOf(a); ca != "" && ca == ctorOf(b) {
			var cs []*Term
			for i := range a.Args {
				cs = append(cs, Eq(a.Args[i], b.Args[i]))
			}
			return And(cs...)
		}
		// wrap(e) == nil never holds
	case SSeq:
		// Strip equal ends.
		pa, pb := seqParts(a), seqParts(b)
		if len(pa) > 0 && len(pb) > 0 && (len(pa) > 1 || len(pb) > 1) {
			i := 0
			for i < len(pa) && i < len(pb) && pa[i] == pb[i] {
				i++
			}
			if i > 0 {
				return Eq(Cat(pa[i:]...), Cat(pb[i:]...))
			}
		}
		if len(pa) > 0 && len(pb) > 0 && isSym(pa[0], "sequnit") && isSym(pb[0], "sequnit") {
			return And(Eq(pa[0].Args[0], pb[0].Args[0]), Eq(Cat(pa[1:]...), Cat(pb[1:]...)))
		}
		if len(pa) == 0 && len(pb) > 0 || len(pb) == 0 && len(pa) > 0 {
			for _, p := range append(pa, pb...) {
				if isSym(p, "sequnit") {
					return TFalse
				}
			}
		}
	}
	if a.Op == "ite" && (isConstTerm(b)) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (isConstTerm(a)) {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", 0, SBool, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func isConstTerm(t *Term) bool {
	return t.Op == "int" || t.Op == "lit" || t == TTrue || t == TFalse || ctorOf(t) == "VNil"
}

// ---- Val constructors

var ctors = map[string]int{"VNil": 0, "VPtr": 2, "VStr": 2, "VInt": 2, "VBool": 2, "VSeq": 2, "VEv": 2}

func ctorOf(t *Term) string {
	if t.Op == "ctor" {
		return t.Name
	}
	return ""
}

var TNil = mk("ctor", "VNil", 0, SVal)

// A value taken out of an interface or sequence element of a known type and put back is the same value.
func vctor(name, sel string, tag, x *Term) *Term {
	if x.Op == "sel" && x.Name == sel && isInt(tag) && x.N == tag.N+1 {
		return x.Args[0]
	}
	return mk("ctor", name, 0, SVal, tag, x)
}

func VPtr(tag, ref *Term) *Term         { return vctor("VPtr", "pref", tag, ref) }
func VStr(tag, s *Term) *Term           { return vctor("VStr", "sval", tag, s) }
func VInt(tag, n *Term) *Term           { return vctor("VInt", "ival", tag, n) }
func VBool(tag, b *Term) *Term          { return vctor("VBool", "bval", tag, b) }
func VSeq(tag, s *Term) *Term           { return vctor("VSeq", "qval", tag, s) }
func VEv(kind string, args *Term) *Term { return mk("ctor", "VEv", 0, SVal, kindTerm(kind), args) }

var (
	kindMu sync.Mutex
	kinds  = map[string]int64{}
)

func kindTerm(k string) *Term {
	kindMu.Lock()
	defer kindMu.Unlock()
	n, ok := kinds[k]
	if !ok {
		n = int64(len(kinds) + 1)
		kinds[k] = n
	}
	return Int(n)
}

func kindName(n int64) string {
	kindMu.Lock()
	defer kindMu.Unlock()
	for k, v := range kinds {
		if v == n {
			return k
		}
	}
	return fmt.Sprint(n)
}

var selInfo = map[string]struct {
	ctor string
	idx  int
	s    Sort
}{
	"ptag": {"VPtr", 0, SInt}, "pref": {"VPtr", 1, SInt},
	"stag": {"VStr", 0, SInt}, "sval": {"VStr", 1, SStr},
	"itag": {"VInt", 0, SInt}, "ival": {"VInt", 1, SInt},
	"btag": {"VBool", 0, SInt}, "bval": {"VBool", 1, SBool},
	"qtag": {"VSeq", 0, SInt}, "qval": {"VSeq", 1, SSeq},
	"ekind": {"VEv", 0, SInt}, "eargs": {"VEv", 1, SSeq},
}

// Sel is a selector of a Val constructor.
func Sel(name string, v *Term) *Term { return SelT(name, v, 0) }

// SelT is a selector of a value that has the type with the number tag-1.
func SelT(name string, v *Term, tag int64) *Term {
	si := selInfo[name]
	if v.S != SVal {
		panic("Sel " + name + " of " + string(v.S) + " " + v.String())
	}
	if c := ctorOf(v); c == si.ctor {
		return v.Args[si.idx]
	}
	if v.Op == "ite" {
		return Ite(v.Args[0], SelT(name, v.Args[1], tag), SelT(name, v.Args[2], tag))
	}
	return mk("sel", name, tag, si.s, v)
}

func IsCtor(name string, v *Term) *Term {
	if c := ctorOf(v); c != "" {
		return Bool(c == name)
	}
	if name != "VNil" && (isSym(v, "errwrap") || isSym(v, "errnew")) {
		return Bool(false || name == "VPtr")
	}
	return mk("is", name, 0, SBool, v)
}

// TagOf is the dynamic type of an interface value.
func TagOf(v *Term) *Term {
	switch ctorOf(v) {
	case "VNil":
		return Int(0)
	case "VPtr", "VStr", "VInt", "VBool", "VSeq":
		return v.Args[0]
	}
	return mk("tagof", "", 0, SInt, v)
}

// ---- arrays

func Select(a, i *Term) *Term {
	_, vs := arrParts(a.S)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if distinct(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
		}
		if b := unframe(a, i); b != a {
			a = b
			continue
		}
		if a.Op == "const" {
			return a.Args[0]
		}
		if a.Op == "ite" {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		break
	}
	return mk("select", "", 0, vs, a, i)
}

func Store(a, i, v *Term) *Term {
	_, vs := arrParts(a.S)
	if v.S != vs {
		panic(fmt.Sprintf("store of %s into %s: %s", v.S, a.S, v))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if a.Op == "select" || a.Op == "sym" {
		if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
			return a
		}
	}
	return mk("store", "", 0, a.S, a, i, v)
}

func ConstArr(k Sort, v *Term) *Term { return mk("const", "", 0, SArr(k, v.S), v) }

// ---- sequences

var (
	symSeqEmpty = declare("seqempty", SSeq)
	symSeqUnit  = declare("sequnit", SSeq, SVal)
	symSeqCat   = declare("seqcat", SSeq, SSeq, SSeq)
	symSeqLen   = declare("seqlen", SInt, SSeq)
	symSeqNth   = declare("seqnth", SVal, SSeq, SInt)
	symSeqUpd   = declare("sequpd", SSeq, SSeq, SInt, SVal)
	symSeqTake  = declare("seqtake", SSeq, SSeq, SInt)
	symSeqDrop  = declare("seqdrop", SSeq, SSeq, SInt)
	symSeqSub   = declare("seqsub", SSeq, SSeq, SInt, SInt)
	symSeqRep   = declare("seqrep", SSeq, SVal, SInt)
	symSeqMem   = declare("seqmem", SBool, SSeq, SVal)
)

var TEmpty = mk("sym", "seqempty", 0, SSeq)

func Unit(v *Term) *Term { return mk("sym", "sequnit", 0, SSeq, v) }

func seqParts(s *Term) []*Term {
	switch {
	case s == TEmpty:
		return nil
	case isSym(s, "seqcat"):
		return append(seqParts(s.Args[0]), seqParts(s.Args[1])...)
	}
	return []*Term{s}
}

func Cat(ss ...*Term) *Term {
	var parts []*Term
	for _, s := range ss {
		parts = append(parts, seqParts(s)...)
	}
	// take(s,n) ++ drop(s,n) = s
	for i := 0; i+1 < len(parts); i++ {
		if isSym(parts[i], "seqtake") && isSym(parts[i+1], "seqdrop") && parts[i].Args[0] == parts[i+1].Args[0] && parts[i].Args[1] == parts[i+1].Args[1] {
			rest := append([]*Term(nil), parts[:i]...)
			rest = append(rest, parts[i].Args[0])
			rest = append(rest, parts[i+2:]...)
			return Cat(rest...)
		}
	}
	if len(parts) == 0 {
		return TEmpty
	}
	t := parts[0]
	for _, p := range parts[1:] {
		t = mk("sym", "seqcat", 0, SSeq, t, p)
	}
	return t
}

func SeqOf(vs ...*Term) *Term {
	us := make([]*Term, len(vs))
	for i, v := range vs {
		us[i] = Unit(v)
	}
	return Cat(us...)
}

func Len(s *Term) *Term {
	switch {
	case isTuple(s):
		return Int(int64(len(s.Args)))
	case s == TEmpty:
		return Int(0)
	case isSym(s, "sequnit"):
		return Int(1)
	case isSym(s, "seqcat"):
		return Add(Len(s.Args[0]), Len(s.Args[1]))
	case isSym(s, "sequpd"):
		return Len(s.Args[0])
	case isSym(s, "sortseq"):
		return Len(s.Args[0])
	case isSym(s, "seqrep"):
		if nonneg(s.Args[1]) {
			return s.Args[1]
		}
	case isSym(s, "seqtake"):
		if isInt(s.Args[1]) {
			if n := Len(s.Args[0]); isInt(n) && s.Args[1].N >= 0 {
				if n.N < s.Args[1].N {
					return n
				}
				return s.Args[1]
			}
		}
		if s.Args[1] == Len(s.Args[0]) {
			return s.Args[1]
		}
	case isSym(s, "seqdrop"):
		if isInt(s.Args[1]) {
			if n := Len(s.Args[0]); isInt(n) && s.Args[1].N >= 0 && s.Args[1].N <= n.N {
				return Int(n.N - s.Args[1].N)
			}
		}
	case isSym(s, "seqsub"):
		return s.Args[2]
	case s.Op == "ite":
		return Ite(s.Args[0], Len(s.Args[1]), Len(s.Args[2]))
	}
	return mk("sym", "seqlen", 0, SInt, s)
}

func Nth(s, i *Term) *Term {
	switch {
	case isTuple(s) && isInt(i) && 0 <= i.N && i.N < int64(len(s.Args)):
		return s.Args[i.N]
	case isSym(s, "seqcat"):
		// Walk from the front while lengths are comparable.
		parts := seqParts(s)
		off := Int(0)
		for k, p := range parts {
			d, ok := diff(i, off)
			if isSym(p, "sequnit") {
				if ok && d == 0 {
					return p.Args[0]
				}
				if !ok {
					// Symbolic position: stop unless clearly beyond.
					if Lt(off, i) != TTrue {
						break
					}
				}
				off = Add(off, Int(1))
				continue
			}
			end := Add(off, Len(p))
			if Lt(i, end) == TTrue && Le(off, i) == TTrue {
				return Nth(p, Sub(i, off))
			}
			if Le(end, i) == TTrue {
				off = end
				continue
			}
			_ = k
			break
		}
	case isSym(s, "sequnit"):
		if isInt(i) && i.N == 0 {
			return s.Args[0]
		}
	case isSym(s, "sequpd"):
		if s.Args[1] == i {
			return s.Args[2]
		}
		if distinct(s.Args[1], i) {
			return Nth(s.Args[0], i)
		}
	case isSym(s, "seqrep"):
		// Out-of-range positions are unspecified anyway.
		return s.Args[0]
	case isSym(s, "seqdrop"):
		if nonneg(i) || isInt(i) && i.N >= 0 {
			if isInt(s.Args[1]) && s.Args[1].N >= 0 {
				return Nth(s.Args[0], Add(i, s.Args[1]))
			}
		}
	case isSym(s, "seqsub"):
		return Nth(s.Args[0], Add(i, s.Args[1]))
	case s.Op == "ite":
		return Ite(s.Args[0], Nth(s.Args[1], i), Nth(s.Args[2], i))
	}
	return mk("sym", "seqnth", 0, SVal, s, i)
}

func Upd(s, i, v *Term) *Term {
	if isInt(i) {
		parts := seqParts(s)
		all := true
		for k, p := range parts {
			if !isSym(p, "sequnit") {
				all = false
				break
			}
			if int64(k) == i.N {
				np := append([]*Term(nil), parts...)
				np[k] = Unit(v)
				return Cat(np...)
			}
		}
		_ = all
	}
	if isSym(s, "sequpd") && s.Args[1] == i {
		return Upd(s.Args[0], i, v)
	}
	return mk("sym", "sequpd", 0, SSeq, s, i, v)
}

func Take(s, n *Term) *Term {
	if isInt(n) && n.N <= 0 {
		return TEmpty
	}
	if n == Len(s) {
		return s
	}
	if d, ok := diff(n, Len(s)); ok && d >= 0 {
		return s
	}
	if isInt(n) {
		parts := seqParts(s)
		k := 0
		for k < len(parts) && int64(k) < n.N && isSym(parts[k], "sequnit") {
			k++
		}
		if int64(k) == n.N {
			return Cat(parts[:k]...)
		}
	}
	// A prefix that ends at a part boundary.
	if isSym(s, "seqcat") {
		parts := seqParts(s)
		off := Int(0)
		for k, p := range parts {
			if off == n {
				return Cat(parts[:k]...)
			}
			off = Add(off, Len(p))
		}
	}
	return mk("sym", "seqtake", 0, SSeq, s, n)
}

func Drop(s, n *Term) *Term {
	if isInt(n) && n.N <= 0 {
		return s
	}
	if n == Len(s) {
		return TEmpty
	}
	if isSym(s, "seqsub") {
		return SeqSub(s.Args[0], Add(s.Args[1], n), Sub(s.Args[2], n))
	}
	if isInt(n) {
		parts := seqParts(s)
		k := 0
		for k < len(parts) && int64(k) < n.N && isSym(parts[k], "sequnit") {
			k++
		}
		if int64(k) == n.N {
			return Cat(parts[k:]...)
		}
		if isSym(s, "seqdrop") && isInt(s.Args[1]) && s.Args[1].N >= 0 {
			return Drop(s.Args[0], Int(s.Args[1].N+n.N))
		}
	}
	if isSym(s, "seqcat") {
		parts := seqParts(s)
		off := Int(0)
		for k, p := range parts {
			if off == n {
				return Cat(parts[k:]...)
			}
			off = Add(off, Len(p))
		}
	}
	return mk("sym", "seqdrop", 0, SSeq, s, n)
}

// SeqSub is the part of s of the given length that begins at off; it is only used within bounds.
func SeqSub(s, off, n *Term) *Term {
	if isInt(off) && off.N == 0 && n == Len(s) {
		return s
	}
	if isInt(n) && n.N <= 0 {
		return TEmpty
	}
	if isInt(off) && isInt(n) {
		return Take(Drop(s, off), n)
	}
	if isInt(off) && off.N == 0 && isSym(s, "seqcat") {
		parts := seqParts(s)
		l := Int(0)
		for k, p := range parts {
			l = Add(l, Len(p))
			if l == n {
				return Cat(parts[:k+1]...)
			}
		}
	}
	if isSym(s, "seqsub") {
		return SeqSub(s.Args[0], Add(s.Args[1], off), n)
	}
	return mk("sym", "seqsub", 0, SSeq, s, off, n)
}

func Rep(v, n *Term) *Term {
	if isInt(n) && n.N >= 0 && n.N <= 8 {
		var us []*Term
		for i := int64(0); i < n.N; i++ {
			us = append(us, Unit(v))
		}
		return Cat(us...)
	}
	return mk("sym", "seqrep", 0, SSeq, v, n)
}

func Mem(s, v *Term) *Term {
	switch {
	case s == TEmpty:
		return TFalse
	case isSym(s, "sequnit"):
		return Eq(s.Args[0], v)
	case isSym(s, "seqcat"):
		return Or(Mem(s.Args[0], v), Mem(s.Args[1], v))
	case isSym(s, "sortseq"):
		return Mem(s.Args[0], v)
	case isSym(s, "enumseq"), isSym(s, "sortedkeys"):
		return Select(s.Args[0], unboxKey(v, s.Args[0].S))
	}
	return mk("sym", "seqmem", 0, SBool, s, v)
}

// unboxKey turns a Val into the key sort of a set.
func unboxKey(v *Term, as Sort) *Term {
	k, _ := arrParts(as)
	switch k {
	case SStr:
		return Sel("sval", v)
	case SInt:
		return Sel("ival", v)
	}
	return v
}

// ---- quantifiers

func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	if !mentionsAny(body, vars) {
		return body
	}
	if len(vars) == 1 && vars[0].S == SInt {
		if lo, hi, ok := litRange(vars[0], body); ok && hi-lo <= 4 {
			var cs []*Term
			for i := lo; i < hi; i++ {
				cs = append(cs, subst(body, map[*Term]*Term{vars[0]: Int(i)}))
			}
			return And(cs...)
		}
	}
	args := append([]*Term(nil), vars...)
	args = append(args, body)
	var ps []string
	for _, p := range pats {
		var ids []string
		for _, t := range p {
			args = append(args, t)
			ids = append(ids, strconv.Itoa(len(args)-1))
		}
		ps = append(ps, strings.Join(ids, " "))
	}
	t := mk("forall", strings.Join(ps, ";"), int64(len(vars)), SBool, args...)
	return t
}

// litRange gives the range lo <= x < hi outside of which the body holds anyway, if it is known.
func litRange(x, body *Term) (lo, hi int64, ok bool) {
	var conds []*Term
	switch {
	case body.Op == "=>":
		conds = conjuncts(body.Args[0])
	case body.Op == "not":
		conds = conjuncts(body.Args[0])
	default:
		return
	}
	var hasLo, hasHi bool
	for _, c := range conds {
		if c.Op != "<" && c.Op != "<=" {
			continue
		}
		l := linOf(Sub(c.Args[0], c.Args[1]))
		if len(l.m) != 1 || l.m[x] == 0 {
			continue
		}
		switch {
		case l.m[x] == 1: // x + c < 0 or x + c <= 0
			h := -l.c
			if c.Op == "<=" {
				h++
			}
			if !hasHi || h < hi {
				hi, hasHi = h, true
			}
		case l.m[x] == -1: // c < x or c <= x
			b := l.c
			if c.Op == "<" {
				b++
			}
			if !hasLo || b > lo {
				lo, hasLo = b, true
			}
		}
	}
	if !hasLo || !hasHi {
		return
	}
	if hi < lo {
		hi = lo
	}
	return lo, hi, true
}

func conjuncts(t *Term) []*Term {
	if t.Op != "and" {
		return []*Term{t}
	}
	var out []*Term
	for _, a := range t.Args {
		out = append(out, conjuncts(a)...)
	}
	return out
}

func Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Not(Forall(vars, Not(body), pats...))
}

var mentionCache sync.Map

func mentionsAny(t *Term, vars []*Term) bool {
	if !t.bv {
		return false
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if !t.bv || seen[t] {
			return false
		}
		seen[t] = true
		for _, v := range vars {
			if t == v {
				return true
			}
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// subst replaces terms.
func subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	return substC(t, m, cache)
}

func substC(t *Term, m, cache map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := cache[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substC(a, m, cache)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	cache[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "ctor":
		switch t.Name {
		case "VPtr":
			return VPtr(args[0], args[1])
		case "VStr":
			return VStr(args[0], args[1])
		case "VInt":
			return VInt(args[0], args[1])
		case "VBool":
			return VBool(args[0], args[1])
		case "VSeq":
			return VSeq(args[0], args[1])
		}
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "sel":
		return SelT(t.Name, args[0], t.N)
	case "is":
		return IsCtor(t.Name, args[0])
	case "tagof":
		return TagOf(args[0])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "sym":
		switch t.Name {
		case "seqcat":
			return Cat(args...)
		case "seqlen":
			return Len(args[0])
		case "seqnth":
			return Nth(args[0], args[1])
		case "sequpd":
			return Upd(args[0], args[1], args[2])
		case "seqtake":
			return Take(args[0], args[1])
		case "seqdrop":
			return Drop(args[0], args[1])
		case "seqsub":
			return SeqSub(args[0], args[1], args[2])
		case "seqrep":
			return Rep(args[0], args[1])
		case "seqmem":
			return Mem(args[0], args[1])
		}
		if s := syms[t.Name]; s != nil {
			return app(s, args...)
		}
	}
	return mk(t.Op, t.Name, t.N, t.S, args...)
}

// ---- printing

func (t *Term) String() string {
	return pretty(t, 6)
}

func pretty(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.N, 10)
	case "lit":
		return strconv.Quote(t.Name)
	case "true", "false":
		return t.Op
	case "var":
		return t.Name
	}
	name := t.Op
	switch t.Op {
	case "sym", "ctor", "sel":
		name = t.Name
	case "is":
		name = "is-" + t.Name
	case "forall":
		var b strings.Builder
		b.WriteString("(forall (")
		for i := int64(0); i < t.N; i++ {
			b.WriteString(t.Args[i].Name + " ")
		}
		b.WriteString(") " + pretty(t.Args[t.N], d-1) + ")")
		return b.String()
	}
	if t.Op == "ctor" && t.Name == "VEv" && isInt(t.Args[0]) {
		return "Ev:" + kindName(t.Args[0].N) + "(" + pretty(t.Args[1], d-1) + ")"
	}
	if len(t.Args) == 0 {
		return name
	}
	var parts []string
	for _, a := range t.Args {
		parts = append(parts, pretty(a, d-1))
	}
	return "(" + name + " " + strings.Join(parts, " ") + ")"
}

// Tuple is a sequence of a fixed length: the same as SeqOf, but with fewer terms for the solvers to consider.
// Which of the two is used depends on the length alone.
func Tuple(xs []*Term) *Term {
	if len(xs) < 6 || len(xs) > 40 {
		return SeqOf(xs...)
	}
	return fn(fmt.Sprintf("seqtup%d", len(xs)), SSeq, xs...)
}

func isTuple(s *Term) bool { return s.Op == "sym" && strings.HasPrefix(s.Name, "seqtup") }
