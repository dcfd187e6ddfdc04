package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// ---- printing terms as SMT-LIB

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
`

const sortDecls = `(declare-sort Sx 0)
(declare-sort Sq 0)
(declare-datatypes ((Val 0)) (((VNil) (VPtr (ptag Int) (pref Int)) (VStr (stag Int) (sval Sx)) (VInt (itag Int) (ival Int)) (VBool (btag Int) (bval Bool)) (VSeq (qtag Int) (qval Sq)) (VEv (ekind Int) (eargs Sq)) (VOpq (otag Int) (oid Int)))))
(define-fun tagof ((v Val)) Int (ite ((_ is VNil) v) 0 (ite ((_ is VPtr) v) (ptag v) (ite ((_ is VStr) v) (stag v) (ite ((_ is VInt) v) (itag v) (ite ((_ is VBool) v) (btag v) (ite ((_ is VSeq) v) (qtag v) (ite ((_ is VOpq) v) (otag v) (- 1)))))))))
`

// Axioms included when the symbol they are about occurs.
var axioms = []struct {
	needs []string
	text  string
}{
	{[]string{"seqlen"}, `(assert (forall ((s Sq)) (! (>= (seqlen s) 0) :pattern ((seqlen s)))))
(assert (forall ((s Sq)) (! (=> (= (seqlen s) 0) (= s seqempty)) :pattern ((seqlen s)))))
(assert (= (seqlen seqempty) 0))`},
	{[]string{"sequnit"}, `(assert (forall ((v Val)) (! (and (= (seqlen (sequnit v)) 1) (= (seqnth (sequnit v) 0) v)) :pattern ((sequnit v)))))`},
	{[]string{"seqcat"}, `(assert (forall ((a Sq) (b Sq)) (! (= (seqlen (seqcat a b)) (+ (seqlen a) (seqlen b))) :pattern ((seqcat a b)))))
(assert (forall ((a Sq) (b Sq) (i Int)) (! (= (seqnth (seqcat a b) i) (ite (< i (seqlen a)) (seqnth a i) (seqnth b (- i (seqlen a))))) :pattern ((seqnth (seqcat a b) i)))))`},
	{[]string{"sequpd"}, `(assert (forall ((a Sq) (k Int) (v Val)) (! (= (seqlen (sequpd a k v)) (seqlen a)) :pattern ((sequpd a k v)))))
(assert (forall ((a Sq) (k Int) (v Val) (i Int)) (! (= (seqnth (sequpd a k v) i) (ite (and (= i k) (<= 0 k) (< k (seqlen a))) v (seqnth a i))) :pattern ((seqnth (sequpd a k v) i)))))`},
	{[]string{"seqtake"}, `(assert (forall ((s Sq) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen s))) (= (seqlen (seqtake s n)) n)) :pattern ((seqtake s n)))))
(assert (forall ((s Sq) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (seqnth (seqtake s n) i) (seqnth s i))) :pattern ((seqnth (seqtake s n) i)))))
(assert (forall ((s Sq)) (! (= (seqtake s 0) seqempty) :pattern ((seqtake s 0)))))
(assert (forall ((s Sq) (n Int)) (! (=> (= n (seqlen s)) (= (seqtake s n) s)) :pattern ((seqtake s n)))))`},
	{[]string{"seqdrop"}, `(assert (forall ((s Sq) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen s))) (= (seqlen (seqdrop s n)) (- (seqlen s) n))) :pattern ((seqdrop s n)))))
(assert (forall ((s Sq) (n Int) (i Int)) (! (=> (and (<= 0 i) (<= 0 n)) (= (seqnth (seqdrop s n) i) (seqnth s (+ i n)))) :pattern ((seqnth (seqdrop s n) i)))))`},
	{[]string{"seqsub"}, `(assert (forall ((s Sq) (o Int) (n Int)) (! (=> (<= 0 n) (= (seqlen (seqsub s o n)) n)) :pattern ((seqsub s o n)))))
(assert (forall ((s Sq) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (seqnth (seqsub s o n) i) (seqnth s (+ i o)))) :pattern ((seqnth (seqsub s o n) i)))))`},
	{[]string{"seqrep"}, `(assert (forall ((v Val) (n Int)) (! (=> (<= 0 n) (= (seqlen (seqrep v n)) n)) :pattern ((seqrep v n)))))
(assert (forall ((v Val) (n Int) (i Int)) (! (=> (and (<= 0 i) (< i n)) (= (seqnth (seqrep v n) i) v)) :pattern ((seqnth (seqrep v n) i)))))`},
	{[]string{"seqmem"}, `(assert (forall ((s Sq) (v Val)) (! (=> (seqmem s v) (and (<= 0 (seqidx s v)) (< (seqidx s v) (seqlen s)) (= (seqnth s (seqidx s v)) v))) :pattern ((seqmem s v)))))
(assert (forall ((s Sq) (v Val) (i Int)) (! (=> (and (<= 0 i) (< i (seqlen s)) (= (seqnth s i) v)) (seqmem s v)) :pattern ((seqmem s v) (seqnth s i)))))`},
	{[]string{"seqmem", "seqsub"}, `(assert (forall ((s Sq) (o Int) (n Int) (v Val) (i Int)) (! (=> (and (<= 0 (- i o)) (< (- i o) n) (= n (seqlen (seqsub s o n))) (= (seqnth s i) v)) (seqmem (seqsub s o n) v)) :pattern ((seqmem (seqsub s o n) v) (seqnth s i)))))`},
	{[]string{"seqmem", "seqcat"}, `(assert (forall ((a Sq) (b Sq) (v Val)) (! (= (seqmem (seqcat a b) v) (or (seqmem a v) (seqmem b v))) :pattern ((seqmem (seqcat a b) v)))))`},
	{[]string{"seqmem", "sequnit"}, `(assert (forall ((a Val) (v Val)) (! (= (seqmem (sequnit a) v) (= a v)) :pattern ((seqmem (sequnit a) v)))))`},
	{[]string{"seqmem", "seqcat", "sortseq"}, `(assert (forall ((a Sq) (b Sq) (v Val)) (! (=> (seqmem a v) (seqmem (seqcat a b) v)) :pattern ((seqmem a v) (sortseq (seqcat a b))))))
(assert (forall ((a Sq) (b Sq) (v Val)) (! (=> (seqmem b v) (seqmem (seqcat a b) v)) :pattern ((seqmem b v) (sortseq (seqcat a b))))))`},
	{[]string{"seqmem", "sortseq"}, `(assert (forall ((s Sq) (v Val)) (! (=> (seqmem s v) (and (<= 0 (sortinv s (seqidx s v))) (< (sortinv s (seqidx s v)) (seqlen s)) (= (seqnth (sortseq s) (sortinv s (seqidx s v))) v))) :pattern ((seqmem s v) (sortseq s)))))`},
	{[]string{"seqdrop", "seqmem", "seqcat"}, `(assert (forall ((a Sq) (b Sq) (n Int)) (! (=> (and (<= 0 n) (<= n (seqlen a))) (= (seqdrop (seqcat a b) n) (seqcat (seqdrop a n) b))) :pattern ((seqdrop (seqcat a b) n)))))`},
	{[]string{"sortseq", "seqmem"}, `(assert (forall ((s Sq) (v Val)) (! (= (seqmem (sortseq s) v) (seqmem s v)) :pattern ((seqmem (sortseq s) v)))))`},
	{[]string{"sortseq"}, `(assert (forall ((s Sq)) (! (= (seqlen (sortseq s)) (seqlen s)) :pattern ((sortseq s)))))
(assert (forall ((s Sq)) (! (= (sortseq (sortseq s)) (sortseq s)) :pattern ((sortseq (sortseq s))))))
(assert (forall ((s Sq) (i Int)) (! (=> (and (<= 0 i) (< i (seqlen s))) (and (<= 0 (sortperm s i)) (< (sortperm s i) (seqlen s)) (= (seqnth (sortseq s) i) (seqnth s (sortperm s i))) (= (sortinv s (sortperm s i)) i))) :pattern ((seqnth (sortseq s) i)))))
(assert (forall ((s Sq) (i Int)) (! (=> (and (<= 0 i) (< i (seqlen s))) (and (<= 0 (sortinv s i)) (< (sortinv s i) (seqlen s)) (= (seqnth (sortseq s) (sortinv s i)) (seqnth s i)) (= (sortperm s (sortinv s i)) i))) :pattern ((sortseq s) (seqnth s i)))))`},
	{[]string{"strlen"}, `(assert (forall ((s Sx)) (! (>= (strlen s) 0) :pattern ((strlen s)))))
(assert (forall ((s Sx)) (! (=> (= (strlen s) 0) (= s str_empty)) :pattern ((strlen s)))))`},
	{[]string{"strlen", "strsub"}, `(assert (forall ((s Sx) (o Int) (n Int)) (! (=> (and (<= 0 o) (<= 0 n) (<= (+ o n) (strlen s))) (= (strlen (strsub s o n)) n)) :pattern ((strsub s o n)))))`},
	{[]string{"strlen", "strcat"}, `(assert (forall ((a Sx) (b Sx)) (! (= (strlen (strcat a b)) (+ (strlen a) (strlen b))) :pattern ((strcat a b)))))`},
	{[]string{"strcat"}, `(assert (forall ((a Sx)) (! (= (strcat a str_empty) a) :pattern ((strcat a str_empty)))))
(assert (forall ((a Sx)) (! (= (strcat str_empty a) a) :pattern ((strcat str_empty a)))))
(assert (forall ((a Sx) (b Sx) (c Sx)) (! (= (strcat a (strcat b c)) (strcat (strcat a b) c)) :pattern ((strcat a (strcat b c))))))`},
	{[]string{"strat", "strsub"}, `(assert (forall ((s Sx) (o Int) (n Int) (i Int)) (! (=> (and (<= 0 o) (<= 0 i) (< i n)) (= (strat (strsub s o n) i) (strat s (+ o i)))) :pattern ((strat (strsub s o n) i)))))`},
	{[]string{"errwrap"}, `(assert (forall ((e Val) (m Val)) (! (not (= (errwrap e m) VNil)) :pattern ((errwrap e m)))))`},
	{[]string{"errnew"}, `(assert (forall ((m Val)) (! (not (= (errnew m) VNil)) :pattern ((errnew m)))))`},
	{[]string{"errjoin"}, `(declare-fun joinidx (Sq) Int)
(assert (forall ((s Sq) (i Int)) (! (=> (and (= (errjoin s) VNil) (<= 0 i) (< i (seqlen s))) (= (seqnth s i) VNil)) :pattern ((errjoin s) (seqnth s i)))))
(assert (forall ((s Sq)) (! (=> (not (= (errjoin s) VNil)) (and (<= 0 (joinidx s)) (< (joinidx s) (seqlen s)) (not (= (seqnth s (joinidx s)) VNil)))) :pattern ((errjoin s)))))`},
	{[]string{"carries"}, `(assert (forall ((e Val)) (! (=> (not (= e VNil)) (carries e e)) :pattern ((carries e e)))))
(assert (forall ((e Val)) (! (not (carries VNil e)) :pattern ((carries VNil e)))))`},
	{[]string{"carries", "errwrap"}, `(assert (forall ((e Val) (m Val) (x Val)) (! (=> (carries e x) (carries (errwrap e m) x)) :pattern ((carries (errwrap e m) x)))))`},
	{[]string{"errjoin", "seqcat", "sequnit"}, `(assert (forall ((a Val) (b Val)) (! (= (= (errjoin (seqcat (sequnit a) (sequnit b))) VNil) (and (= a VNil) (= b VNil))) :pattern ((errjoin (seqcat (sequnit a) (sequnit b)))))))`},
	{[]string{"errjoin", "seqsub"}, `(assert (forall ((t Sq) (a Int) (n Int) (j Int)) (! (=> (and (<= 0 a) (<= 0 n) (<= (+ a n) (seqlen t)) (<= a j) (< j (+ a n))) (= (seqnth (seqsub t a n) (- j a)) (seqnth t j))) :pattern ((errjoin (seqsub t a n)) (seqnth t j)))))`},
	{[]string{"carries", "errjoin"}, `(assert (forall ((s Sq) (i Int) (x Val)) (! (=> (and (<= 0 i) (< i (seqlen s)) (carries (seqnth s i) x)) (carries (errjoin s) x)) :pattern ((carries (errjoin s) x) (seqnth s i)))))`},
	{[]string{"erris", "errwrap"}, `(assert (forall ((e Val) (m Val) (x Val)) (! (= (erris (errwrap e m) x) (erris e x)) :pattern ((erris (errwrap e m) x)))))`},
	{[]string{"erris"}, `(assert (forall ((x Val)) (! (=> (not (= x VNil)) (not (erris VNil x))) :pattern ((erris VNil x)))))`},
	{[]string{"enumseq"}, ``},
}

func init() {
	for n := 6; n <= 40; n++ {
		var vars, args, eqs strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&vars, "(x%d Val)", i)
			fmt.Fprintf(&args, " x%d", i)
		}
		app := fmt.Sprintf("(seqtup%d%s)", n, args.String())
		for i := 0; i < n; i++ {
			fmt.Fprintf(&eqs, " (= (seqnth %s %d) x%d)", app, i, i)
		}
		axioms = append(axioms, struct {
			needs []string
			text  string
		}{[]string{fmt.Sprintf("seqtup%d", n)}, fmt.Sprintf("(assert (forall (%s) (! (and (= (seqlen %s) %d)%s) :pattern (%s))))", vars.String(), app, n, eqs.String(), app)})
	}
}

type printer struct {
	decls  map[string]bool
	kindOf map[string]bool
	lits   map[string]string
	names  map[*Term]string
	refs   map[*Term]int
	out    bytes.Buffer // definitions
	head   bytes.Buffer // declarations
	symsU  map[string]*Term
}

func newPrinter() *printer {
	return &printer{decls: map[string]bool{}, lits: map[string]string{}, names: map[*Term]string{}, refs: map[*Term]int{}, symsU: map[string]*Term{}}
}

func quoteSym(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.$-", c)) {
			ok = false
			break
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') && !smtReserved[s] {
		return s
	}
	return "|" + strings.ReplaceAll(strings.ReplaceAll(s, "|", "!"), "\\", "!") + "|"
}

var smtReserved = map[string]bool{"let": true, "as": true, "par": true, "assert": true, "is": true}

func (p *printer) lit(s string) string {
	if n, ok := p.lits[s]; ok {
		return n
	}
	n := "str_empty"
	if s != "" {
		n = fmt.Sprintf("str!%d", len(p.lits))
	}
	p.lits[s] = n
	return n
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
}

// ref prints a term, naming shared ground subterms.
func (p *printer) ref(t *Term) string {
	if n, ok := p.names[t]; ok {
		return n
	}
	s := p.body(t)
	if !t.bv && len(t.Args) > 0 && p.refs[t] > 1 {
		n := fmt.Sprintf("t!%d", t.id)
		fmt.Fprintf(&p.out, "(define-fun %s () %s %s)\n", n, t.S, s)
		p.names[t] = n
		return n
	}
	return s
}

func intLit(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return strconv.FormatInt(n, 10)
}

func (p *printer) args(ts []*Term) string {
	var b strings.Builder
	for _, a := range ts {
		b.WriteByte(' ')
		b.WriteString(p.ref(a))
	}
	return b.String()
}

func (p *printer) body(t *Term) string {
	switch t.Op {
	case "int":
		return intLit(t.N)
	case "lit":
		return p.lit(t.Name)
	case "true", "false":
		return t.Op
	case "var":
		return quoteSym(t.Name)
	case "ctor":
		if len(t.Args) == 0 {
			return t.Name
		}
		return "(" + t.Name + p.args(t.Args) + ")"
	case "sel":
		return "(" + t.Name + p.args(t.Args) + ")"
	case "is":
		return "((_ is " + t.Name + ")" + p.args(t.Args) + ")"
	case "const":
		return "((as const " + string(t.S) + ")" + p.args(t.Args) + ")"
	case "mulx":
		return "(*" + p.args(t.Args) + ")"
	case "forall":
		n := int(t.N)
		var b strings.Builder
		b.WriteString("(forall (")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "(%s %s)", quoteSym(t.Args[i].Name), t.Args[i].S)
		}
		b.WriteString(") ")
		body := p.ref(t.Args[n])
		var pats []string
		for _, ps := range strings.Split(t.Name, ";") {
			if ps == "" {
				continue
			}
			var ts []string
			usable := true
			for _, ix := range strings.Fields(ps) {
				k, _ := strconv.Atoi(ix)
				ts = append(ts, p.ref(t.Args[k]))
				// Simplification may have left nothing of a pattern.
				usable = usable && mentionsAny(t.Args[k], t.Args[:n])
			}
			if !usable {
				continue
			}
			pats = append(pats, ":pattern ("+strings.Join(ts, " ")+")")
		}
		if len(pats) > 0 {
			b.WriteString("(! " + body + " " + strings.Join(pats, " ") + ")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	case "sym":
		p.need(t.Name)
		if len(t.Args) == 0 {
			return quoteSym(t.Name)
		}
		return "(" + quoteSym(t.Name) + p.args(t.Args) + ")"
	}
	return "(" + t.Op + p.args(t.Args) + ")"
}

func (p *printer) need(name string) {
	if p.decls[name] {
		return
	}
	p.decls[name] = true
	tmu.Lock()
	s := syms[name]
	tmu.Unlock()
	if s == nil {
		panic("undeclared symbol " + name)
	}
	var as []string
	for _, a := range s.Args {
		as = append(as, string(a))
	}
	fmt.Fprintf(&p.head, "(declare-fun %s (%s) %s)\n", quoteSym(name), strings.Join(as, " "), s.Res)
	if s.NonNeg && s.Res == SInt {
		if len(as) == 0 {
			fmt.Fprintf(&p.head, "(assert (<= 0 %s))\n", quoteSym(name))
		} else {
			var vs, ns []string
			for i, a := range as {
				vs = append(vs, fmt.Sprintf("(nn%d %s)", i, a))
				ns = append(ns, fmt.Sprintf("nn%d", i))
			}
			ap := "(" + quoteSym(name) + " " + strings.Join(ns, " ") + ")"
			fmt.Fprintf(&p.head, "(assert (forall (%s) (! (<= 0 %s) :pattern (%s))))\n", strings.Join(vs, " "), ap, ap)
		}
	}
}

// script makes an SMT-LIB script that is unsatisfiable if the facts imply the goal.
func script(facts []*Term, goal *Term, timeoutMS int) string {
	p := newPrinter()
	all := append([]*Term(nil), facts...)
	if goal != nil {
		all = append(all, Not(goal))
	}
	all = nameQuantified(append(all, groundInstances(all, goal)...))
	for _, f := range all {
		p.count(f)
	}
	var as bytes.Buffer
	for _, f := range all {
		s := p.ref(f)
		p.out.WriteString("(assert " + s + ")\n")
	}
	_ = as
	if facts == nil && goal == nil {
		// All axioms, to see whether they are consistent.
		for _, n := range builtinSyms {
			p.need(n)
		}
		for _, ua := range userAxioms {
			for n := range ua.needs {
				p.need(n)
			}
		}
	}
	usedAx := map[int]bool{}
	for again := true; again; {
		again = false
		for i, ua := range userAxioms {
			if usedAx[i] {
				continue
			}
			ok := true
			for n := range ua.needs {
				if !p.decls[n] {
					ok = false
				}
			}
			if ok {
				usedAx[i] = true
				again = true
				s := p.ref(ua.t)
				p.out.WriteString("(assert " + s + ")\n")
			}
		}
	}
	// The axioms of the symbols that occur.
	var ax bytes.Buffer
	done := map[int]bool{}
	for again := true; again; {
		again = false
		for i, a := range axioms {
			if done[i] {
				continue
			}
			ok := true
			for _, n := range a.needs {
				if !p.decls[n] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			done[i] = true
			again = true
			ax.WriteString(a.text + "\n")
			for _, n := range axiomSyms(a.text) {
				p.need(n)
			}
		}
	}
	p.lit("")
	var lits bytes.Buffer
	var ls []string
	for s := range p.lits {
		ls = append(ls, s)
	}
	sort.Strings(ls)
	for _, s := range ls {
		fmt.Fprintf(&lits, "(declare-fun %s () Sx) ; %q\n", p.lits[s], s)
	}
	if len(ls) > 1 {
		lits.WriteString("(assert (distinct")
		for _, s := range ls {
			lits.WriteString(" " + p.lits[s])
		}
		lits.WriteString("))\n")
	}
	if p.decls["strlen"] {
		for _, s := range ls {
			fmt.Fprintf(&lits, "(assert (= (strlen %s) %d))\n", p.lits[s], len(s))
		}
	}
	var b bytes.Buffer
	b.WriteString(sortDecls)
	b.Write(p.head.Bytes())
	b.Write(lits.Bytes())
	b.Write(ax.Bytes())
	b.Write(p.out.Bytes())
	b.WriteString("(check-sat)\n")
	return b.String()
}

type userAxiom struct {
	name  string
	needs map[string]bool
	t     *Term
}

var userAxioms []userAxiom

var builtinSyms = []string{"seqempty", "sequnit", "seqcat", "seqlen", "seqnth", "sequpd", "seqtake", "seqdrop", "seqsub", "seqrep", "seqmem", "seqidx", "sortseq", "sortperm", "sortinv", "strlen", "strsub", "strcat", "errwrap", "errnew", "errjoin", "carries", "erris"}

func axiomSyms(text string) []string {
	var out []string
	for _, n := range builtinSyms {
		if strings.Contains(text, n) {
			out = append(out, n)
		}
	}
	return out
}

func init() {
	declare("sortseq", SSeq, SSeq)
	declare("sortperm", SInt, SSeq, SInt)
	declare("sortinv", SInt, SSeq, SInt)
	declare("strlen", SInt, SStr)
	declare("strsub", SStr, SStr, SInt, SInt)
	declare("strcat", SStr, SStr, SStr)
	declare("strat", SInt, SStr, SInt)
	declare("errwrap", SVal, SVal, SVal)
	declare("errnew", SVal, SVal)
	declare("errjoin", SVal, SSeq)
	declare("carries", SBool, SVal, SVal)
	declare("erris", SBool, SVal, SVal)
	declare("seqdiff", SInt, SSeq, SSeq)
	declare("seqidx", SInt, SSeq, SVal)
}

// recursive definitions of the contracts, instantiated for the applications that occur
type recDef struct {
	name   string
	unfold func(args []*Term) *Term
	fuel   int
}

var recDefs = map[string]*recDef{}

// groundInstances returns the defining equations of recursive functions for their ground applications
// and the extensionality of the sequence equalities that occur in the goal.
func groundInstances(all []*Term, goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	depth := map[*Term]int{}
	var queue []*Term
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "sym" && !t.bv {
			if rd := recDefs[t.Name]; rd != nil && d < rd.fuel {
				queue = append(queue, t)
				depth[t] = d
			}
			if t.Name == "seqnth" && isSym(t.Args[0], "sortseq") {
				b, i := t.Args[0].Args[0], t.Args[1]
				p := fn("sortperm", SInt, b, i)
				out = append(out, Implies(And(Le(Int(0), i), Lt(i, Len(b))),
					And(Le(Int(0), p), Lt(p, Len(b)), Eq(t, Nth(b, p)))))
			}
		}
		for _, a := range t.Args {
			visit(a, d)
		}
	}
	for _, t := range all {
		visit(t, 0)
	}
	unfold := func() {
		for len(queue) > 0 && len(out) < 400 {
			t := queue[0]
			queue = queue[1:]
			rd := recDefs[t.Name]
			eq := Eq(t, rd.unfold(t.Args))
			if eq == TTrue {
				continue
			}
			out = append(out, eq)
			visit(eq, depth[t]+1)
		}
	}
	unfold()
	eqSeen := map[*Term]bool{}
	var eqs func(t *Term)
	eqs = func(t *Term) {
		if eqSeen[t] {
			return
		}
		eqSeen[t] = true
		if t.Op == "=" && t.Args[0].S == SSeq && !t.bv {
			a, b := t.Args[0], t.Args[1]
			if a != TEmpty && b != TEmpty {
				d := fn("seqdiff", SInt, a, b)
				out = append(out, Or(t, Neq(Len(a), Len(b)), And(Le(Int(0), d), Lt(d, Len(a)), Neq(Nth(a, d), Nth(b, d)))))
			}
		}
		for _, a := range t.Args {
			eqs(a)
		}
	}
	if goal != nil {
		eqs(goal)
		more := quantInstances(append(append([]*Term(nil), all...), out...))
		out = append(out, more...)
		// The instances may have brought closed applications of recursive functions.
		for _, t := range more {
			visit(t, 0)
		}
		unfold()
	}
	return out
}

var (
	scriptMu    sync.Mutex // held while terms are made by one of several provers
	skolemMu    sync.Mutex
	skolemCache = map[*Term][]*Term{}
)

// skolems are constants that falsify the body of a quantified formula, if anything does.
func skolems(f *Term) []*Term {
	skolemMu.Lock()
	defer skolemMu.Unlock()
	if c, ok := skolemCache[f]; ok {
		return c
	}
	var cs []*Term
	for _, x := range f.Args[:f.N] {
		cs = append(cs, app(freshSym("sk", x.S)))
	}
	skolemCache[f] = cs
	return cs
}

// nameQuantified replaces the closed quantified formulas that are neither asserted nor denied, but compared,
// by the names of propositions equivalent to them. (A solver that takes apart an equivalence makes
// witnesses of its own, for which it does not find the instances that it needs.)
func nameQuantified(all []*Term) []*Term {
	var qs []*Term
	type polarized struct {
		t *Term
		p bool
	}
	seen := map[polarized]bool{}
	named := map[*Term]bool{}
	var visit func(t *Term, both bool)
	visit = func(t *Term, both bool) {
		if len(t.Args) == 0 || seen[polarized{t, both}] {
			return
		}
		seen[polarized{t, both}] = true
		switch t.Op {
		case "forall":
			if both && !named[t] { // Formulas within quantified ones are not looked at, so that it is closed.
				named[t] = true
				qs = append(qs, t)
			}
			return
		case "not", "and", "or", "=>":
			for _, a := range t.Args {
				visit(a, both)
			}
		case "ite":
			visit(t.Args[0], true)
			visit(t.Args[1], both)
			visit(t.Args[2], both)
		default:
			for _, a := range t.Args {
				visit(a, true)
			}
		}
	}
	for _, f := range all {
		visit(f, false)
	}
	if len(qs) == 0 {
		return all
	}
	m := map[*Term]*Term{}
	for _, f := range qs {
		m[f] = fn(fmt.Sprintf("named!%d", f.id), SBool)
	}
	cache := map[*Term]*Term{}
	var out []*Term
	for _, f := range all {
		out = append(out, substC(f, m, cache))
	}
	for _, f := range qs {
		cs := skolems(f)
		w := map[*Term]*Term{}
		for i, x := range f.Args[:f.N] {
			w[x] = cs[i]
		}
		out = append(out, Implies(m[f], f), Or(m[f], Not(substC(subst(f.Args[f.N], w), m, cache))))
	}
	return out
}

// quantInstances are valid formulas about the closed quantified formulas that occur:
// a witness of the falsity of each, and instances at the witnesses, the loop counters and so on.
// (Patterns alone find too few of them, as they do not match modulo arithmetic.)
func quantInstances(all []*Term) []*Term {
	var out []*Term
	var pos, neg []*Term // quantified formulas taken to be true, and false
	var ints []*Term
	type polarized struct {
		t *Term
		p int
	}
	seen := map[polarized]bool{}
	isInt := map[*Term]bool{}
	others := map[Sort][]*Term{} // witnesses that are not integers
	addOther := func(t *Term) {
		if t.S != SInt && len(others[t.S]) < 6 {
			others[t.S] = append(others[t.S], t)
		}
	}
	addInt := func(t *Term) {
		if t.S == SInt && !isInt[t] && len(ints) < 16 {
			isInt[t] = true
			ints = append(ints, t)
		}
	}
	// The closed applications with an integer argument, by everything but that argument.
	apps := map[string][]*Term{}
	recApps := map[string][]*Term{} // closed applications of recursive functions
	appKey := func(t *Term, i int) string {
		var b strings.Builder
		b.WriteString(t.Op + " " + t.Name)
		for j, a := range t.Args {
			if j == i {
				b.WriteString(" *")
			} else {
				fmt.Fprintf(&b, " %d", a.id)
			}
		}
		return b.String()
	}
	var visit func(t *Term, pol int) // pol is 1 for what is asserted, -1 for what is denied, 0 for both
	var inside func(t *Term)
	insideSeen := map[*Term]bool{}
	inside = func(t *Term) { // closed parts of a formula with bound variables
		if !t.bv {
			visit(t, 0)
			return
		}
		if insideSeen[t] {
			return
		}
		insideSeen[t] = true
		for _, a := range t.Args {
			inside(a)
		}
	}
	visit = func(t *Term, pol int) {
		if seen[polarized{t, pol}] {
			return
		}
		seen[polarized{t, pol}] = true
		if t.Op == "forall" {
			if pol >= 0 && !seen[polarized{t, 11}] {
				seen[polarized{t, 11}] = true
				pos = append(pos, t)
			}
			if pol <= 0 && !seen[polarized{t, 12}] {
				seen[polarized{t, 12}] = true
				neg = append(neg, t)
			}
			inside(t)
			return
		}
		if t.Op == "sym" && !t.bv && recDefs[t.Name] != nil && len(recApps[t.Name]) < 8 {
			recApps[t.Name] = append(recApps[t.Name], t)
		}
		if (t.Op == "sym" || t.Op == "select") && !t.bv && len(t.Args) > 0 {
			for i, a := range t.Args {
				if a.S == SInt {
					k := appKey(t, i)
					if len(apps[k]) < 6 {
						apps[k] = append(apps[k], a)
					}
				}
			}
		}
		if t.Op == "var" {
			return
		}
		if t.Op == "sym" && len(t.Args) == 0 && strings.HasPrefix(t.Name, "K!") {
			addInt(t)
		}
		if t.Op == "sym" && t.Name == "seqmem" {
			addInt(fn("seqidx", SInt, t.Args[0], t.Args[1]))
		}
		switch {
		case t.Op == "not":
			visit(t.Args[0], -pol)
		case t.Op == "and" || t.Op == "or":
			for _, a := range t.Args {
				visit(a, pol)
			}
		case t.Op == "=>":
			visit(t.Args[0], -pol)
			visit(t.Args[1], pol)
		case t.Op == "ite":
			visit(t.Args[0], 0)
			visit(t.Args[1], pol)
			visit(t.Args[2], pol)
		default:
			for _, a := range t.Args {
				visit(a, 0)
			}
		}
	}
	// The goal is the last of the facts to be looked at first.
	for i := len(all) - 1; i >= 0; i-- {
		visit(all[i], 1)
	}
	// matches are the values of the variable for which a term of the body is one of the closed terms that occur.
	matches := func(f *Term) []*Term {
		x := f.Args[0]
		var out []*Term
		have := map[*Term]bool{}
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if !t.bv || seen[t] || t.Op == "forall" {
				return
			}
			seen[t] = true
			if t.Op == "sym" || t.Op == "select" {
				for i, a := range t.Args {
					if a.S != SInt || !a.bv {
						continue
					}
					others := true
					for j, b := range t.Args {
						if j != i && b.bv {
							others = false
						}
					}
					if !others {
						continue
					}
					r0 := subst(a, map[*Term]*Term{x: Int(0)})
					r1 := subst(a, map[*Term]*Term{x: Int(1)})
					if r0.bv {
						continue
					}
					c, ok := diff(r1, r0)
					if !ok || c != 1 && c != -1 {
						continue
					}
					for _, g := range apps[appKey(t, i)] {
						v := Sub(g, r0)
						if c == -1 {
							v = Sub(r0, g)
						}
						if !have[v] {
							have[v] = true
							out = append(out, v)
						}
					}
				}
			}
			for _, b := range t.Args {
				rec(b)
			}
		}
		rec(f.Args[1])
		return out
	}
	// recMatches are the arguments of recursive functions that occur where the body has the variable.
	recMatches := func(f *Term) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		var rec func(t *Term)
		rec = func(t *Term) {
			if !t.bv || seen[t] {
				return
			}
			seen[t] = true
			for i, a := range t.Args {
				if a == f.Args[0] && t.Op == "sym" {
					for _, g := range recApps[t.Name] {
						out = append(out, g.Args[i])
					}
				}
				rec(a)
			}
		}
		rec(f.Args[1])
		return out
	}
	type inst struct{ f, v *Term }
	instDone := map[inst]bool{}
	done := map[*Term]int{} // number of instantiation terms used
	skolemized := map[*Term]bool{}
	for round := 0; round < 3; round++ {
		qs := neg
		for _, f := range qs {
			if skolemized[f] || len(out) > 400 {
				continue
			}
			skolemized[f] = true
			cs := skolems(f)
			m := map[*Term]*Term{}
			for i, x := range f.Args[:f.N] {
				m[x] = cs[i]
			}
			b := subst(f.Args[f.N], m)
			out = append(out, Or(f, Not(b)))
			for _, c := range cs {
				addInt(c)
				addOther(c)
			}
			visit(b, -1)
		}
		qs = pos
		for _, f := range qs {
			if f.N == 1 && f.Args[0].S != SInt {
				for _, x := range append(recMatches(f), others[f.Args[0].S]...) {
					if len(out) >= 600 || instDone[inst{f, x}] {
						continue
					}
					instDone[inst{f, x}] = true
					b := subst(f.Args[1], map[*Term]*Term{f.Args[0]: x})
					out = append(out, Implies(f, b))
					visit(b, 1)
				}
				continue
			}
			if f.N != 1 {
				continue
			}
			vals := append(matches(f), ints[done[f]:]...)
			for _, x := range vals {
				if len(out) >= 600 || instDone[inst{f, x}] {
					continue
				}
				instDone[inst{f, x}] = true
				b := subst(f.Args[1], map[*Term]*Term{f.Args[0]: x})
				out = append(out, Implies(f, b))
				visit(b, 1)
			}
			done[f] = len(ints)
		}
	}
	return out
}

// ---- running solvers

type Result struct {
	Verdict string // "unsat", "sat", "unknown"
	Solver  string
	Time    time.Duration
	Raw     string
}

var (
	solverTime  int64
	solverCalls int64
	cacheMu     sync.Mutex
	resCache    = map[[32]byte]Result{}
	solverSem   = make(chan struct{}, 8)
)

type solverCmd struct {
	name string
	args func(timeout int) []string
	pre  string
}

var solvers = map[string]solverCmd{
	"z3-new": {"z3-new", func(t int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", t), "auto_config=false", "smt.mbqi=false", "smt.random_seed=1"}
	}, ""},
	"z3-new-mbqi": {"z3-new", func(t int) []string { return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", t), "smt.random_seed=1"} }, ""},
	"z3": {"z3", func(t int) []string {
		return []string{"-in", "-smt2", fmt.Sprintf("-t:%d", t), "auto_config=false", "smt.mbqi=false"}
	}, ""},
	"cvc5": {"cvc5", func(t int) []string {
		return []string{"--lang=smt2", fmt.Sprintf("--tlimit=%d", t), "--arrays-exp"}
	}, "(set-logic ALL)\n"},
}

func runSolver(which, text string, timeoutMS int) Result {
	sc := solvers[which]
	solverSem <- struct{}{}
	defer func() { <-solverSem }()
	start := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(timeoutMS+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, sc.name, sc.args(timeoutMS)...)
	cmd.Stdin = strings.NewReader(sc.pre + text)
	out, _ := cmd.CombinedOutput()
	d := time.Since(start)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	r := Result{Verdict: "unknown", Solver: which, Time: d, Raw: string(out)}
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, which, "error:", l)
			if os.Getenv("GOVC_KEEP") != "" {
				os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0644)
			}
			r.Verdict = "error"
			return r
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			r.Verdict = l
			break
		}
	}
	return r
}

// prove tries to show that the facts imply the goal.
var deadline, _ = strconv.ParseInt(os.Getenv("GOVC_DEADLINE"), 10, 64)

// late tells whether the time for the check is over.
func late() bool {
	return deadline > 0 && time.Now().Unix() > deadline
}

func prove(facts []*Term, goal *Term, timeoutMS int, portfolio bool) Result {
	if goal == TTrue {
		return Result{Verdict: "unsat", Solver: "simplifier"}
	}
	for _, f := range facts {
		if f == TFalse || f == goal {
			return Result{Verdict: "unsat", Solver: "simplifier"}
		}
	}
	scriptMu.Lock()
	text := script(facts, goal, timeoutMS)
	scriptMu.Unlock()
	key := sha256.Sum256([]byte(text))
	cacheMu.Lock()
	r, ok := resCache[key]
	cacheMu.Unlock()
	if ok && (r.Verdict != "unknown" || !portfolio) {
		return r
	}
	if late() {
		return Result{Verdict: "unknown", Raw: "not tried: out of time"}
	}
	first := timeoutMS
	if portfolio && first > 3000 {
		first = 3000
	}
	r = runSolver("z3-new", text, first)
	if r.Verdict == "error" {
		r.Verdict = "unknown"
	}
	if r.Verdict != "unsat" && portfolio {
		names := []string{"cvc5", "z3"}
		if timeoutMS > first {
			names = append(names, "z3-new")
		}
		ch := make(chan Result, len(names)+1)
		for _, s := range names {
			go func() { ch <- runSolver(s, text, timeoutMS) }()
		}
		// What is known of the steps of loops may distract from their invariants.
		if light := withoutSteps(facts); len(light) < len(facts) {
			names = append(names, "z3-new")
			go func() {
				scriptMu.Lock()
				text := script(light, goal, timeoutMS)
				scriptMu.Unlock()
				ch <- runSolver("z3-new-mbqi", text, timeoutMS)
			}()
		}
		for range names {
			r2 := <-ch
			if r2.Verdict == "unsat" {
				r = r2
				break
			}
		}
	}
	cacheMu.Lock()
	resCache[key] = r
	cacheMu.Unlock()
	return r
}

// withoutSteps leaves out the facts about the steps of loops.
func withoutSteps(facts []*Term) []*Term {
	var out []*Term
	for _, f := range facts {
		if f.Op == "forall" && f.N == 1 && strings.HasPrefix(f.Args[0].Name, "j!") {
			continue
		}
		out = append(out, f)
	}
	return out
}

// ---- a persistent solver for quick feasibility checks

type quick struct {
	mu  sync.Mutex
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var quickPool = make(chan *quick, 8)

func init() {
	for i := 0; i < 8; i++ {
		quickPool <- &quick{}
	}
}

var (
	quickMu    sync.Mutex
	quickCache = map[[32]byte]bool{}
)

// infeasible tells whether the ground facts are contradictory.
func infeasible(facts []*Term) bool {
	var ground []*Term
	for _, f := range facts {
		if f == TFalse {
			return true
		}
		if !hasForall(f) {
			ground = append(ground, f)
		}
	}
	text := script(ground, nil, 0)
	key := sha256.Sum256([]byte(text))
	quickMu.Lock()
	r, ok := quickCache[key]
	quickMu.Unlock()
	if ok {
		return r
	}
	q := <-quickPool
	r = q.check(text)
	quickPool <- q
	quickMu.Lock()
	quickCache[key] = r
	quickMu.Unlock()
	return r
}

func (q *quick) check(text string) bool {
	start := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(start)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	if q.cmd == nil || q.n > 2000 {
		if q.cmd != nil {
			q.in.Close()
			q.cmd.Wait()
		}
		q.cmd = exec.Command("z3-new", "-in", "-smt2")
		q.in, _ = q.cmd.StdinPipe()
		o, _ := q.cmd.StdoutPipe()
		q.out = bufio.NewReader(o)
		if err := q.cmd.Start(); err != nil {
			panic(err)
		}
		q.n = 0
	}
	q.n++
	io.WriteString(q.in, "(reset)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout 300)\n"+text+"(echo \"done\")\n")
	res := ""
	for {
		l, err := q.out.ReadString('\n')
		if err != nil {
			q.cmd = nil
			return false
		}
		l = strings.TrimSpace(l)
		if l == "done" {
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "quick solver:", l)
			if os.Getenv("GOVC_KEEP") != "" {
				os.WriteFile("/tmp/govc_err.smt2", []byte(text), 0644)
			}
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
		}
	}
	return res == "unsat"
}

var forallCache sync.Map

func hasForall(t *Term) bool {
	if t.Op == "forall" {
		return true
	}
	if len(t.Args) == 0 {
		return false
	}
	if v, ok := forallCache.Load(t); ok {
		return v.(bool)
	}
	r := false
	for _, a := range t.Args {
		if hasForall(a) {
			r = true
			break
		}
	}
	forallCache.Store(t, r)
	return r
}
