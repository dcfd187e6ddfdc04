package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagRepo   = flag.String("repo", "/repo", "repository")
	flagSpecs  = flag.String("specs", "/verif/contracts", "contracts")
	flagFn     = flag.String("fn", "", "verify only these functions (comma separated)")
	flagProp   = flag.String("prop", "", "property to decide")
	flagDump   = flag.String("dump", "", "print the SSA form of functions")
	flagV      = flag.Bool("v", false, "print every obligation")
	flagMS     = flag.Int("ms", 10000, "solver time limit per obligation (ms)")
	flagAxioms = flag.Bool("axioms", false, "print all axioms as a script")
	flagKeep   = flag.String("keep", "", "write the scripts of failing obligations to this directory")
)

// FnResult is the result of verifying one function.
type FnResult struct {
	C    *Contract
	Obls []*Obligation
	Err  string // the function could not be processed
	Used map[string]bool
	Time time.Duration
	Pths int
}

func (v *Verif) run() (res *FnResult) {
	res = &FnResult{C: v.C, Used: v.used}
	start := time.Now()
	defer func() {
		res.Obls = v.Obls
		res.Time = time.Since(start)
		res.Pths = v.paths
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupported:
				res.Err = "not supported: " + string(r)
			case specErr:
				res.Err = "contract: " + string(r)
			default:
				if os.Getenv("GOVC_PANIC") != "" {
					panic(r)
				}
				buf := make([]byte, 4000)
				buf = buf[:runtime.Stack(buf, false)]
				res.Err = fmt.Sprintf("internal: %v\n%s", r, buf)
			}
		}
	}()
	fn := v.Fn
	st := newState()
	var args []Value
	for _, p := range fn.Params {
		x := Value{T: p.Type()}
		for _, s := range leafSorts(p.Type()) {
			x.L = append(x.L, app(freshSym("p:"+p.Name(), s)))
		}
		args = append(args, x)
	}
	var binds []Value
	for _, f := range fn.FreeVars {
		x := Value{T: f.Type()}
		for _, s := range leafSorts(f.Type()) {
			x.L = append(x.L, app(freshSym("fv:"+f.Name(), s)))
		}
		binds = append(binds, x)
	}
	top := app(freshSym("top", SInt))
	v.set(st, "top", top)
	st.assume(Lt(Int(0), top))
	for _, x := range append(append([]Value(nil), args...), binds...) {
		v.refFacts(st, x.T, x.L)
		if it, ok := x.T.Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
			st.assume(Or(Eq(x.L[0], TNil), v.hasType(x.L[0], x.T)))
		}
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Params[0].Type().Underlying().(*types.Pointer); ok {
			st.assume(Neq(args[0].L[0], Int(0)))
		}
	}
	for i := range binds {
		if _, ok := binds[i].T.Underlying().(*types.Pointer); ok {
			st.assume(Neq(binds[i].L[0], Int(0)))
		}
	}
	v.initGhosts(st)
	v.entry = st.clone()
	v.binds = binds
	pre := newEvalFor(v, fn, st, args)
	for _, r := range v.C.requires {
		st.assume(pre.boolExpr(r.e))
	}
	for _, r := range v.C.assumes {
		st.assume(pre.boolExpr(r.e))
	}
	v.entry = st.clone()
	v.vacuity = append(v.vacuity, vac{"precondition", st.facts})
	v.top = v.newFrame(fn, args, binds, nil)
	outs := v.execTop(fn, args, binds, st)
	if len(outs) == 0 {
		res.Err = "no path through the function returns"
		return
	}
	for _, o := range outs {
		v.exit(o, fn, args)
	}
	return
}

func newEvalFor(v *Verif, fn *ssa.Function, st *State, args []Value) *Eval {
	ev := v.newEval(nil, st, nil)
	ev.bindParams(fn, args)
	ev.letsOf(v.C)
	return ev
}

func (v *Verif) initGhosts(st *State) {
	for n, s := range v.S.ghosts {
		if n == "top" {
			continue
		}
		if _, ok := st.heap[n]; !ok {
			v.set(st, n, mk("sym", declare("h0:"+n, s).Name, 0, s))
		}
	}
	v.set(st, "wgcount", ConstArr(SInt, Int(0)))
}

func (v *Verif) execTop(fn *ssa.Function, args, binds []Value, st *State) []Outcome {
	fr := v.newFrame(fn, args, binds, nil)
	v.top = fr
	return v.runBlock(fr, fn.Blocks[0], nil, st)
}

// exit checks the postconditions on one path.
func (v *Verif) exit(o Outcome, fn *ssa.Function, args []Value) {
	st := o.st
	if v.contradictory(st) {
		return
	}
	for i := range o.res {
		o.res[i] = v.materialize(st, o.res[i])
	}
	for _, l := range st.locked {
		_ = l
		v.oblige(st, v.top, "no lock is held on return", TFalse, fn.Pos(), []string{"*"})
	}
	v.claimsEnd(v.top, st, fn.Pos())
	if len(st.unjoined) > 0 {
		v.oblige(st, v.top, "all goroutines have finished on return", TFalse, fn.Pos(), v.concLabels())
	}
	if fn.Name() != "init" {
		v.vacuity = append(v.vacuity, vac{"return", st.facts})
	}
	mk := func() *Eval {
		ev := v.newEval(nil, st, v.entry)
		ev.bindParams(fn, args)
		ev.bindResults(fn.Signature, v.C.results, o.res)
		ev.letsOf(v.C)
		return ev
	}
	ev := mk()
	for _, g := range v.C.ghosts {
		ev.ghost(g)
	}
	for _, c := range v.C.ensures {
		goal := mk().boolExpr(c.e)
		n := len(st.facts)
		v.oblige(st, v.top, "postcondition: "+c.text, goal, fn.Pos(), c.labels)
		// A postcondition is not a premise of the others.
		_ = n
		delete(st.known, st.simp(goal))
		st.facts = st.facts[:n:n]
	}
	if v.C.ownSlice(fn.Signature) {
		r := o.res[0].L[0]
		v.oblige(st, v.top, "the result is a slice of its own", Or(Eq(r, Int(0)), And(Le(v.get(v.entry, "top", SInt), r), Lt(r, v.get(st, "top", SInt)))), fn.Pos(), []string{"*"})
	}
	if !v.C.noframe {
		v.frame(st, fn)
	}
}

// frame checks that what the contract does not mention is unchanged, except in new objects.
func (v *Verif) frame(st *State, fn *ssa.Function) {
	top0 := v.entry.heap["top"]
	ok := func(name string) bool {
		for _, m := range v.C.modifies {
			if !strings.HasPrefix(m, "@") && matchMod(m, name) {
				return true
			}
		}
		return false
	}
	var locs []string
	for _, m := range v.C.modifies {
		if strings.HasPrefix(m, "@") {
			locs = append(locs, m[1:])
		}
	}
	for _, r := range st.hv {
		allowed := false
		for _, m := range v.C.modifies {
			if m == r.pat || strings.HasSuffix(m, "*") && strings.HasPrefix(r.pat, strings.TrimSuffix(m, "*")) {
				allowed = true
			}
		}
		if !allowed {
			v.oblige(st, v.top, "frame: "+r.pat+" is not among what may be modified", TFalse, fn.Pos(), []string{"*"})
		}
	}
	// Locations that may be modified are those of the entry state.
	want := v.snapshot(v.entry)
	if len(locs) > 0 {
		ev := v.newEval(nil, want, v.entry)
		ev.bindParams(fn, v.top.args)
		ev.letsOf(v.C)
		for _, l := range locs {
			ev.havocLoc(l)
		}
	}
	for _, name := range sortedHeapNames(st.heap) {
		cur := st.heap[name]
		if name == "top" || name == "wgcount" || ok(name) {
			continue
		}
		was := v.get(v.entry, name, cur.S)
		w := v.get(want, name, cur.S)
		if cur == was || cur == w {
			continue
		}
		if !isHeapName(name) {
			v.oblige(st, v.top, "frame: "+name, Eq(cur, was), fn.Pos(), []string{"*"})
			continue
		}
		// The addresses written.
		var addrs []*Term
		t := cur
		base := func(t *Term) bool { return t == was }
		for !base(t) && t.Op == "store" {
			a := t.Args[1]
			if !isTopBased(a) {
				addrs = append(addrs, a)
			}
			t = t.Args[0]
		}
		var allowedAddrs []*Term
		for x := w; x != was && x.Op == "store"; x = x.Args[0] {
			allowedAddrs = append(allowedAddrs, x.Args[1])
		}
		if base(t) {
			for _, a := range addrs {
				var cs []*Term
				for _, x := range allowedAddrs {
					cs = append(cs, Eq(a, x))
				}
				cs = append(cs, Le(top0, a), Eq(Select(cur, a), Select(was, a)))
				v.oblige(st, v.top, "frame: "+name+" at "+trunc(a.String(), 60), Or(cs...), fn.Pos(), []string{"*"})
			}
			continue
		}
		r := Var("r!f", SInt)
		var cs []*Term
		for _, x := range allowedAddrs {
			cs = append(cs, Eq(r, x))
		}
		cs = append(cs, Le(top0, r), Eq(Select(cur, r), Select(was, r)))
		v.oblige(st, v.top, "frame: "+name, Forall([]*Term{r}, Or(cs...)), fn.Pos(), []string{"*"})
	}
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func verifyFn(w *World, s *Specs, c *Contract) *FnResult {
	fn := w.Funcs[strings.TrimPrefix(c.name, "impl ")]
	if fn == nil {
		return &FnResult{C: c, Err: "no such function in the source", Used: map[string]bool{}}
	}
	v := newVerif(w, s, c, fn)
	res := v.run()
	if res.Err == "" {
		v.discharge(res)
	}
	return res
}

func newVerif(w *World, s *Specs, c *Contract, fn *ssa.Function) *Verif {
	v := &Verif{W: w, S: s, Fn: fn, C: c, closures: map[*Term]*Closure{}, used: map[string]bool{}, warn: map[string]bool{}, maxPaths: 3000}
	if c.maxPaths > 0 {
		v.maxPaths = c.maxPaths
	}
	return v
}

// discharge proves the obligations.
func (v *Verif) discharge(res *FnResult) {
	ms := *flagMS
	if v.C.timeout > 0 {
		ms = v.C.timeout * 1000
	}
	var wg sync.WaitGroup
	n := 10
	var only map[string]bool
	if s := os.Getenv("GOVC_ONLY"); s != "" {
		json.Unmarshal([]byte(s), &only)
		n = 2
	}
	sem := make(chan struct{}, n)
	var failed, hopeless int64
	prop := os.Getenv("GOVC_PROP")
	for _, o := range res.Obls {
		if o.Res.Verdict != "" {
			continue
		}
		if atomic.LoadInt64(&hopeless) > retryLimit {
			// The function is not proved, whatever becomes of the others.
			o.Res = Result{Verdict: "unknown", Raw: "not tried: too many obligations failed"}
			continue
		}
		if only != nil && !only[o.Name+" @ "+o.Pos] {
			o.Res.Verdict = "skipped"
			continue
		}
		o := o
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			o.Res = prove(o.Facts, o.Goal, ms, !v.C.merge)
			if o.Res.Verdict != "unsat" {
				if r, ok := proveParts(o.Facts, o.Goal, ms); ok {
					o.Res = r
				}
			}
			if o.Res.Verdict != "unsat" && v.C.merge && atomic.LoadInt64(&failed) < 6 {
				o.Res = proveCases(o.Facts, o.Goal, ms)
				if o.Res.Verdict != "unsat" {
					atomic.AddInt64(&failed, 1)
				}
			}
			if o.Res.Verdict != "unsat" && prop != "" && concerns(oblReport{Labels: o.Labels}, prop) {
				atomic.AddInt64(&hopeless, 1)
			}
			if (o.Res.Verdict != "unsat" || os.Getenv("GOVC_KEEPALL") != "") && *flagKeep != "" {
				os.MkdirAll(*flagKeep, 0755)
				os.WriteFile(fmt.Sprintf("%s/%s-%p.smt2", *flagKeep, strings.Map(fileChar, v.C.name), o), []byte("; "+o.Name+"\n"+script(o.Facts, o.Goal, ms)), 0644)
			}
		}()
	}
	wg.Wait()
}

func fileChar(r rune) rune {
	if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
		return r
	}
	return '_'
}

func main() {
	flag.Parse()
	if *flagReplay != "" {
		os.Setenv("GOVC_HARNESS", "1")
		runHarness(*flagReplay, os.Getenv("VERIF_TIER"), 1)
		return
	}
	if *flagCheck != "" {
		os.Exit(check(*flagCheck))
	}
	t := time.Now()
	w, err := load(*flagRepo)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *flagDump != "" {
		for _, a := range strings.Split(*flagDump, ",") {
			if f := w.Funcs[a]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", a)
			}
		}
		return
	}
	s, err := loadSpecs(*flagSpecs)
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if err := prepare(w, s); err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	if *flagAxioms {
		fmt.Println(script(nil, nil, 0))
		return
	}
	if *flagWorker {
		worker(w, s, *flagFn)
		return
	}
	fmt.Println("loaded in", time.Since(t).Round(time.Millisecond))
	var names []string
	if *flagFn != "" {
		names = strings.Split(*flagFn, ",")
	} else {
		for n := range s.contracts {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	bad := false
	for _, n := range names {
		c := s.contracts[n]
		if c == nil {
			fmt.Println("no contract for", n)
			continue
		}
		if c.trusted {
			continue
		}
		r := verifyFn(w, s, c)
		ok := 0
		for _, o := range r.Obls {
			if o.Res.Verdict == "unsat" {
				ok++
			}
		}
		fmt.Printf("%-50s %d/%d obligations, %d paths, %v %s\n", n, ok, len(r.Obls), r.Pths, r.Time.Round(time.Millisecond), r.Err)
		if r.Err != "" || ok < len(r.Obls) {
			bad = true
		}
		seen := map[string]int{}
		for _, o := range r.Obls {
			if o.Res.Verdict != "unsat" || *flagV {
				k := o.Name + o.Pos
				if o.Res.Verdict == "unsat" {
					seen[k]++
				}
				if o.Res.Verdict == "unsat" && seen[k] > 2 {
					continue
				}
				fmt.Printf("   %-8s %-10s %s (%s) %v\n", o.Res.Verdict, o.Res.Solver, o.Name, o.Pos, o.Labels)
				if os.Getenv("GOVC_GOAL") != "" {
					fmt.Printf("        %s\n", o.Goal)
				}
			}
		}
	}
	fmt.Println("total", time.Since(t).Round(time.Millisecond))
	if bad {
		os.Exit(1)
	}
}

// prepare makes the axioms of the specifications known to the solver interface.
func prepare(w *World, s *Specs) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case specErr:
				err = fmt.Errorf("contract: %s", string(r))
			case unsupported:
				err = fmt.Errorf("contract: %s", string(r))
			default:
				panic(r)
			}
		}
	}()
	v := &Verif{W: w, S: s, closures: map[*Term]*Closure{}, used: map[string]bool{}, silent: 1}
	v.registerRecs()
	for _, a := range s.axioms {
		ev := v.newEval(nil, newState(), nil)
		if p := w.pkgsNamed("fab"); len(p) > 0 {
			ev.pkg = p[0]
		}
		t := ev.boolExpr(a.e)
		needs := map[string]bool{}
		// An axiom is used where the symbols of its patterns occur.
		var rec func(t *Term)
		rec = func(t *Term) {
			if t.Op == "sym" {
				needs[t.Name] = true
			}
			for _, x := range t.Args {
				rec(x)
			}
		}
		if t.Op == "forall" && t.Name != "" {
			for _, id := range strings.Fields(strings.Split(t.Name, ";")[0]) {
				var n int
				fmt.Sscan(id, &n)
				rec(t.Args[n])
			}
		} else {
			rec(t)
		}
		delete(needs, "seqempty")
		userAxioms = append(userAxioms, userAxiom{name: a.text, needs: needs, t: t})
	}
	return nil
}
