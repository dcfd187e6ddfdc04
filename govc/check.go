package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	flagCheck  = flag.String("check", "", "decide this property: verify the functions under its contracts, write the evidence, report violations")
	flagWorker = flag.Bool("worker", false, "verify one function and print the result as JSON")
	flagReplay = flag.String("replay", "", "only run the scenarios of this property on the real code")
	flagVerif  = flag.String("verif", "/verif", "directory of the contracts, the replay harness and the evidence")
)

// oblReport is one obligation, as a worker reports it.
type oblReport struct {
	Name    string
	Labels  []string
	Fn      string
	Pos     string
	Verdict string
	Solver  string
	MS      int64
	Raw     string
	Goal    string
}

// fnReport is the result for one function.
type fnReport struct {
	Fn      string
	Err     string
	Obls    []oblReport
	Used    []string
	Assumes []string
	Paths   int
	Vacuous string
	Reached int // return states shown not to be contradictory, or not shown to be
	SolveMS int64
	Calls   int64
	WallMS  int64
}

// vacuous checks that the assumptions under which the obligations were proved are not contradictory.
func (v *Verif) vacuous() (string, int) {
	pre := false
	reached, total := 0, 0
	for _, x := range v.vacuity {
		if x.where == "precondition" {
			if prove(x.facts, TFalse, 1000, false).Verdict == "unsat" {
				return "the precondition is contradictory", 0
			}
			pre = true
			continue
		}
		if x.where != "return" {
			continue
		}
		total++
		if reached >= 3 {
			continue
		}
		if prove(x.facts, TFalse, 1000, false).Verdict != "unsat" {
			reached++
		}
	}
	if !pre {
		return "no precondition was established", 0
	}
	if total > 0 && reached == 0 {
		return "no return of the function can be reached", 0
	}
	return "", reached
}

func worker(w *World, s *Specs, name string) {
	c := s.contracts[name]
	rep := fnReport{Fn: name}
	start := time.Now()
	if c == nil {
		rep.Err = "no contract"
	} else if fn := w.Funcs[strings.TrimPrefix(c.name, "impl ")]; fn == nil {
		rep.Err = "no such function in the source"
	} else {
		v := newVerif(w, s, c, fn)
		r := v.run()
		rep.Err = r.Err
		rep.Paths = r.Pths
		if r.Err == "" {
			v.discharge(r)
			rep.Vacuous, rep.Reached = v.vacuous()
		}
		for u := range r.Used {
			rep.Used = append(rep.Used, u)
		}
		sort.Strings(rep.Used)
		for _, a := range c.assumes {
			rep.Assumes = append(rep.Assumes, a.text)
		}
		for _, o := range r.Obls {
			x := oblReport{Name: o.Name, Labels: o.Labels, Fn: o.Fn, Pos: o.Pos, Verdict: o.Res.Verdict, Solver: o.Res.Solver, MS: o.Res.Time.Milliseconds()}
			if x.Verdict != "unsat" {
				x.Raw = trunc(o.Res.Raw, 400)
				x.Goal = trunc(pretty(o.Goal, 12), 3000)
			}
			rep.Obls = append(rep.Obls, x)
		}
	}
	rep.SolveMS = solverTime / 1e6
	rep.Calls = solverCalls
	rep.WallMS = time.Since(start).Milliseconds()
	b, _ := json.Marshal(rep)
	os.Stdout.Write(append(b, '\n'))
}

func hasStr(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// concerns tells whether an obligation is part of what decides property p.
func concerns(o oblReport, p string) bool {
	return len(o.Labels) == 0 || hasStr(o.Labels, "*") || hasStr(o.Labels, p)
}

// callersOf lists the functions of the repository that call a function other than those allowed.
// An unexported function that is called by those allowed only, and not used otherwise, is part of them.
func (w *World) callersOf(callee string, allowed map[string]bool) []string {
	return w.usersOf(callee, allowed, map[string]bool{})
}

func (w *World) usersOf(callee string, allowed, visiting map[string]bool) []string {
	seen := map[string]bool{}
	visiting[callee] = true
	defer delete(visiting, callee)
	for name, fn := range w.Funcs {
		if !strings.HasPrefix(w.Fset.Position(fn.Pos()).Filename, w.Repo+"/") {
			continue
		}
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		if allowed[funcName(root)] || fn.Synthetic != "" {
			continue
		}
		use := func(pos token.Pos) {
			rn := funcName(root)
			if visiting[rn] {
				return
			}
			if o := root.Object(); o != nil && !o.Exported() && o.Name() != "init" && o.Name() != "main" && root.Signature.TypeParams() == nil {
				if us := w.usersOf(rn, allowed, visiting); len(us) == 0 && w.hasCaller(rn) {
					return
				}
			}
			seen[name+" ("+(&Verif{W: w}).pos(pos)+")"] = true
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					c := ci.Common()
					got := ""
					if c.IsInvoke() {
						got = (&Verif{W: w}).ifaceMethodName(c.Value.Type(), c.Method)
					} else if f := c.StaticCallee(); f != nil {
						got = funcName(f)
					}
					if got == callee {
						use(in.Pos())
						continue
					}
				}
				// Any other use of the function, as a value.
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && funcName(f) == callee {
						if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
							continue
						}
						seen[name+" ("+(&Verif{W: w}).pos(in.Pos())+")"] = true
					}
				}
			}
		}
	}
	var out []string
	for n := range seen {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// hasCaller tells whether a function is called directly.  (A method that is not may be called through an interface.)
func (w *World) hasCaller(callee string) bool {
	for _, fn := range w.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if f := ci.Common().StaticCallee(); f != nil && funcName(f) == callee {
						return true
					}
				}
			}
		}
	}
	return false
}

// deadlineAfter gives the environment variable that sets the deadline of a worker: what is not proved by then is not proved.
func deadlineAfter(start time.Time, tier string, s int) string {
	if tier == "thorough" {
		s *= 10
	}
	return fmt.Sprintf("GOVC_DEADLINE=%d", start.Add(time.Duration(s)*time.Second).Unix())
}

// retryLimit is the largest number of failed obligations that are tried again.
const retryLimit = 12

// retry gives the obligations that were not discharged another chance, with more time and the machine to themselves:
// the solvers compete for the processors in the first round.
func retry(reports []fnReport, p, tier string, start time.Time) {
	left := 0
	for _, r := range reports {
		for _, o := range r.Obls {
			if concerns(o, p) && o.Verdict != "unsat" {
				left++
			}
		}
	}
	if left == 0 || left > retryLimit {
		return
	}
	for i := range reports {
		r := &reports[i]
		only := map[string]bool{}
		for _, o := range r.Obls {
			if concerns(o, p) && o.Verdict != "unsat" {
				only[o.Name+" @ "+o.Pos] = true
			}
		}
		if len(only) == 0 || r.Err != "" {
			continue
		}
		b, _ := json.Marshal(only)
		ms := "30000"
		if tier == "thorough" {
			ms = "90000"
		}
		cmd := exec.Command(os.Args[0], "-worker", "-fn", r.Fn, "-repo", *flagRepo, "-specs", filepath.Join(*flagVerif, "contracts"), "-ms", ms)
		cmd.Env = append(os.Environ(), "GOVC_ONLY="+string(b), deadlineAfter(start, tier, 560))
		out, err := cmd.Output()
		var again fnReport
		if err != nil || json.Unmarshal(out, &again) != nil || again.Err != "" {
			continue
		}
		proved := map[string]int{}
		failed := map[string]bool{}
		solver := map[string]string{}
		for _, o := range again.Obls {
			k := o.Name + " @ " + o.Pos
			if o.Verdict == "unsat" {
				proved[k]++
				solver[k] = o.Solver
			} else {
				failed[k] = true
			}
		}
		for j := range r.Obls {
			o := &r.Obls[j]
			k := o.Name + " @ " + o.Pos
			if o.Verdict != "unsat" && proved[k] > 0 && !failed[k] {
				o.Verdict, o.Solver = "unsat", solver[k]
			}
		}
		r.SolveMS += again.SolveMS
		r.Calls += again.Calls
		r.WallMS += again.WallMS
	}
}

// check decides a property.
func check(p string) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var (
		reports []fnReport
		failed  []oblReport
		obls    int
		done    int
		by      = map[string]int{}
		fns     []map[string]any
		trusted = map[string]bool{}
		assume  = map[string]bool{}
		solveMS int64
		calls   int64
	)
	fail := func(fn, name, raw string) {
		obls++
		failed = append(failed, oblReport{Fn: fn, Name: name, Verdict: "failed", Raw: raw})
	}
	s, err := loadSpecs(filepath.Join(*flagVerif, "contracts"))
	if err != nil {
		fail("", "contracts are readable", err.Error())
	}
	var w *World
	if err == nil {
		w, err = load(*flagRepo)
		if err != nil {
			fail("", "source is readable", err.Error())
		} else if err = prepare(w, s); err != nil {
			fail("", "contracts fit the source", err.Error())
		}
	}
	if err == nil {
		var names []string
		for n, c := range s.contracts {
			if hasStr(c.props, p) && !c.trusted {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		reports = make([]fnReport, len(names))
		var wg sync.WaitGroup
		sem := make(chan struct{}, runtime.NumCPU()-1)
		for i, n := range names {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				ms := "10000"
				if tier == "thorough" {
					ms = "60000"
				}
				cmd := exec.Command(os.Args[0], "-worker", "-fn", n, "-repo", *flagRepo, "-specs", filepath.Join(*flagVerif, "contracts"), "-ms", ms)
				cmd.Env = append(os.Environ(), "GOVC_PROP="+p, deadlineAfter(start, tier, 440))
				var eb strings.Builder
				cmd.Stderr = &eb
				out, err := cmd.Output()
				if e2 := json.Unmarshal(out, &reports[i]); e2 != nil {
					reports[i] = fnReport{Fn: n, Err: fmt.Sprintf("verifier failed: %v %v %s", err, e2, trunc(eb.String(), 2000))}
				}
			}()
		}
		wg.Wait()
		retry(reports, p, tier, start)
		for _, o := range s.onlyCalls {
			if !hasStr(o.labels, p) {
				continue
			}
			obls++
			if bad := w.callersOf(o.callee, o.callers); len(bad) > 0 {
				failed = append(failed, oblReport{Name: "only the functions allowed call " + o.callee, Verdict: "failed", Raw: strings.Join(bad, ", ")})
			} else {
				done++
				by["call scan"]++
			}
		}
	}
	for _, r := range reports {
		n, d := 0, 0
		for _, o := range r.Obls {
			if !concerns(o, p) {
				continue
			}
			n++
			if o.Verdict == "unsat" {
				d++
				by[o.Solver]++
			} else {
				failed = append(failed, o)
			}
		}
		obls += n
		done += d
		if r.Err != "" {
			fail(r.Fn, "the function is processed by the verifier", r.Err)
		}
		if r.Vacuous != "" {
			fail(r.Fn, "the assumptions are not contradictory", r.Vacuous)
		}
		if r.Err == "" && n == 0 && len(r.Obls) == 0 {
			fail(r.Fn, "there is something to prove", "no obligations")
		}
		solveMS += r.SolveMS
		calls += r.Calls
		fns = append(fns, map[string]any{"function": r.Fn, "obligations": n, "discharged": d, "paths": r.Paths, "returns_shown_reachable": r.Reached, "wall_ms": r.WallMS})
		for _, u := range r.Used {
			trusted[u] = true
		}
		for _, a := range r.Assumes {
			assume[r.Fn+" assumes: "+a] = true
		}
	}
	if len(reports) == 0 && len(failed) == 0 {
		fail("", "there are contracts for the property", "none")
	}
	var tb []string
	for u := range trusted {
		if n, ok := strings.CutPrefix(u, "contract "); ok && s != nil {
			if c := s.contracts[n]; c != nil && !c.trusted && len(c.props) > 0 {
				// Proved elsewhere: by this check, or by that of another property.
				if !hasStr(c.props, p) {
					tb = append(tb, u+" (proved by the check of "+strings.Join(c.props, ", ")+")")
				}
				continue
			}
			tb = append(tb, u+" (assumed)")
			continue
		}
		tb = append(tb, u)
	}
	sort.Strings(tb)
	tb = append(tb, "govc (the verification-condition generator in /verif/govc)", "golang.org/x/tools/go/ssa v0.22.0", "z3 and cvc5")
	as := []string{
		"integers are mathematical: no overflow",
		"strings are sequences of bytes with the library functions of package strings uninterpreted except on constants and by axioms",
		"memory is as in Go without unsafe; goroutines interact only through the locks and groups modelled",
	}
	for a := range assume {
		as = append(as, a)
	}
	sort.Strings(as[3:])

	// Replay on the real code: a concrete failing input, if there is one.
	var bounded *harnessResult
	violation := ""
	hr := harnessFor(p)
	if len(failed) > 0 || hr.always {
		bounded = runHarness(p, tier, seed)
	}
	os.MkdirAll(filepath.Join(*flagVerif, "evidence"), 0755)
	if len(failed) > 0 || bounded != nil && bounded.failed() {
		violation = filepath.Join(*flagVerif, "evidence", p+".replay.txt")
		writeReplay(violation, p, failed, bounded)
	}
	cov := map[string]any{
		"obligations":      obls,
		"discharged":       done,
		"checker_cmd":      fmt.Sprintf("%s -check %s", filepath.Join(*flagVerif, "govc/govc"), p),
		"trusted_base":     tb,
		"by_back_end":      by,
		"functions":        fns,
		"solver_calls":     calls,
		"solver_time_s":    float64(solveMS) / 1000,
		"functions_proved": len(reports),
	}
	if bounded != nil {
		cov["bounded_runs_on_the_real_code"] = bounded.summary()
	}
	nviol := len(failed)
	if nviol == 0 && violation != "" {
		nviol = 1
	}
	ev := map[string]any{"property": p, "tier": tier, "seed": seed, "level": "proof", "coverage": cov, "assumptions": as, "wall_s": time.Since(start).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*flagVerif, "evidence", p+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
	}
	fmt.Printf("%s: %d functions, %d obligations, %d discharged, %.1f s\n", p, len(reports), obls, done, time.Since(start).Seconds())
	if violation == "" {
		return 0
	}
	for i, o := range failed {
		if i < 15 {
			fmt.Printf("  failed: %s: %s (%s) %s\n", o.Fn, o.Name, o.Pos, trunc(strings.ReplaceAll(o.Raw, "\n", " "), 300))
		}
	}
	if bounded != nil && bounded.failed() {
		fmt.Println("  on the real code: " + trunc(bounded.first(), 600))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p, violation)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", p, violation)
	}
	return 1
}

func writeReplay(path, p string, failed []oblReport, h *harnessResult) {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\n\n", p)
	if h != nil && h.failed() {
		fmt.Fprintf(&b, "Failing input on the real code (rerun with: %s):\n", h.cmd)
		for _, f := range h.fails {
			b.WriteString("  " + f + "\n")
		}
		b.WriteString("\n")
	} else if h != nil {
		fmt.Fprintf(&b, "No failing input was found on the real code (%d cases tried with: %s).\n\n", h.cases, h.cmd)
	}
	for _, o := range failed {
		fmt.Fprintf(&b, "failed obligation: %s: %s\n  at %s\n  verdict: %s (%s)\n", o.Fn, o.Name, o.Pos, o.Verdict, o.Solver)
		if o.Raw != "" {
			b.WriteString("  verifier output: " + strings.ReplaceAll(o.Raw, "\n", "\n    ") + "\n")
		}
		if o.Goal != "" {
			b.WriteString("  goal: " + o.Goal + "\n")
		}
	}
	os.WriteFile(path, []byte(b.String()), 0644)
}
