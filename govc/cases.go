package main

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"
)

// Proof by cases, for obligations of merged paths:
// the conditions by which values were chosen are decided one after the other,
// until the solver is done with each case.

type caseProof struct {
	budget int64
	ms     int
	start  time.Time
	solver string
}

func proveCases(facts []*Term, goal *Term, ms int) Result {
	p := &caseProof{budget: 400, ms: 1500, start: time.Now(), solver: "z3-new"}
	if p.prove(facts, goal, 0) {
		return Result{Verdict: "unsat", Solver: p.solver + " (cases)", Time: time.Since(p.start)}
	}
	return Result{Verdict: "unknown", Solver: p.solver + " (cases)", Time: time.Since(p.start)}
}

func (p *caseProof) prove(facts []*Term, goal *Term, depth int) bool {
	if atomic.AddInt64(&p.budget, -1) < 0 || time.Since(p.start) > 90*time.Second {
		return false
	}
	for _, f := range facts {
		if f == TFalse || f == goal {
			return true
		}
	}
	if goal == TTrue {
		return true
	}
	if depth > 0 && infeasible(facts) {
		return true
	}
	c := splitOn(goal)
	if depth > 0 && (c == nil || depth%2 == 0) {
		ms := p.ms
		if c == nil {
			ms = 2 * p.ms
		}
		if prove(facts, goal, ms, false).Verdict == "unsat" {
			return true
		}
	}
	if c == nil {
		for i := len(facts) - 1; i >= 0 && c == nil; i-- {
			c = splitOn(facts[i])
		}
	}
	if c == nil || depth >= 14 {
		return false
	}
	ok := true
	for _, x := range []*Term{c, Not(c)} {
		m := map[*Term]*Term{c: TTrue}
		if x != c {
			m[c] = TFalse
		} else if c.Op == "=" {
			a, b := c.Args[0], c.Args[1]
			if isConstTerm(b) && !isConstTerm(a) {
				m[a] = b
			} else if isConstTerm(a) && !isConstTerm(b) {
				m[b] = a
			}
		}
		fs := []*Term{x}
		seen := map[*Term]bool{x: true}
		var add func(t *Term)
		add = func(t *Term) {
			if t.Op == "and" {
				for _, a := range t.Args {
					add(a)
				}
				return
			}
			if t != TTrue && !seen[t] {
				seen[t] = true
				fs = append(fs, t)
			}
		}
		cache := map[*Term]*Term{}
		for _, f := range facts {
			add(substC(f, m, cache))
		}
		g := substC(goal, m, cache)
		if !p.prove(fs, g, depth+1) {
			ok = false
			break
		}
	}
	return ok
}

// splitOn returns a condition that decides a choice in a term.
func splitOn(t *Term) *Term {
	seen := map[*Term]bool{}
	var find func(t *Term) *Term
	find = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		if t.Op == "ite" && !t.Args[0].bv {
			if c := find(t.Args[0]); c != nil {
				return c
			}
			return atom(t.Args[0])
		}
		for _, a := range t.Args {
			if c := find(a); c != nil {
				return c
			}
		}
		return nil
	}
	return find(t)
}

func atom(c *Term) *Term {
	for (c.Op == "and" || c.Op == "or" || c.Op == "not" || c.Op == "=>") && len(c.Args) > 0 {
		c = c.Args[0]
	}
	return c
}

// proveParts proves the conjuncts of a goal one by one, under the hypotheses above them.
func proveParts(facts []*Term, goal *Term, ms int) (Result, bool) {
	type part struct {
		hyps []*Term
		goal *Term
	}
	var parts []part
	var split func(hyps []*Term, g *Term)
	split = func(hyps []*Term, g *Term) {
		hyps = hyps[:len(hyps):len(hyps)]
		switch {
		case g.Op == "and":
			for _, a := range g.Args {
				split(hyps, a)
			}
		case g.Op == "or":
			// The disjunct with structure is the goal; the others are hypotheses, negated.
			at := -1
			for i, a := range g.Args {
				if a.Op == "and" || a.Op == "=>" || a.Op == "or" || a.Op == "forall" {
					at = i
				}
			}
			if at < 0 {
				parts = append(parts, part{hyps, g})
				return
			}
			for i, a := range g.Args {
				if i != at {
					hyps = append(hyps, Not(a))
				}
			}
			split(hyps, g.Args[at])
		case g.Op == "=>":
			split(append(hyps, g.Args[0]), g.Args[1])
		case g.Op == "not" && g.Args[0].Op == "or":
			for _, a := range g.Args[0].Args {
				split(hyps, Not(a))
			}
		case g.Op == "not" && g.Args[0].Op == "=>":
			split(hyps, g.Args[0].Args[0])
			split(hyps, Not(g.Args[0].Args[1]))
		case g.Op == "ite" && g.S == SBool:
			split(append(hyps, g.Args[0]), g.Args[1])
			split(append(hyps[:len(hyps):len(hyps)], Not(g.Args[0])), g.Args[2])
		case g.Op == "=" && g.Args[0].S == SBool:
			split(append(hyps, g.Args[0]), g.Args[1])
			split(append(hyps[:len(hyps):len(hyps)], g.Args[1]), g.Args[0])
		default:
			parts = append(parts, part{hyps, g})
		}
	}
	split(nil, goal)
	if len(parts) < 2 || len(parts) > 30 {
		return Result{}, false
	}
	start := time.Now()
	solver := ""
	for _, p := range parts {
		r := prove(append(append([]*Term(nil), facts...), p.hyps...), p.goal, ms, true)
		if r.Verdict != "unsat" {
			if os.Getenv("GOVC_GOAL") != "" {
				fmt.Println("part not proved:", p.goal)
			}
			return Result{}, false
		}
		if r.Solver != "simplifier" || solver == "" {
			solver = r.Solver
		}
	}
	return Result{Verdict: "unsat", Solver: solver, Time: time.Since(start)}, true
}
