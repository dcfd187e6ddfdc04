package main

import (
	"path/filepath"
	"strings"
)

// Evaluation of library functions of strings on literals, by the functions themselves,
// and a few identities on concatenations.

func StrCat(a, b *Term) *Term { return fn("strcat", SStr, a, b) }
func StrLen(a *Term) *Term    { return fn("strlen", SInt, a) }

func strParts(t *Term) []*Term {
	if isSym(t, "strcat") {
		return append(strParts(t.Args[0]), strParts(t.Args[1])...)
	}
	return []*Term{t}
}

func litSeq(s *Term) ([]string, bool) {
	var out []string
	for _, p := range seqParts(s) {
		if !isSym(p, "sequnit") || ctorOf(p.Args[0]) != "VStr" || !isLit(p.Args[0].Args[1]) {
			return nil, false
		}
		out = append(out, p.Args[0].Args[1].Name)
	}
	return out, true
}

func foldSym(s *Sym, args []*Term) *Term {
	name := s.Name
	lits := len(args) > 0
	for _, a := range args {
		if !isLit(a) {
			lits = false
		}
	}
	switch name {
	case "strcat":
		a, b := args[0], args[1]
		if isLit(a) && a.Name == "" {
			return b
		}
		if isLit(b) && b.Name == "" {
			return a
		}
		if lits {
			return Lit(a.Name + b.Name)
		}
		if isSym(b, "strcat") {
			return StrCat(StrCat(a, b.Args[0]), b.Args[1])
		}
		if isSym(a, "strcat") && isLit(a.Args[1]) && isLit(b) {
			return StrCat(a.Args[0], Lit(a.Args[1].Name+b.Name))
		}
	case "strlen":
		if lits {
			return Int(int64(len(args[0].Name)))
		}
		if isSym(args[0], "strcat") {
			return Add(StrLen(args[0].Args[0]), StrLen(args[0].Args[1]))
		}
	case "strat":
		if isLit(args[0]) && isInt(args[1]) && args[1].N >= 0 && args[1].N < int64(len(args[0].Name)) {
			return Int(int64(args[0].Name[args[1].N]))
		}
	case "strsub":
		if isInt(args[1]) && args[1].N == 0 && args[2] == StrLen(args[0]) {
			return args[0]
		}
		if isLit(args[0]) && isInt(args[1]) && isInt(args[2]) && args[1].N >= 0 && args[2].N >= 0 && args[1].N+args[2].N <= int64(len(args[0].Name)) {
			return Lit(args[0].Name[args[1].N : args[1].N+args[2].N])
		}
	case "strings.HasPrefix", "strings.TrimPrefix":
		trim := name == "strings.TrimPrefix"
		if !isLit(args[1]) {
			if p := strParts(args[0]); len(p) > 0 && p[0] == args[1] {
				if trim {
					return catAll(p[1:])
				}
				return TTrue
			}
			return nil
		}
		pre := args[1].Name
		p := strParts(args[0])
		if isLit(p[0]) {
			l := p[0].Name
			switch {
			case strings.HasPrefix(l, pre):
				if trim {
					return catAll(append([]*Term{Lit(l[len(pre):])}, p[1:]...))
				}
				return TTrue
			case !strings.HasPrefix(pre, l) || len(p) == 1:
				if trim {
					return args[0]
				}
				return TFalse
			}
		}
		if pre == "" {
			if trim {
				return args[0]
			}
			return TTrue
		}
	case "strings.HasSuffix":
		if isLit(args[1]) {
			p := strParts(args[0])
			if l := p[len(p)-1]; isLit(l) && (len(p) == 1 || len(l.Name) >= len(args[1].Name)) {
				return Bool(strings.HasSuffix(l.Name, args[1].Name))
			}
		}
	case "strings.Contains":
		if lits {
			return Bool(strings.Contains(args[0].Name, args[1].Name))
		}
		if isLit(args[1]) {
			for _, p := range strParts(args[0]) {
				if isLit(p) && strings.Contains(p.Name, args[1].Name) {
					return TTrue
				}
			}
		}
	case "strings.TrimLeft":
		if lits {
			return Lit(strings.TrimLeft(args[0].Name, args[1].Name))
		}
	case "strings.TrimSpace":
		if lits {
			return Lit(strings.TrimSpace(args[0].Name))
		}
	case "filepath.IsAbs":
		if lits {
			return Bool(filepath.IsAbs(args[0].Name))
		}
	case "filepath.Base":
		if lits {
			return Lit(filepath.Base(args[0].Name))
		}
	case "filepath.Dir":
		if lits {
			return Lit(filepath.Dir(args[0].Name))
		}
	case "filepath.Join":
		if ss, ok := litSeq(args[0]); ok {
			return Lit(filepath.Join(ss...))
		}
	}
	return nil
}

func catAll(ps []*Term) *Term {
	t := Lit("")
	for _, p := range ps {
		t = StrCat(t, p)
	}
	return t
}
