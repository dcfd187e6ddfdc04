package main

import (
	"fmt"
	"strconv"
	"strings"
)

// A few SQL statements on one table, given meaning as relations between the state before and after:
//
//	INSERT INTO t (c, …) VALUES (e, …) [ON CONFLICT [(key)] DO UPDATE SET c = e [WHERE cond] | DO NOTHING]
//	UPDATE t SET c = e [WHERE cond]
//	DELETE FROM t [WHERE cond]
//	SELECT COUNT(*) FROM t [WHERE cond]
//
// The table is the one of sqlite/schema.sql: a key column hash and an integer column unix_secs.
// The state is kept by the ghost variables rows (which keys there are) and stamps (their integers).

type sqlParser struct {
	toks []string
	pos  int
	key  string // how the key of the row under consideration is written
	stmp string // how its integer is written
	excl string // how the integer of the row not inserted is written
}

type sqlErr string

func sqlTokens(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			i++
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_':
			j := i
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, strings.ToLower(s[i:j]))
			i = j
		case c >= '0' && c <= '9' || (c == '$' || c == '?') && i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9':
			j := i + 1
			for j < len(s) && s[j] >= '0' && s[j] <= '9' {
				j++
			}
			out = append(out, strings.Replace(s[i:j], "?", "$", 1))
			i = j
		default:
			if i+1 < len(s) {
				switch s[i : i+2] {
				case "<=", ">=", "<>", "!=", "==":
					out = append(out, s[i:i+2])
					i += 2
					continue
				}
			}
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func (p *sqlParser) peek() string {
	if p.pos < len(p.toks) {
		return p.toks[p.pos]
	}
	return ""
}

func (p *sqlParser) next() string { t := p.peek(); p.pos++; return t }

func (p *sqlParser) accept(ts ...string) bool {
	for i, t := range ts {
		if p.pos+i >= len(p.toks) || p.toks[p.pos+i] != t {
			return false
		}
	}
	p.pos += len(ts)
	return true
}

func (p *sqlParser) want(ts ...string) {
	for _, t := range ts {
		if p.next() != t {
			panic(sqlErr("expected " + t))
		}
	}
}

// expr yields an expression of the specification language and whether it is of the kind of keys.
// The kind of a parameter is given by what it is compared with or stored in.
func (p *sqlParser) atom(key bool) (string, string) {
	t := p.next()
	switch {
	case t == "(":
		s, k := p.sum(key)
		p.want(")")
		return s, k
	case strings.HasPrefix(t, "$"):
		n, _ := strconv.Atoi(t[1:])
		if n < 1 {
			panic(sqlErr("parameter"))
		}
		return fmt.Sprintf("\x00%d\x00", n), ""
	case t != "" && t[0] >= '0' && t[0] <= '9':
		return t, "int"
	case t == "hash":
		return p.key, "key"
	case t == "unix_secs":
		return p.stmp, "int"
	case t == "hashes" && p.accept(".", "hash"):
		return p.key, "key"
	case t == "hashes" && p.accept(".", "unix_secs"):
		return p.stmp, "int"
	case t == "excluded" && p.accept(".", "unix_secs") && p.excl != "":
		return p.excl, "int"
	}
	panic(sqlErr("expression " + t))
}

func (p *sqlParser) sum(key bool) (string, string) {
	s, k := p.atom(key)
	for p.peek() == "+" || p.peek() == "-" {
		op := p.next()
		t, _ := p.atom(key)
		s, k = "("+param(s, "int")+" "+op+" "+param(t, "int")+")", "int"
	}
	return s, k
}

// param fills in a parameter of the given kind.
func param(s, kind string) string {
	if n, ok := strings.CutPrefix(s, "\x00"); ok && strings.Count(s, "\x00") == 2 {
		i, _ := strconv.Atoi(strings.TrimSuffix(n, "\x00"))
		if kind == "key" {
			return fmt.Sprintf("str(as(seq(args)[%d], []byte))", i-1)
		}
		return fmt.Sprintf("as(seq(args)[%d], int64)", i-1)
	}
	return s
}

func (p *sqlParser) cmp() string {
	if p.accept("not") {
		return "!(" + p.cmp() + ")"
	}
	if p.peek() == "(" {
		p.pos++
		s := p.cond()
		p.want(")")
		return "(" + s + ")"
	}
	a, ka := p.sum(false)
	op := p.next()
	switch op {
	case "=", "==", "is":
		op = "=="
	case "<>", "!=":
		op = "!="
	case "<", "<=", ">", ">=":
	default:
		panic(sqlErr("operator " + op))
	}
	b, kb := p.sum(false)
	k := ka
	if k == "" {
		k = kb
	}
	if k == "" || ka != "" && kb != "" && ka != kb || k == "key" && op != "==" && op != "!=" {
		panic(sqlErr("comparison"))
	}
	return "(" + param(a, k) + " " + op + " " + param(b, k) + ")"
}

func (p *sqlParser) conj() string {
	s := p.cmp()
	for p.accept("and") {
		s = "(" + s + " && " + p.cmp() + ")"
	}
	return s
}

func (p *sqlParser) cond() string {
	s := p.conj()
	for p.accept("or") {
		s = "(" + s + " || " + p.conj() + ")"
	}
	return s
}

func (p *sqlParser) where() string {
	if p.accept("where") {
		return p.cond()
	}
	return "true"
}

// sqlMeaning is the meaning of a statement that succeeds (ok), and the condition under which it fails
// although the database works (conflict).
func sqlMeaning(q string) (ok, conflict string, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, is := r.(sqlErr)
			if !is {
				panic(r)
			}
			err = fmt.Errorf("%s", string(e))
		}
	}()
	p := &sqlParser{toks: sqlTokens(q), key: "h", stmp: "old(stamps)[h]"}
	conflict = "false"
	same := "rows == old(rows) && stamps == old(stamps)"
	switch {
	case p.accept("update", "hashes", "set", "unix_secs", "="):
		e, _ := p.sum(false)
		w := p.where()
		ok = "rows == old(rows)" +
			" && (forall h: str :: {stamps[h]} stamps[h] == ite(old(rows)[h] && " + w + ", " + param(e, "int") + ", old(stamps)[h]))" +
			" && affected >= 0" +
			" && (forall h: str :: {old(rows)[h]} old(rows)[h] && " + w + " ==> affected > 0)" +
			" && (affected > 0 ==> (exists h: str :: {old(rows)[h]} old(rows)[h] && " + w + "))"
	case p.accept("delete", "from", "hashes"):
		w := p.where()
		ok = "(forall h: str :: {rows[h]} {old(rows)[h]} rows[h] == (old(rows)[h] && !" + w + ")) && stamps == old(stamps)" +
			" && affected >= 0" +
			" && (forall h: str :: {old(rows)[h]} old(rows)[h] && " + w + " ==> affected > 0)" +
			" && (affected > 0 ==> (exists h: str :: {old(rows)[h]} old(rows)[h] && " + w + "))"
	case p.accept("select", "count", "(", "*", ")", "from", "hashes"), p.accept("select", "count", "(", "hash", ")", "from", "hashes"):
		w := p.where()
		ok = same + " && affected >= 0" +
			" && (forall h: str :: {old(rows)[h]} old(rows)[h] && " + w + " ==> affected > 0)" +
			" && (affected > 0 ==> (exists h: str :: {old(rows)[h]} old(rows)[h] && " + w + "))"
	case p.accept("insert"):
		mode := ""
		if p.accept("or") {
			mode = p.next()
		}
		p.want("into", "hashes")
		cols := []string{"hash", "unix_secs"}
		if p.accept("(") {
			cols = []string{p.next()}
			for p.accept(",") {
				cols = append(cols, p.next())
			}
			p.want(")")
		}
		p.want("values", "(")
		var vals []string
		for i := range cols {
			if i > 0 {
				p.want(",")
			}
			p.key, p.stmp = "\x01", "\x01" // there is no row to speak of
			e, _ := p.sum(false)
			vals = append(vals, e)
		}
		p.want(")")
		key, stamp := "", ""
		for i, c := range cols {
			switch {
			case c == "hash" && key == "":
				key = param(vals[i], "key")
			case c == "unix_secs" && stamp == "":
				stamp = param(vals[i], "int")
			default:
				panic(sqlErr("column " + c))
			}
		}
		if key == "" || stamp == "" || strings.Contains(key+stamp, "\x01") {
			panic(sqlErr("columns"))
		}
		p.key, p.stmp, p.excl = key, "old(stamps)["+key+"]", stamp
		upd := ""
		switch {
		case mode == "replace":
			upd = stamp
		case mode == "ignore":
			upd = p.stmp
		case mode != "":
			panic(sqlErr(mode))
		case p.accept("on", "conflict"):
			if p.accept("(") {
				p.want("hash", ")")
			}
			p.want("do")
			if p.accept("nothing") {
				upd = p.stmp
				break
			}
			p.want("update", "set", "unix_secs", "=")
			e, _ := p.sum(false)
			w := p.where()
			upd = "ite(" + w + ", " + param(e, "int") + ", " + p.stmp + ")"
		default:
			conflict = "old(rows)[" + key + "]"
			upd = p.stmp
		}
		ok = "(forall h: str :: {rows[h]} rows[h] == (old(rows)[h] || h == " + key + "))" +
			" && (forall h: str :: {stamps[h]} stamps[h] == ite(h == " + key + ", ite(old(rows)[" + key + "], " + upd + ", " + stamp + "), old(stamps)[h]))" +
			" && !(" + conflict + ")"
	default:
		panic(sqlErr("statement"))
	}
	if p.pos != len(p.toks) {
		panic(sqlErr("rest of statement: " + p.peek()))
	}
	return ok, conflict, nil
}

// sqlExec is the builtin sqlok(q) or sqlconflict(q), in the declaration of a function with a parameter args.
func (ev *Eval) sqlExec(e *Expr) SV {
	q := ev.expr(e.args[0]).L[0]
	if !isLit(q) {
		// An unknown statement: nothing is known of what it does.
		return raw(ev.v.fresh(ev.st, "sql", SBool))
	}
	ok, conflict, err := sqlMeaning(q.Name)
	if err != nil {
		return raw(ev.v.fresh(ev.st, "sql", SBool))
	}
	if e.name == "sqlok" {
		return ev.expr(parseExpr(ok))
	}
	return ev.expr(parseExpr(conflict))
}
