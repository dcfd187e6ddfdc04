package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---- expressions of the contract language

type Expr struct {
	op   string // int str bool nil id call sel index slice forall exists deref ! neg + - * == != < <= > >= && || ==> <==> type
	name string
	n    int64
	args []*Expr
	vars []qvar
	pats [][]*Expr
	typ  string
}

type qvar struct{ name, typ string }

type token_ struct {
	kind string // id, int, str, op, eof
	text string
}

type lexer struct {
	toks []token_
	i    int
	src  string
}

func lex(src string) ([]token_, error) {
	var out []token_
	rs := []rune(src)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_') {
				j++
			}
			out = append(out, token_{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, token_{"int", string(rs[i:j])})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) {
				return nil, fmt.Errorf("unterminated string in %q", src)
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				return nil, err
			}
			out = append(out, token_{"str", s})
			i = j + 1
		default:
			op := ""
			for _, o := range []string{"<==>", "==>", ":=", "::", "==", "!=", "<=", ">=", "&&", "||"} {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					op = o
					break
				}
			}
			if op == "" {
				op = string(c)
			}
			out = append(out, token_{"op", op})
			i += len([]rune(op))
		}
	}
	return append(out, token_{"eof", ""}), nil
}

type specErr string

func (l *lexer) fail(f string, args ...any) {
	panic(specErr(fmt.Sprintf(f, args...) + " in " + l.src))
}
func (l *lexer) peek() token_ { return l.toks[l.i] }
func (l *lexer) next() token_ { t := l.toks[l.i]; l.i++; return t }
func (l *lexer) isOp(s string) bool {
	return l.toks[l.i].kind == "op" && l.toks[l.i].text == s
}
func (l *lexer) accept(s string) bool {
	if l.isOp(s) {
		l.i++
		return true
	}
	return false
}
func (l *lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q, found %q", s, l.peek().text)
	}
}

func newLexer(src string) *lexer {
	toks, err := lex(src)
	if err != nil {
		panic(specErr(err.Error()))
	}
	return &lexer{toks: toks, src: src}
}

func parseExpr(src string) *Expr {
	l := newLexer(src)
	e := l.expr()
	if l.peek().kind != "eof" {
		l.fail("unexpected %q", l.peek().text)
	}
	return e
}

func (l *lexer) expr() *Expr {
	if t := l.peek(); t.kind == "id" && (t.text == "forall" || t.text == "exists") {
		l.next()
		e := &Expr{op: t.text}
		for {
			n := l.next()
			if n.kind != "id" {
				l.fail("variable expected, found %q", n.text)
			}
			l.expect(":")
			typ := l.typeText(",", "::")
			e.vars = append(e.vars, qvar{n.text, typ})
			if l.accept("::") {
				break
			}
			l.expect(",")
		}
		for l.accept("{") {
			var ps []*Expr
			for {
				ps = append(ps, l.expr())
				if l.accept("}") {
					break
				}
				l.expect(",")
			}
			e.pats = append(e.pats, ps)
		}
		e.args = []*Expr{l.expr()}
		return e
	}
	a := l.iff()
	if l.accept("==>") {
		return &Expr{op: "==>", args: []*Expr{a, l.expr()}}
	}
	return a
}

func (l *lexer) iff() *Expr {
	a := l.or()
	for l.accept("<==>") {
		a = &Expr{op: "<==>", args: []*Expr{a, l.or()}}
	}
	return a
}

func (l *lexer) or() *Expr {
	a := l.and()
	for l.accept("||") {
		a = &Expr{op: "||", args: []*Expr{a, l.and()}}
	}
	return a
}

func (l *lexer) and() *Expr {
	a := l.cmp()
	for l.accept("&&") {
		if t := l.peek(); t.kind == "id" && (t.text == "forall" || t.text == "exists") {
			a = &Expr{op: "&&", args: []*Expr{a, l.expr()}}
			continue
		}
		a = &Expr{op: "&&", args: []*Expr{a, l.cmp()}}
	}
	return a
}

func (l *lexer) cmp() *Expr {
	a := l.sum()
	var out *Expr
	for {
		t := l.peek()
		if t.kind != "op" {
			break
		}
		switch t.text {
		case "==", "!=", "<", "<=", ">", ">=":
			l.next()
			b := l.sum()
			c := &Expr{op: t.text, args: []*Expr{a, b}}
			if out == nil {
				out = c
			} else {
				out = &Expr{op: "&&", args: []*Expr{out, c}}
			}
			a = b
			continue
		}
		break
	}
	if out != nil {
		return out
	}
	return a
}

func (l *lexer) sum() *Expr {
	a := l.mul()
	for {
		if l.accept("+") {
			a = &Expr{op: "+", args: []*Expr{a, l.mul()}}
		} else if l.accept("-") {
			a = &Expr{op: "-", args: []*Expr{a, l.mul()}}
		} else {
			return a
		}
	}
}

func (l *lexer) mul() *Expr {
	a := l.unary()
	for l.accept("*") {
		a = &Expr{op: "*", args: []*Expr{a, l.unary()}}
	}
	return a
}

func (l *lexer) unary() *Expr {
	switch {
	case l.accept("!"):
		return &Expr{op: "!", args: []*Expr{l.unary()}}
	case l.accept("-"):
		return &Expr{op: "neg", args: []*Expr{l.unary()}}
	case l.accept("*"):
		return &Expr{op: "deref", args: []*Expr{l.unary()}}
	}
	return l.postfix()
}

var typeArgFuncs = map[string]int{"is": 1, "as": 1, "elems": 1, "zero": 0, "tag": 0, "wrap": 0, "new": 0}

func (l *lexer) postfix() *Expr {
	var a *Expr
	t := l.next()
	switch t.kind {
	case "int":
		n, _ := strconv.ParseInt(t.text, 10, 64)
		a = &Expr{op: "int", n: n}
	case "str":
		a = &Expr{op: "str", name: t.text}
	case "id":
		switch t.text {
		case "true", "false":
			a = &Expr{op: "bool", name: t.text}
		case "nil":
			a = &Expr{op: "nil"}
		default:
			a = &Expr{op: "id", name: t.text}
		}
	case "op":
		if t.text == "(" {
			a = l.expr()
			l.expect(")")
		} else {
			l.fail("unexpected %q", t.text)
		}
	default:
		l.fail("unexpected end")
	}
	for {
		switch {
		case l.accept("."):
			n := l.next()
			if n.kind == "op" && n.text == "(" {
				typ := l.typeText(")")
				l.expect(")")
				a = &Expr{op: "call", name: "as", args: []*Expr{a}, typ: typ}
				continue
			}
			a = &Expr{op: "sel", name: n.text, args: []*Expr{a}}
		case l.accept("["):
			if l.accept(":") {
				hi := l.expr()
				l.expect("]")
				a = &Expr{op: "slice", args: []*Expr{a, {op: "int"}, hi}}
				continue
			}
			i := l.expr()
			if l.accept(":") {
				var hi *Expr
				if !l.isOp("]") {
					hi = l.expr()
				}
				l.expect("]")
				a = &Expr{op: "slice", args: []*Expr{a, i, hi}}
				continue
			}
			l.expect("]")
			a = &Expr{op: "index", args: []*Expr{a, i}}
		case l.accept("("):
			name := ""
			switch {
			case a.op == "id":
				name = a.name
			case a.op == "sel" && a.args[0].op == "id":
				name = a.args[0].name + "." + a.name
			default:
				l.fail("call of an expression")
			}
			c := &Expr{op: "call", name: name}
			ti, hasType := typeArgFuncs[name]
			for i := 0; !l.accept(")"); i++ {
				if i > 0 {
					l.expect(",")
				}
				if hasType && i == ti {
					c.typ = l.typeText(",", ")")
					continue
				}
				c.args = append(c.args, l.expr())
			}
			a = c
		default:
			return a
		}
	}
}

// typeText reads the text of a type up to one of the given tokens.
func (l *lexer) typeText(ends ...string) string {
	var sb strings.Builder
	depth := 0
	for {
		t := l.peek()
		if t.kind == "eof" {
			return sb.String()
		}
		if depth == 0 && t.kind == "op" {
			for _, e := range ends {
				if t.text == e {
					return sb.String()
				}
			}
		}
		switch t.text {
		case "(", "[", "{":
			depth++
		case ")", "]", "}":
			depth--
		}
		if t.kind == "id" && sb.Len() > 0 && isWordEnd(sb.String()) {
			sb.WriteByte(' ')
		}
		sb.WriteString(t.text)
		l.next()
	}
}

func isWordEnd(s string) bool {
	c := s[len(s)-1]
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_'
}

// ---- specification files

type Clause struct {
	text   string
	name   string
	e      *Expr
	labels []string
	local  bool
	forVar string
	forTyp string
	where  string
}

type ghostUpd struct {
	name string
	idx  *Expr
	e    *Expr
	cond *Expr
}

// Contract is the contract of a function of the repository, or of a function type or interface method.
type Contract struct {
	name       string
	props      []string
	inline     bool
	fresh      bool
	allocs     bool
	trusted    bool
	noframe    bool
	concurrent bool
	modifies   []string
	requires   []*Clause
	ensures    []*Clause
	invariants []*Clause
	goEnsures  []*Clause
	lets       map[string]*Expr
	ghosts     []*ghostUpd
	results    []string
	nopanic    []string
	concLabels []string
	assumes    []*Clause
	maxPaths   int
	merge      bool
	timeout    int
	file       string
	why        string
	safe       map[string]string // purity etc. notes
}

type extern struct {
	name      string
	kind      string
	params    []string
	results   []string
	requires  []*Clause
	ensures   []*Clause
	ghosts    []*ghostUpd
	modifies  []string
	eventArgs []*Expr
	event     string
	trace     string
	noreturn  bool
	lets      map[string]*Expr
	isFresh   bool
	isNew     bool // the result is a new object, never nil
}

type defn struct {
	params []qvar
	body   *Expr
	res    string
	// The parts of the state that a recursive definition reads.
	reads []heapName
}

type heapName struct {
	name string
	sort Sort
}

type monitorDef struct {
	typ, mu string
	fields  []string
}

// Monitor is a lock and what it protects.
type Monitor struct {
	typ    string
	mu     string
	fields map[string]bool
}

type Specs struct {
	claims    *claims
	immutable map[string]bool
	externs   map[string]*extern
	contracts map[string]*Contract
	defs      map[string]*defn
	recs      map[string]*defn
	logics    map[string]*logicFn
	ghosts    map[string]Sort
	monitors  []*Monitor
	axioms    []*Clause
	immFields map[string]bool
	guards    []*guardDef
	onlyCalls []*onlyCall
}

type onlyCall struct {
	callee  string
	callers map[string]bool
	labels  []string
}

type guardDef struct {
	field     string // "fab.outcome.err"
	rd, wr    *Expr
	labels    []string
	rtxt, wtx string
}

type logicFn struct {
	name string
	args []string
	res  string
}

var itemWords = map[string]bool{"immutable": true, "extern": true, "axiom": true, "define": true, "rec": true, "monitor": true, "guard": true, "func": true, "impl": true, "claims": true, "logic": true, "ghost": true, "only": true}
var clauseWords = map[string]bool{"property": true, "requires": true, "ensures": true, "modifies": true, "invariant": true, "nopanic": true, "fresh": true, "allocs": true, "inline": true, "concurrent": true, "trusted": true, "noframe": true, "let": true, "results": true, "update": true, "event": true, "channel": true, "noreturn": true, "paths": true, "goensures": true, "conc": true, "assume": true, "read": true, "write": true, "timeout": true, "rely": true, "labels": true, "why": true, "publishes": true, "runs": true, "opens": true, "awaits": true, "outcome": true, "settled": true, "merge": true}

func loadSpecs(dir string) (s *Specs, err error) {
	s = &Specs{immutable: map[string]bool{}, externs: map[string]*extern{}, contracts: map[string]*Contract{}, defs: map[string]*defn{}, recs: map[string]*defn{}, logics: map[string]*logicFn{}, ghosts: map[string]Sort{}, immFields: map[string]bool{}}
	s.ghosts["trace"] = SSeq
	s.ghosts["world"] = SInt
	s.ghosts["opens"] = SSeq
	s.ghosts["top"] = SInt
	files, err := filepath.Glob(filepath.Join(dir, "*.gospec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	cur := ""
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", cur, string(e))
				return
			}
			panic(r)
		}
	}()
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		var item []string // first line then clauses
		flush := func() {
			if len(item) > 0 {
				s.item(item, filepath.Base(f))
			}
			item = nil
		}
		for i, line := range strings.Split(string(b), "\n") {
			cur = fmt.Sprintf("%s:%d", filepath.Base(f), i+1)
			if j := strings.Index(line, "//"); j >= 0 && strings.Count(line[:j], `"`)%2 == 0 {
				line = line[:j]
			}
			t := strings.TrimSpace(line)
			if t == "" {
				continue
			}
			w := t
			if j := strings.IndexAny(t, " \t"); j >= 0 {
				w = t[:j]
			}
			indented := line[0] == ' ' || line[0] == '\t'
			switch {
			case !indented && itemWords[w]:
				flush()
				item = []string{t}
			case len(item) == 0:
				panic(specErr("unexpected line: " + t))
			case clauseWords[w]:
				item = append(item, t)
			default:
				item[len(item)-1] += " " + t
			}
		}
		flush()
	}
	return s, nil
}

func cutWord(s string) (string, string) {
	s = strings.TrimSpace(s)
	if i := strings.IndexAny(s, " \t"); i >= 0 {
		return s[:i], strings.TrimSpace(s[i:])
	}
	return s, ""
}

func (s *Specs) item(lines []string, file string) {
	w, rest := cutWord(lines[0])
	switch w {
	case "immutable":
		for _, t := range strings.Fields(rest) {
			if strings.Count(t, ".") > 1 {
				s.immFields[t] = true
			} else {
				s.immutable[t] = true
			}
		}
	case "ghost":
		n, so := cutWord(rest)
		s.ghosts[n] = specSort(so)
	case "logic":
		l := newLexer(rest)
		lf := &logicFn{name: l.next().text}
		for l.accept(".") {
			lf.name += "." + l.next().text
		}
		l.expect("(")
		for !l.accept(")") {
			if len(lf.args) > 0 {
				l.expect(",")
			}
			lf.args = append(lf.args, l.typeText(",", ")"))
		}
		l.expect(":")
		lf.res = l.typeText()
		s.logics[lf.name] = lf
	case "axiom":
		s.axioms = append(s.axioms, &Clause{text: rest, e: parseExpr(rest)})
	case "define", "rec":
		l := newLexer(rest)
		name := l.next().text
		d := &defn{}
		l.expect("(")
		for !l.accept(")") {
			if len(d.params) > 0 {
				l.expect(",")
			}
			q := qvar{name: l.next().text}
			if l.accept(":") {
				q.typ = l.typeText(",", ")")
			}
			d.params = append(d.params, q)
		}
		if l.accept(":") {
			d.res = l.typeText("=")
		}
		l.expect("=")
		d.body = l.expr()
		if l.peek().kind != "eof" {
			l.fail("unexpected %q", l.peek().text)
		}
		if w == "rec" {
			s.recs[name] = d
		} else {
			s.defs[name] = d
		}
	case "monitor":
		// monitor fab.Controller.mu guards a b c
		f := strings.Fields(rest)
		i := strings.LastIndex(f[0], ".")
		m := &Monitor{typ: f[0][:i], mu: f[0][i+1:], fields: map[string]bool{}}
		for _, x := range f[2:] {
			m.fields[x] = true
		}
		s.monitors = append(s.monitors, m)
	case "guard":
		g := &guardDef{field: rest}
		for _, ln := range lines[1:] {
			cw, r := cutWord(ln)
			switch cw {
			case "read":
				g.rd, g.rtxt = parseExpr(r), r
			case "write":
				g.wr, g.wtx = parseExpr(r), r
			case "labels":
				g.labels = strings.Fields(r)
			default:
				panic(specErr("clause " + ln))
			}
		}
		s.guards = append(s.guards, g)
	case "only":
		// only F G calls H
		i := strings.Index(rest, " calls ")
		lab, r := takeLabels(rest[i+7:])
		o := &onlyCall{callee: strings.TrimSpace(r), callers: map[string]bool{}, labels: lab}
		for _, c := range strings.Fields(rest[:i]) {
			o.callers[c] = true
		}
		s.onlyCalls = append(s.onlyCalls, o)
	case "claims":
		s.claimsItem(rest, lines[1:])
	case "func", "impl":
		if w == "impl" {
			// The contract of the body, where callers rely on an abstraction of it.
			rest = "impl " + rest
		}
		c := &Contract{name: rest, lets: map[string]*Expr{}, file: file}
		for _, ln := range lines[1:] {
			s.clause(c, ln)
		}
		if s.contracts[c.name] != nil {
			panic(specErr("second contract for " + c.name))
		}
		s.contracts[c.name] = c
	case "extern":
		kind, r := cutWord(rest)
		d := &extern{kind: kind, lets: map[string]*Expr{}}
		// name(params) (results)
		if j := strings.Index(r, " ("); j >= 0 {
			d.results = names(r[j+1:])
			r = r[:j]
		}
		if strings.HasSuffix(r, ")") {
			j := strings.LastIndex(r, "(")
			if j > 0 && r[j-1] != '.' {
				d.params = names(r[j:])
				r = r[:j]
			}
		}
		d.name = r
		for _, ln := range lines[1:] {
			s.externClause(d, ln)
		}
		s.externs[d.name] = d
	default:
		panic(specErr("item " + lines[0]))
	}
}

func names(s string) []string {
	s = strings.Trim(strings.TrimSpace(s), "()")
	var out []string
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			out = append(out, x)
		}
	}
	return out
}

// takeLabels cuts "[C01,C02]" off the front.
func takeLabels(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[") {
		i := strings.Index(s, "]")
		return strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ',' || r == ' ' }), strings.TrimSpace(s[i+1:])
	}
	return nil, s
}

func parseClause(s string) *Clause {
	c := &Clause{}
	c.labels, s = takeLabels(s)
	if strings.HasPrefix(s, "local ") {
		c.local = true
		s = strings.TrimSpace(s[6:])
	}
	if strings.HasPrefix(s, `"`) {
		if j := strings.Index(s[1:], `": `); j >= 0 {
			c.name = s[1 : j+1]
			s = strings.TrimSpace(s[j+3:])
		}
	}
	if strings.HasPrefix(s, "for ") {
		i := strings.Index(s, "::")
		h := s[4:i]
		j := strings.Index(h, ":")
		c.forVar = strings.TrimSpace(h[:j])
		c.forTyp = strings.TrimSpace(h[j+1:])
		s = strings.TrimSpace(s[i+2:])
	}
	c.text = s
	if c.name != "" {
		c.text = c.name
	}
	c.e = parseExpr(s)
	return c
}

func parseUpdate(s string) *ghostUpd {
	g := &ghostUpd{}
	if i := strings.Index(s, " when "); i >= 0 {
		g.cond = parseExpr(s[i+6:])
		s = s[:i]
	}
	i := strings.Index(s, ":=")
	if i < 0 {
		panic(specErr("update " + s))
	}
	lhs := strings.TrimSpace(s[:i])
	if j := strings.Index(lhs, "["); j >= 0 {
		g.idx = parseExpr(strings.TrimSuffix(lhs[j+1:], "]"))
		lhs = lhs[:j]
	}
	g.name = lhs
	g.e = parseExpr(s[i+2:])
	return g
}

func parseLet(m map[string]*Expr, s string) {
	i := strings.Index(s, "=")
	m[strings.TrimSpace(s[:i])] = parseExpr(s[i+1:])
}

func (s *Specs) clause(c *Contract, ln string) {
	w, r := cutWord(ln)
	switch w {
	case "property":
		c.props = append(c.props, strings.Fields(r)...)
	case "requires":
		c.requires = append(c.requires, parseClause(r))
	case "ensures":
		c.ensures = append(c.ensures, parseClause(r))
	case "assume":
		c.assumes = append(c.assumes, parseClause(r))
	case "goensures":
		c.goEnsures = append(c.goEnsures, parseClause(r))
	case "invariant":
		c.invariants = append(c.invariants, parseClause(r))
	case "modifies":
		c.modifies = append(c.modifies, strings.Fields(r)...)
	case "nopanic":
		c.nopanic = strings.Fields(r)
	case "conc":
		c.concLabels = strings.Fields(r)
	case "fresh":
		c.fresh = true
	case "allocs":
		c.allocs = true
	case "inline":
		c.inline = true
	case "trusted":
		c.trusted = true
		c.why = r
	case "noframe":
		c.noframe = true
	case "concurrent":
		c.concurrent = true
	case "let":
		parseLet(c.lets, r)
	case "results":
		c.results = strings.Fields(r)
	case "update":
		c.ghosts = append(c.ghosts, parseUpdate(r))
	case "merge":
		c.merge = true
	case "paths":
		c.maxPaths, _ = strconv.Atoi(r)
	case "timeout":
		c.timeout, _ = strconv.Atoi(r)
	case "why":
		c.why = r
	default:
		panic(specErr("clause " + ln))
	}
}

func (s *Specs) externClause(d *extern, ln string) {
	w, r := cutWord(ln)
	switch w {
	case "requires":
		d.requires = append(d.requires, parseClause(r))
	case "ensures":
		d.ensures = append(d.ensures, parseClause(r))
	case "modifies":
		d.modifies = append(d.modifies, strings.Fields(r)...)
	case "event":
		l := newLexer(r)
		d.event = l.next().text
		d.eventArgs = []*Expr{}
		l.expect("(")
		for !l.accept(")") {
			if len(d.eventArgs) > 0 {
				l.expect(",")
			}
			d.eventArgs = append(d.eventArgs, l.expr())
		}
	case "channel":
		d.trace = r
	case "noreturn":
		d.noreturn = true
	case "fresh":
		d.isFresh = true
		d.isNew = strings.TrimSpace(r) == "new"
	case "let":
		parseLet(d.lets, r)
	case "update":
		d.ghosts = append(d.ghosts, parseUpdate(r))
	default:
		panic(specErr("clause " + ln))
	}
}

// defaultExtern is the treatment of functions that no specification file mentions.
func (s *Specs) defaultExtern(name string) *extern {
	pkg := name
	if i := strings.Index(name, "."); i >= 0 {
		pkg = name[:i]
	}
	switch pkg {
	case "strings", "strconv", "path", "filepath", "unicode", "math", "utf8", "hex", "runtime":
		if !strings.Contains(name, "(*") {
			return &extern{name: name, kind: "pure"}
		}
	}
	switch name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln", "error.Error", "fmt.Stringer.String":
		return &extern{name: name, kind: "pure"}
	}
	return &extern{name: name, kind: "effect"}
}

func specSort(s string) Sort {
	switch s {
	case "int", "ref":
		return SInt
	case "bool":
		return SBool
	case "str", "string":
		return SStr
	case "seq":
		return SSeq
	case "val":
		return SVal
	}
	if strings.HasPrefix(s, "arr[") {
		i := strings.Index(s, "]")
		return SArr(specSort(s[4:i]), specSort(s[i+1:]))
	}
	return ""
}

// ---- types in specifications

type typeIndex struct {
	w     *World
	byPkg map[string][]*types.Package
}

func (w *World) pkgsNamed(name string) []*types.Package {
	w.idxOnce.Do(func() {
		w.pkgIdx = map[string][]*types.Package{}
		var keys []string
		for k := range w.Pkgs {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool {
			if len(keys[i]) != len(keys[j]) {
				return len(keys[i]) < len(keys[j])
			}
			return keys[i] < keys[j]
		})
		for _, k := range keys {
			p := w.Pkgs[k].Pkg
			w.pkgIdx[p.Name()] = append(w.pkgIdx[p.Name()], p)
		}
	})
	return w.pkgIdx[name]
}

func (w *World) lookupObj(pkg *types.Package, name string) types.Object {
	if i := strings.Index(name, "."); i >= 0 {
		for _, p := range w.pkgsNamed(name[:i]) {
			if o := p.Scope().Lookup(name[i+1:]); o != nil {
				return o
			}
		}
		return nil
	}
	if pkg != nil {
		if o := pkg.Scope().Lookup(name); o != nil {
			return o
		}
	}
	return types.Universe.Lookup(name)
}

func (w *World) parseType(pkg *types.Package, s string) types.Type {
	e, err := parser.ParseExpr(s)
	if err != nil {
		panic(specErr("type " + s + ": " + err.Error()))
	}
	return w.typeOf(pkg, e, s)
}

func (w *World) typeOf(pkg *types.Package, e ast.Expr, s string) types.Type {
	switch e := e.(type) {
	case *ast.Ident:
		if e.Name == "any" {
			return types.NewInterfaceType(nil, nil)
		}
		if o, ok := w.lookupObj(pkg, e.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if x, ok := e.X.(*ast.Ident); ok {
			if o, ok := w.lookupObj(pkg, x.Name+"."+e.Sel.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(w.typeOf(pkg, e.X, s))
	case *ast.ArrayType:
		if e.Len == nil {
			return types.NewSlice(w.typeOf(pkg, e.Elt, s))
		}
		if bl, ok := e.Len.(*ast.BasicLit); ok {
			n, _ := strconv.ParseInt(bl.Value, 10, 64)
			return types.NewArray(w.typeOf(pkg, e.Elt, s), n)
		}
	case *ast.MapType:
		return types.NewMap(w.typeOf(pkg, e.Key, s), w.typeOf(pkg, e.Value, s))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.IndexExpr:
		if t, err := types.Instantiate(nil, w.typeOf(pkg, e.X, s), []types.Type{w.typeOf(pkg, e.Index, s)}, false); err == nil {
			return t
		}
	case *ast.StructType:
		if len(e.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.ParenExpr:
		return w.typeOf(pkg, e.X, s)
	}
	panic(specErr("type " + s + " not found"))
}
