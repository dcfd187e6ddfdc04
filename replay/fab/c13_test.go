package fab_test

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
	"github.com/bobg/fab/proto"
	"github.com/bobg/fab/ts"
)

// A generated YAML node: its text, and the description of the target it stands for, or why there is none.
type ynode struct {
	text string
	want string
	bad  string
}

type ygen struct {
	r       *rand.Rand
	top     string
	dir     string
	mod     string // a Go module
	badRate int
}

func (g *ygen) join(s string) string {
	for _, p := range []string{s, g.dir} {
		if filepath.IsAbs(p) {
			if p == s {
				return filepath.Join(s)
			}
			return filepath.Join(g.dir, s)
		}
	}
	return filepath.Join(g.top, g.dir, s)
}

func (g *ygen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

// strs makes a list of strings as YAML text, and its value.
func (g *ygen) strs(files bool) (string, []string, string) {
	var parts, vals []string
	bad := ""
	for i, n := 0, g.r.Intn(4); i < n; i++ {
		switch k := g.r.Intn(10); {
		case k < 7:
			s := g.pick("x", "y.go", "/abs/z", "../u", "a b", "", "-v", "$HOME", "d/e/../f")
			parts = append(parts, fmt.Sprintf("%q", s))
			vals = append(vals, s)
		case k == 7:
			parts = append(parts, "!verif.List [l, m]")
			vals = append(vals, g.dir+"|l", g.dir+"|m")
		case k == 8 && g.r.Intn(100) < g.badRate:
			parts = append(parts, g.pick("[p]", "{p: q}", "!verif.None r"))
			bad = "a bad string"
		}
	}
	if files {
		for i := range vals {
			vals[i] = g.join(vals[i])
		}
	}
	if g.r.Intn(12) == 0 && g.badRate > 0 {
		return g.pick("{a: b}", "!verif.None [a]", "word"), nil, "no list"
	}
	if g.r.Intn(8) == 0 {
		l := []string{g.dir + "|l", g.dir + "|m"}
		if files {
			l = []string{g.join(l[0]), g.join(l[1])}
		}
		return "!verif.List [l, m]", l, ""
	}
	return "[" + strings.Join(parts, ", ") + "]", vals, bad
}

type yfields struct {
	parts []string
	bad   string
}

func (f *yfields) add(key, text, bad string) {
	f.parts = append(f.parts, key+": "+text)
	if bad != "" {
		f.bad = key + ": " + bad
	}
}

func (f *yfields) node(g *ygen, tag, want string) ynode {
	g.r.Shuffle(len(f.parts), func(i, j int) { f.parts[i], f.parts[j] = f.parts[j], f.parts[i] })
	return ynode{text: tag + " {" + strings.Join(f.parts, ", ") + "}", want: want, bad: f.bad}
}

func (g *ygen) badNode() ynode {
	return ynode{text: g.pick("[x]", "{x: y}", "!verif.Unknown [x]", "!verif.Unknown x", "!All x", "!All {x: y}", "!Seq x", "!Seq {x: y}", "!Deps []", "!Deps x", "!ArgTarget []", "!ArgTarget x", "!Clean x",
		"!Files [x]", "!Files x", "!Command [x]", "!Command x", "!Command {Args: x}", "!Command {Shell: {a: b}}", "!Command {Cmd: x, Shell: [y]}", "!Command {Shell: [[y]]}", "!Command {Stdout: [x]}",
		"!Clean {Autoclean: [x]}", "!Clean {Files: x}", "!Clean [[x]]", "!Deps {Pre: x, Post: y}", "!Deps {Pre: [x]}", "!Deps {Pre: [[x]], Post: y}", "!Files {In: [x], Out: [y]}", "!ArgTarget [x, [y]]"), bad: "a bad node"}
}

func (g *ygen) list(n int, depth int) (string, []string, string) {
	var texts, wants []string
	bad := ""
	for i := 0; i < n; i++ {
		c := g.target(depth - 1)
		texts, wants = append(texts, c.text), append(wants, c.want)
		if c.bad != "" {
			bad = c.bad
		}
	}
	return "[" + strings.Join(texts, ", ") + "]", wants, bad
}

func (g *ygen) target(depth int) ynode {
	if g.badRate > 0 && g.r.Intn(100) < g.badRate {
		return g.badNode()
	}
	k := g.r.Intn(10)
	if depth <= 0 && k > 5 {
		k = 0
	}
	switch k {
	case 1, 2, 3, 4:
		return g.command()
	case 5:
		return g.clean()
	case 6:
		tag := g.pick("All", "Seq")
		text, wants, bad := g.list(g.r.Intn(4), depth)
		return ynode{"!" + tag + " " + text, tag + "(" + strings.Join(wants, ",") + ")", bad}
	case 7:
		if g.r.Intn(2) == 0 {
			text, wants, bad := g.list(1+g.r.Intn(3), depth)
			return ynode{"!Deps " + text, "Seq(All(" + strings.Join(wants[1:], ",") + ")," + wants[0] + ")", bad}
		}
		text, wants, bad := g.list(g.r.Intn(3), depth)
		post := g.target(depth - 1)
		var f yfields
		f.add("Pre", text, bad)
		f.add("Post", post.text, post.bad)
		return f.node(g, "!Deps", "Seq(All("+strings.Join(wants, ",")+"),"+post.want+")")
	case 8:
		t := g.target(depth - 1)
		text, vals, bad := g.strs(false)
		if bad == "no list" || strings.HasPrefix(text, "!") {
			text, vals, bad = "[v w]", []string{"v w"}, ""
		}
		sep := ", "
		if text == "[]" {
			sep = ""
		}
		if t.bad != "" {
			bad = t.bad
		}
		return ynode{"!ArgTarget [" + t.text + sep + text[1:], fmt.Sprintf("Arg(%s;%q)", t.want, vals), bad}
	case 9:
		var f yfields
		t := g.target(depth - 1)
		f.add("Target", t.text, t.bad)
		var in, out []string
		if g.r.Intn(5) > 0 {
			text, vals, bad := g.strs(true)
			f.add("In", text, bad)
			in = vals
		}
		if g.r.Intn(5) > 0 {
			text, vals, bad := g.strs(true)
			f.add("Out", text, bad)
			out = vals
		}
		if g.r.Intn(4) == 0 {
			f.add("Autoclean", "false", "")
		}
		return f.node(g, "!Files", fmt.Sprintf("Files(%s;%q;%q)", t.want, in, out))
	}
	n := g.pick("Foo", "bar-baz", "X9")
	return ynode{text: n, want: "name:" + n}
}

func (g *ygen) clean() ynode {
	if g.r.Intn(2) == 0 {
		text, vals, bad := g.strs(true)
		if strings.HasPrefix(text, "!") || bad == "no list" {
			return ynode{"!Clean []", `Clean([];false)`, ""}
		}
		return ynode{"!Clean " + text, fmt.Sprintf("Clean(%q;false)", vals), bad}
	}
	var f yfields
	var files []string
	if g.r.Intn(4) > 0 {
		text, vals, bad := g.strs(true)
		f.add("Files", text, bad)
		files = vals
	}
	auto := g.r.Intn(2) == 0
	if auto || g.r.Intn(2) == 0 {
		f.add("Autoclean", fmt.Sprint(auto), "")
	}
	return f.node(g, "!Clean", fmt.Sprintf("Clean(%q;%v)", files, auto))
}

func (g *ygen) command() ynode {
	var f yfields
	var shells []string
	shell, cmd, dir := "", "", ""
	list := false
	switch g.r.Intn(3) {
	case 0:
		shell = g.pick("echo hello", "x | y", "3")
		f.add("Shell", shell, "")
	case 1:
		text, vals, bad := g.strs(false)
		if bad == "no list" {
			text, vals, bad = "[v w, z]", []string{"v w", "z"}, ""
		}
		list, shells = true, vals
		f.add("Shell", text, bad)
	default:
		cmd = g.pick("ls", "a b", "/bin/x")
		f.add("Cmd", fmt.Sprintf("%q", cmd), "")
		if g.r.Intn(4) == 0 {
			shell = "both"
			f.add("Shell", shell, "")
		}
	}
	var args, env []string
	if g.r.Intn(2) == 0 {
		text, vals, bad := g.strs(false)
		args = vals
		f.add("Args", text, bad)
	}
	if g.r.Intn(2) == 0 {
		text, vals, bad := g.strs(false)
		env = vals
		f.add("Env", text, bad)
	}
	if g.r.Intn(2) == 0 {
		dir = g.pick("sub", "/abs/dir", "../x", ".")
		f.add("Dir", dir, "")
	}
	in, out, errs := "", "", ""
	if g.r.Intn(2) == 0 {
		in = g.pick("$stdin", "infile", "/abs/in", "../in", "$stdout")
		f.add("Stdin", fmt.Sprintf("%q", in), "")
	}
	outs := []string{"$stdout", "$stderr", "$discard", "$indent", "$verbose", "outfile", "/abs/out", ">>outfile", ">> ../out", ">>/abs/out", "$stdin"}
	if g.r.Intn(3) > 0 {
		out = g.pick(outs...)
		f.add("Stdout", fmt.Sprintf("%q", out), "")
	}
	if g.r.Intn(3) > 0 {
		errs = g.pick(outs...)
		f.add("Stderr", fmt.Sprintf("%q", errs), "")
	}
	one := func(shell string, app bool) string {
		return fmt.Sprintf("Command(%q %q %q %q %q in:%s out:%s err:%s)", shell, cmd, args, g.join(dir), env, g.in(in), g.out(out, app), g.out(errs, app))
	}
	want := one(shell, false)
	if list {
		var cs []string
		for i, s := range shells {
			cs = append(cs, one(s, i > 0))
		}
		want = "Seq(" + strings.Join(cs, ",") + ")"
	}
	return f.node(g, "!Command", want)
}

func (g *ygen) in(s string) string {
	switch s {
	case "":
		return "none"
	case "$stdin":
		return "stdin"
	}
	return "file:" + g.join(s)
}

func (g *ygen) out(s string, app bool) string {
	switch s {
	case "":
		return "none"
	case "$stdout", "$stderr", "$discard", "$indent", "$verbose":
		return s[1:]
	}
	if strings.HasPrefix(s, ">>") {
		s, app = strings.TrimLeft(s, "> "), true
	}
	if app {
		return "file:>>" + g.join(s)
	}
	return "file:" + g.join(s)
}

func TestC13(t *testing.T) {
	defer finish()
	fab.RegisterYAMLStringList("verif.List", func(_ *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
		var out []string
		for _, c := range node.Content {
			out = append(out, dir+"|"+c.Value)
		}
		return out, nil
	})
	decode := func(con *fab.Controller, n ynode, dir string) (fab.Target, error) {
		oneCase()
		return con.YAMLTarget(parseNode(n.text), dir)
	}
	check := func(con *fab.Controller, n ynode, dir string) {
		got, err := decode(con, n, dir)
		switch {
		case n.bad != "" && err == nil:
			failf("in directory %q the node %s gives %s, but it cannot be decoded (%s)", dir, n.text, describe(got), n.bad)
		case n.bad == "" && err != nil:
			failf("in directory %q the node %s gives the error %v", dir, n.text, err)
		case n.bad == "" && describe(got) != n.want:
			failf("in directory %q the node %s gives %s, not %s", dir, n.text, describe(got), n.want)
		}
	}
	scenario(t, "targets of every kind, nested", func() {
		con := fab.NewController("/top/dir")
		n := 3000
		if thorough() {
			n = 60000
		}
		r := rng()
		for i := 0; i < n && nfails == 0; i++ {
			g := &ygen{r: r, top: "/top/dir", dir: []string{"", "sub", "a/b", "/elsewhere"}[i%4]}
			if i%3 == 2 {
				g.badRate = 15
			}
			check(con, g.target(3), g.dir)
		}
	})
	scenario(t, "nodes that cannot be decoded", func() {
		con := fab.NewController("/top/dir")
		for i := 0; i < 400; i++ {
			g := &ygen{r: rng(), top: "/top/dir"}
			g.r.Seed(int64(i))
			check(con, g.badNode(), "")
			// and as parts of others
			b := g.badNode().text
			for _, text := range []string{"!All [" + b + ", Foo]", "!All [Foo, " + b + "]", "!Seq [Foo, " + b + "]", "!Seq [" + b + "]", "!Deps [" + b + "]", "!Deps [Foo, " + b + "]", "!Deps {Pre: [Foo, " + b + "], Post: Foo}", "!Deps {Post: " + b + "}", "!ArgTarget [" + b + ", x]", "!Files {Target: " + b + "}"} {
				check(con, ynode{text: text, bad: "a bad part"}, "sub")
			}
		}
	})
	scenario(t, "where the output of a command goes", func() {
		d := scratch()
		for _, name := range []string{"Stdout", "Stderr"} {
			for _, dest := range []string{"$indent", "$verbose"} {
				of, ef := filepath.Join(d, "o"), filepath.Join(d, "e")
				o, err1 := os.Create(of)
				e, err2 := os.Create(ef)
				if err1 != nil || err2 != nil {
					panic(fmt.Sprint(err1, err2))
				}
				so, se := os.Stdout, os.Stderr
				os.Stdout, os.Stderr = o, e
				con := fab.NewController("/top/dir")
				got, err := decode(con, ynode{text: "!Command {Shell: x, " + name + ": $" + dest[1:] + "}"}, "")
				if c, ok := got.(*fab.Command); ok {
					f := c.StdoutFn
					if name == "Stderr" {
						f = c.StderrFn
					}
					if f != nil {
						fmt.Fprint(f(fab.WithVerbose(context.Background(), true), con), "hello\n")
					}
				}
				os.Stdout, os.Stderr = so, se
				o.Close()
				e.Close()
				wo, we := "    hello\n", ""
				if name == "Stderr" {
					wo, we = we, wo
				}
				if err != nil || readStr(of) != wo || readStr(ef) != we {
					failf("with %s: %s the command writes %q to standard output and %q to standard error (%v)", name, dest, readStr(of), readStr(ef), err)
				}
			}
		}
	})
	scenario(t, "automatic cleaning of files", func() {
		for _, auto := range []string{"", ", Autoclean: false", ", Autoclean: true"} {
			d := scratch()
			con := fab.NewController(d)
			if _, err := decode(con, ynode{text: "!Files {Target: Foo, Out: [o1, x/o2]" + auto + "}"}, "sub"); err != nil {
				failf("Files: %v", err)
			}
			p1, p2 := write(d, "sub/o1", "1"), write(d, "sub/x/o2", "2")
			if err := runQuiet(con, context.Background(), &fab.Clean{Autoclean: true}); err != nil {
				failf("Clean: %v", err)
			}
			if want := auto != ", Autoclean: true"; exists(p1) != want || exists(p2) != want {
				failf("after !Files with %q and a Clean of all registered files, the outputs exist: %v, %v", auto, exists(p1), exists(p2))
			}
		}
	})
	scenario(t, "targets of other packages", func() {
		d := scratch()
		write(d, "sub/c/m/go.mod", "module example.com/m\n\ngo 1.20\n")
		write(d, "sub/c/m/m.go", "package main\n\nfunc main() {}\n")
		write(d, "sub/p/a.proto", "import \"b.proto\";\n")
		write(d, "sub/q/b.proto", "\n")
		sub := filepath.Join(d, "sub")
		mod := filepath.Join(sub, "c/m")
		_, _, _ = golang.Binary, proto.Proto, ts.Decls
		con := fab.NewController(d)
		src := fmt.Sprintf("%q", []string{filepath.Join(mod, "m.go")})
		for _, c := range []ynode{
			{text: "!go.Binary {Dir: c/m, Out: bin/x, Flags: [-v, -race]}", want: fmt.Sprintf("Files(Command(%q %q %q %q %q in:none out:none err:none);%s;%q)", "", "go", []string{"build", "-C", mod, "-o", "../../bin/x", "-v", "-race", "."}, "", []string(nil), src, []string{filepath.Join(sub, "bin/x")})},
			{text: "!go.Binary {Dir: c/m}", want: fmt.Sprintf("Files(Command(%q %q %q %q %q in:none out:none err:none);%s;%q)", "", "go", []string{"build", "-C", mod, "-o", "../../m", "."}, "", []string(nil), src, []string{sub + "/m"})},
			{text: "!go.Binary {Dir: c/m, Out: /abs/y, Flags: !verif.List [f]}", want: "*"},
			{text: "!go.Binary {Dir: nowhere}", bad: "no such directory"},
			{text: "!go.Binary {Dir: c/m, Flags: x}", bad: "bad flags"},
			{text: "!go.Binary {Dir: c/m, Flags: [[x]]}", bad: "bad flags"},
			{text: "!go.Binary [c/m]", bad: "a list"},
			{text: "!ts.Decls {Dir: c/m, Type: T, Prefix: /p, Out: t.ts}", want: fmt.Sprintf("Files(Decls(%q %q %q %q);%s;%q)", mod, "T", "/p", filepath.Join(sub, "t.ts"), src, []string{filepath.Join(sub, "t.ts")})},
			{text: "!ts.Decls {Dir: nowhere, Type: T, Out: t.ts}", bad: "no such directory"},
			{text: "!ts.Decls [c/m]", bad: "a list"},
			{text: "!proto.Proto {Inputs: [p/a.proto], Outputs: [o.go, /abs/o2], Includes: [p, q], Opts: [--go_out=., x]}", want: fmt.Sprintf("Files(Command(%q %q %q %q %q in:none out:none err:none);%q;%q)", "", "protoc", []string{"-I" + sub + "/p", "-I" + sub + "/q", "--go_out=.", "x", sub + "/p/a.proto"}, "", []string(nil), []string{sub + "/p/a.proto", sub + "/q/b.proto"}, []string{sub + "/o.go", "/abs/o2"})},
			{text: "!proto.Proto {Inputs: [p/none.proto], Outputs: [o.go]}", bad: "no such input"},
			{text: "!proto.Proto {Inputs: p/a.proto, Outputs: [o.go]}", bad: "bad inputs"},
			{text: "!proto.Proto {Inputs: [p/a.proto], Outputs: x}", bad: "bad outputs"},
			{text: "!proto.Proto {Inputs: [p/a.proto], Includes: x}", bad: "bad includes"},
			{text: "!proto.Proto {Inputs: [p/a.proto], Opts: x}", bad: "bad options"},
			{text: "!proto.Proto [x]", bad: "a list"},
		} {
			if c.want == "*" {
				if _, err := decode(con, c, "sub"); err != nil {
					failf("the node %s gives the error %v", c.text, err)
				}
				continue
			}
			check(con, c, "sub")
		}
		for _, auto := range []bool{false, true} {
			for _, node := range []string{"!ts.Decls {Dir: c/m, Type: T, Out: auto1", "!proto.Proto {Inputs: [p/a.proto], Includes: [q], Outputs: [auto1]"} {
				text := node + fmt.Sprintf(", Autoclean: %v}", auto)
				d2 := scratch()
				for _, f := range []string{"c/m/go.mod", "c/m/m.go", "p/a.proto", "q/b.proto"} {
					write(d2, "sub/"+f, readStr(filepath.Join(sub, f)))
				}
				con := fab.NewController(d2)
				if _, err := decode(con, ynode{text: text}, "sub"); err != nil {
					failf("the node %s gives the error %v", text, err)
					continue
				}
				p := write(d2, "sub/auto1", "1")
				if err := runQuiet(con, context.Background(), &fab.Clean{Autoclean: true}); err != nil {
					failf("Clean: %v", err)
				}
				if exists(p) == auto {
					failf("after %s and a Clean of all registered files, the output exists: %v", text, exists(p))
				}
			}
		}
	})
}
