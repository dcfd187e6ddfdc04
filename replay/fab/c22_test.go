package fab_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
	"github.com/bobg/fab/golang"
)

// goPkg is a package of a generated module.
type goPkg struct {
	dir     string   // relative to the module
	files   []string // that the package consists of
	tests   []string
	extra   []string // that may be listed too: directories that a pattern matches
	imports []int    // later packages
}

type goModule struct {
	top  string
	pkgs []goPkg
}

// makeModule makes a module with packages that import each other, and a package of another module.
func makeModule(intn func(int) int, top string) *goModule {
	m := &goModule{top: top}
	dirs := []string{".", "a", "b", "a/c", "d/e", "internal/f"}[:2+intn(5)]
	write(top, "o/go.mod", "module ex.com/o\n\ngo 1.20\n")
	write(top, "o/o.go", "package o\n\nimport _ \"ex.com/o/sub\"\n")
	write(top, "o/sub/sub.go", "package sub\n")
	write(top, "m/go.mod", "module ex.com/m\n\ngo 1.20\n\nrequire (\n\tex.com/o v0.0.0\n\tex.com/m/far v0.0.0\n\tex.com/mm v0.0.0\n)\n\nreplace (\n\tex.com/o => ../o\n\tex.com/m/far => ../far\n\tex.com/mm => ../mm\n)\n")
	write(top, "far/go.mod", "module ex.com/m/far\n\ngo 1.20\n")
	write(top, "far/far.go", "package far\n")
	write(top, "mm/go.mod", "module ex.com/mm\n\ngo 1.20\n")
	write(top, "mm/mm.go", "package mm\n")
	for i, d := range dirs {
		p := goPkg{dir: d}
		base := filepath.Join(top, "m", d)
		name := "p" + filepath.Base(d)
		if d == "." {
			name = "main"
		}
		add := func(file, text string) {
			write(base, file, text)
			p.files = append(p.files, filepath.Join(base, file))
		}
		text := "package " + name + "\n\n"
		for j := i + 1; j < len(dirs); j++ {
			if intn(3) == 0 {
				p.imports = append(p.imports, j)
				text += fmt.Sprintf("import _ \"ex.com/m/%s\"\n", dirs[j])
			}
		}
		if intn(3) == 0 {
			text += "import _ \"ex.com/o\"\n"
		}
		if intn(4) == 0 {
			text += "import _ \"ex.com/m/far\"\n"
		}
		if intn(4) == 0 {
			text += "import _ \"ex.com/mm\"\n"
		}
		if intn(3) == 0 {
			text += "import _ \"embed\"\n"
			switch intn(3) {
			case 0:
				text += "//go:embed e.txt\nvar e string\n"
				add("e.txt", "e")
			case 1:
				text += "//go:embed data/*.txt\nvar e []byte\n"
				add("data/x.txt", "x")
				write(base, "data/y.md", "y")
			case 2:
				text = strings.Replace(text, "_ \"embed\"", "\"embed\"", 1)
				text += "//go:embed tree\nvar e embed.FS\n"
				add("tree/1.txt", "1")
				add("tree/n/2.txt", "2")
				write(base, "tree/.hidden", "h")
				p.extra = append(p.extra, filepath.Join(base, "tree"))
			}
		}
		if name == "main" {
			text += "func main() {}\n"
		}
		add(fmt.Sprintf("x%d.go", i), text)
		if intn(2) == 0 {
			add("more.go", "package "+name+"\n")
		}
		if intn(3) == 0 {
			add("asm.s", "\n")
		}
		if intn(2) == 0 {
			write(base, "ignored.go", "//go:build ignore\n\npackage main\n")
			write(base, "z_windows.go", "package "+name+"\n")
			write(base, "README.md", "no\n")
			write(base, "_x.go", "package no\n")
			write(base, "testdata/t.go", "package no\n")
		}
		if intn(2) == 0 {
			write(base, "in_test.go", "package "+name+"\n")
			p.tests = append(p.tests, filepath.Join(base, "in_test.go"))
		}
		if intn(3) == 0 && name != "main" {
			write(base, "ext_test.go", "package "+name+"_test\n")
			p.tests = append(p.tests, filepath.Join(base, "ext_test.go"))
		}
		m.pkgs = append(m.pkgs, p)
	}
	return m
}

// check compares the files listed with those of the packages that the given one imports, directly or indirectly.
func (m *goModule) check(what string, got []string, root int, recursive, tests bool) {
	reached := map[int]bool{}
	var visit func(i int)
	visit = func(i int) {
		if !reached[i] {
			reached[i] = true
			for _, j := range m.pkgs[i].imports {
				visit(j)
			}
		}
	}
	asked := func(i int) bool {
		return i == root || recursive && (m.pkgs[root].dir == "." || strings.HasPrefix(m.pkgs[i].dir+"/", m.pkgs[root].dir+"/"))
	}
	for i := range m.pkgs {
		if asked(i) {
			visit(i)
		}
	}
	want, may := map[string]bool{}, map[string]bool{}
	for i, p := range m.pkgs {
		if !reached[i] {
			continue
		}
		for _, f := range p.files {
			want[f] = true
		}
		for _, f := range p.extra {
			may[f] = true
		}
		if tests && asked(i) {
			for _, f := range p.tests {
				want[f] = true
			}
		}
	}
	if !sort.StringsAreSorted(got) {
		failf("%s: %q is not sorted", what, got)
	}
	listed := map[string]bool{}
	for _, f := range got {
		if listed[f] {
			failf("%s: %s is listed twice", what, f)
		}
		listed[f] = true
		if tests && !strings.HasPrefix(f, m.top) {
			continue // a generated main package
		}
		if !want[f] && !may[f] {
			failf("%s: %s is listed, among %q", what, f, got)
		}
	}
	for f := range want {
		if !listed[f] {
			failf("%s: %s is missing from %q", what, f, got)
		}
	}
}

func TestC22(t *testing.T) {
	defer finish()
	scenario(t, "modules made at random", func() {
		r := rng()
		rounds := 12
		if thorough() {
			rounds = 50
		}
		for round := 0; round < rounds; round++ {
			m := makeModule(r.Intn, scratch())
			root := r.Intn(len(m.pkgs))
			if round%3 == 0 {
				root = 0
			}
			dir := filepath.Join(m.top, "m", m.pkgs[root].dir)
			recursive, tests := r.Intn(2) == 0, r.Intn(3) == 0
			what := fmt.Sprintf("Deps of %s of the packages %v, %v, %v", m.pkgs[root].dir, m.pkgs, recursive, tests)
			oneCase()
			got, err := golang.Deps(dir, recursive, tests)
			if err != nil {
				failf("%s: %v", what, err)
				continue
			}
			m.check(what, got, root, recursive, tests)
		}
	})
	scenario(t, "failures", func() {
		top := scratch()
		write(top, "bad/go.mod", "module ex.com/bad\n\ngo 1.20\n")
		write(top, "bad/x.go", "package bad\n\nfunc {\n")
		write(top, "type/go.mod", "module ex.com/typ\n\ngo 1.20\n")
		write(top, "type/x.go", "package typ\n\nvar X int = Y\n")
		write(top, "imp/go.mod", "module ex.com/imp\n\ngo 1.20\n")
		write(top, "imp/x.go", "package imp\n\nimport _ \"ex.com/imp/none\"\n")
		write(top, "none/go.mod", "module ex.com/none\n\ngo 1.20\n")
		write(top, "none/x.txt", "x")
		write(top, "nomod/x.go", "package nomod\n")
		write(top, "two/go.mod", "module ex.com/two\n\ngo 1.20\n")
		write(top, "two/x.go", "package two\n")
		write(top, "two/sub/x.go", "package sub\n\nfunc {\n")
		write(top, "three/go.mod", "module ex.com/three\n\ngo 1.20\n")
		write(top, "three/x.go", "package three\n")
		write(top, "three/sub/x.go", "package sub\n\nimport _ \"ex.com/three/none\"\n")
		for _, c := range []struct {
			dir              string
			recursive, fails bool
		}{
			{"bad", false, true}, {"bad", true, true}, {"type", false, true}, {"imp", false, true}, {"type", true, true}, {"imp", true, true}, {"three", false, false}, {"three", true, true}, {"none", false, true},
			{"nomod", false, true}, {"missing", false, true}, {"two", false, false}, {"two", true, true}, {"two/sub", false, true},
		} {
			oneCase()
			got, err := golang.Deps(filepath.Join(top, c.dir), c.recursive, false)
			if (err != nil) != c.fails {
				failf("Deps of %s, recursive %v: %q, %v", c.dir, c.recursive, got, err)
			}
			if !c.recursive {
				tg, err := golang.Binary(filepath.Join(top, c.dir), filepath.Join(top, "out"))
				if (err != nil) != c.fails {
					failf("Binary of %s: %v, %v", c.dir, tg, err)
				}
			}
		}
	})
	scenario(t, "binaries", func() {
		top := scratch()
		write(top, "cmd/m/go.mod", "module ex.com/m\n\ngo 1.20\n")
		write(top, "cmd/m/m.go", "package main\n\nimport _ \"ex.com/m/lib\"\n\nfunc main() {}\n")
		write(top, "cmd/m/lib/l.go", "package lib\n")
		was, err := os.Getwd()
		if err != nil {
			panic(err)
		}
		if err := os.Chdir(top); err != nil {
			panic(err)
		}
		defer os.Chdir(was)
		abs := filepath.Join(top, "cmd/m")
		deps := []string{filepath.Join(abs, "lib/l.go"), filepath.Join(abs, "m.go")}
		for i, c := range []struct {
			dir, out string
			flags    []string
			want     string // the output file
		}{
			{abs, filepath.Join(top, "out1"), nil, filepath.Join(top, "out1")},
			{abs, filepath.Join(abs, "out2"), []string{"-v"}, filepath.Join(abs, "out2")},
			{abs, filepath.Join(abs, "lib/out3"), []string{"-tags", "a b", "-v"}, filepath.Join(abs, "lib/out3")},
			{"cmd/m", "", nil, "m"},
			{"cmd/m", "out4", []string{"-trimpath"}, "out4"},
			{"cmd/m", "cmd/out5", nil, "cmd/out5"},
			{"cmd/m", "cmd/m/out6", nil, "cmd/m/out6"},
			{"cmd/m/", "", []string{"-v"}, "m"},
			{"./cmd/../cmd/m", "./out7", nil, "./out7"},
		} {
			oneCase()
			what := fmt.Sprintf("Binary(%q, %q, %q)", c.dir, c.out, c.flags)
			flags := append([]string(nil), c.flags...)
			target, err := golang.Binary(c.dir, c.out, flags...)
			if err != nil {
				failf("%s: %v", what, err)
				continue
			}
			if got, want := describe(target), fmt.Sprintf("%q;%q)", deps, []string{c.want}); !strings.HasSuffix(got, want) {
				failf("%s gives %s, which does not depend on %q or make %q", what, got, deps, c.want)
			}
			cmd := innerCommand(target)
			if cmd == nil {
				failf("%s gives %s", what, describe(target))
				continue
			}
			args := cmd.Args
			dir := cmd.Dir
			if cmd.Cmd != "go" || len(args) == 0 || args[0] != "build" || cmd.Shell != "" || len(cmd.Env) > 0 {
				failf("%s runs %q %q %q", what, cmd.Cmd, cmd.Shell, args)
				continue
			}
			args = args[1:]
			if len(args) >= 2 && args[0] == "-C" {
				dir = args[1]
				args = args[2:]
			}
			if filepath.Clean(dir) != filepath.Clean(c.dir) {
				failf("%s builds in %q", what, dir)
			}
			if len(args) < 2 || args[0] != "-o" {
				failf("%s runs %q", what, cmd.Args)
				continue
			}
			out := args[1]
			if !filepath.IsAbs(out) {
				out = filepath.Join(c.dir, out)
			}
			a, _ := filepath.Abs(out)
			b, _ := filepath.Abs(c.want)
			if a != b {
				failf("%s builds %q, not %q", what, a, b)
			}
			if rest := args[2:]; len(rest) == 0 || rest[len(rest)-1] != "." || !eqStrs(rest[:len(rest)-1], c.flags) {
				failf("%s has the arguments %q after the output", what, rest)
			}
			if i%3 == 0 || thorough() {
				con := fab.NewController(top)
				ctx := fab.WithForce(context.Background(), true)
				if err := runQuiet(con, ctx, target); err != nil {
					failf("%s: running it: %v", what, err)
				} else if fi, err := os.Stat(c.want); err != nil || fi.IsDir() || fi.Mode()&0100 == 0 {
					failf("%s: it does not make %q: %v", what, c.want, err)
				}
				os.Remove(c.want)
			}
		}
	})
	scenario(t, "in YAML", func() {
		top := scratch()
		write(top, "d/m/go.mod", "module ex.com/m\n\ngo 1.20\n")
		write(top, "d/m/m.go", "package main\n\nimport _ \"ex.com/m/lib\"\n\nfunc main() {}\n")
		write(top, "d/m/m_test.go", "package main\n")
		write(top, "d/m/lib/l.go", "package lib\n")
		write(top, "d/m/other/o.go", "package other\n")
		con := fab.NewController(top)
		m, lib, other := top+"/d/m/m.go", top+"/d/m/lib/l.go", top+"/d/m/other/o.go"
		for text, want := range map[string][]string{
			"!go.Deps {Dir: m}":                        {lib, m},
			"!go.Deps {Dir: m, Recursive: true}":       {lib, m, other},
			"!go.Deps {Dir: " + top + "/d/m/other}":    {other},
			"!go.Deps {Dir: ../d/m/lib, Tests: false}": {lib},
			"!go.Deps {Dir: none}":                     nil,
			"!go.Deps [m]":                             nil,
			"!go.Deps {Dir: m, Recursive: x}":          nil,
		} {
			oneCase()
			got, err := con.YAMLStringList(parseNode(text), "d")
			if want == nil {
				if err == nil {
					failf("%s gives %q", text, got)
				}
				continue
			}
			if err != nil || !eqStrs(got, want) {
				failf("%s gives %q, %v, not %q", text, got, err, want)
			}
		}
		for text, want := range map[string]string{
			"!go.Binary {Dir: m, Out: out, Flags: [-v]}": top + "/d/out",
			"!go.Binary {Dir: m, Out: " + top + "/x}":    top + "/x",
			"!go.Binary {Dir: m, Out: ../x}":             top + "/x",
			"!go.Binary {Dir: ../d/m/}":                  top + "/d/m",
			"!go.Binary {Dir: m, Flags: -v}":             "",
			"!go.Binary {Dir: lib}":                      "",
			"!go.Binary [m]":                             "",
		} {
			oneCase()
			tg, err := con.YAMLTarget(parseNode(text), "d")
			if want == "" {
				if err == nil {
					failf("%s gives %s", text, describe(tg))
				}
				continue
			}
			if err != nil {
				failf("%s: %v", text, err)
				continue
			}
			if got, want := describe(tg), fmt.Sprintf("%q;%q)", []string{lib, m}, []string{want}); !strings.HasSuffix(got, want) {
				failf("%s gives %s, not one that ends in %s", text, got, want)
			}
		}
	})
}
