package fab_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
	"github.com/bobg/fab/proto"
)

// protoTree is a tree of files, and what each imports.
type protoTree struct {
	top     string
	imports map[string][]string // by file, relative to top
}

var importStyles = []string{
	"import \"%s\";",
	"import '%s';",
	"import public \"%s\";",
	"import weak '%s';",
	"  import \"%s\";",
	"\timport\tpublic\t\"%s\"; // why",
	"import   \"%s\" ;",
	"import\"%s\";",
	"import \"%s\"; // import \"zz.proto\";",
	"import public\"%s\";",
}

var noImports = []string{
	"syntax = \"proto3\";",
	"// import \"zz.proto\";",
	"message important { string a = 1; }",
	"option (x) = \"import 'zz.proto'\";",
	"important \"zz.proto\";",
	"reimport \"zz.proto\";",
	"importpublic \"zz.proto\";",
	"import zz.proto;",
	"package p;",
	"",
	"  // import public \"zz.proto\";",
}

// want gives the files that the given one depends on: an independent closure.
func (p *protoTree) want(file string, incs []string) []string {
	seen := map[string]bool{file: true}
	todo := []string{file}
	for len(todo) > 0 {
		f := todo[0]
		todo = todo[1:]
		rel, err := filepath.Rel(p.top, f)
		if err != nil {
			panic(err)
		}
		for _, imp := range p.imports[rel] {
			for _, inc := range incs {
				full := filepath.Join(inc, imp)
				r, _ := filepath.Rel(p.top, full)
				if _, ok := p.imports[r]; !ok {
					continue
				}
				if !seen[full] {
					seen[full] = true
					todo = append(todo, full)
				}
				break
			}
		}
	}
	var out []string
	for f := range seen {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

func TestC21(t *testing.T) {
	defer finish()
	scenario(t, "trees made at random", func() {
		r := rng()
		rounds := 150
		if thorough() {
			rounds = 3000
		}
		for round := 0; round < rounds; round++ {
			p := &protoTree{top: scratch(), imports: map[string][]string{}}
			names := []string{"a.proto", "b.proto", "c.proto", "d.proto", "s/a.proto", "s/e.proto", "s/t/f.proto"}
			dirs := []string{"i", "j", "j/s", "k"}
			for _, d := range dirs {
				for _, n := range names {
					if r.Intn(3) > 0 {
						continue
					}
					p.make(r.Intn, filepath.Join(d, n), append([]string{"nowhere.proto", "t/f.proto", "e.proto"}, names...))
				}
			}
			p.make(r.Intn, "root.proto", names)
			p.make(r.Intn, "i/zz.proto", nil)
			p.make(r.Intn, "k/zz.proto", nil)
			var incs []string
			for _, d := range r.Perm(len(dirs))[:r.Intn(len(dirs)+1)] {
				incs = append(incs, filepath.Join(p.top, dirs[d]))
			}
			if len(incs) > 0 && r.Intn(6) == 0 {
				incs = append(incs, incs[0])
			}
			if r.Intn(5) == 0 {
				incs = append(incs, filepath.Join(p.top, "missing"))
			}
			given := append([]string(nil), incs...)
			for i := range given {
				if r.Intn(4) == 0 {
					given[i] += "/"
				}
			}
			files := []string{filepath.Join(p.top, "root.proto")}
			for f := range p.imports {
				files = append(files, filepath.Join(p.top, f))
			}
			sort.Strings(files[1:])
			for i, f := range files {
				if i > 3 {
					break
				}
				oneCase()
				got, err := proto.Deps(f, given)
				if err != nil {
					failf("Deps(%s, %q): %v", f, given, err)
					continue
				}
				if want := p.want(f, incs); !eqStrs(got, want) {
					failf("Deps(%s, %q) gives %q, not %q; the files import %v", f, given, got, want, p.imports)
				}
			}
			// The same files as inputs of a target.
			k := 1 + r.Intn(3)
			if k > len(files) {
				k = len(files)
			}
			inputs := files[len(files)-k:]
			all := map[string]bool{}
			for _, f := range inputs {
				for _, d := range p.want(f, incs) {
					all[d] = true
				}
			}
			var in []string
			for f := range all {
				in = append(in, f)
			}
			sort.Strings(in)
			outputs := []string{"o2", "o1", "o2"}[:r.Intn(4)]
			opts := []string{"--x_out=.", "-y", "z"}[:r.Intn(4)]
			var args []string
			for _, i := range given {
				args = append(args, "-I"+i)
			}
			args = append(append(args, opts...), inputs...)
			oneCase()
			target, err := proto.Proto(inputs, outputs, given, opts)
			if err != nil {
				failf("Proto(%q, %q, %q, %q): %v", inputs, outputs, given, opts, err)
				continue
			}
			want := fmt.Sprintf("Files(Command(%q %q %q %q %q in:none out:none err:none);%q;%q)", "", "protoc", args, "", []string(nil), in, outputs)
			if got := describe(target); got != want {
				failf("Proto(%q, %q, %q, %q) gives %s, not %s", inputs, outputs, given, opts, got, want)
			}
		}
	})
	scenario(t, "chains and circles", func() {
		for n := 1; n <= 12; n++ {
			for _, circle := range []bool{false, true} {
				p := &protoTree{top: scratch(), imports: map[string][]string{}}
				for i := 0; i < n; i++ {
					var imps []string
					if i+1 < n {
						imps = append(imps, fmt.Sprintf("f%d.proto", i+1))
					} else if circle {
						imps = append(imps, "f0.proto")
					}
					name := fmt.Sprintf("%c/f%d.proto", 'a'+i%2, i)
					p.imports[name] = imps
					text := ""
					for _, imp := range imps {
						text += fmt.Sprintf("import %q;\n", imp)
					}
					write(p.top, name, text)
				}
				oneCase()
				incs := []string{filepath.Join(p.top, "a"), filepath.Join(p.top, "b")}
				root := filepath.Join(p.top, "a/f0.proto")
				got, err := proto.Deps(root, incs)
				if want := p.want(root, incs); err != nil || !eqStrs(got, want) {
					failf("a chain of %d files: %q, %v", n, got, err)
				}
			}
		}
	})
	scenario(t, "failures", func() {
		top := scratch()
		write(top, "ok.proto", "import \"b.proto\";\n")
		write(top, "i/b.proto", "")
		os.MkdirAll(filepath.Join(top, "j/b.proto"), 0755)
		os.MkdirAll(filepath.Join(top, "k"), 0755)
		os.Symlink("b.proto", filepath.Join(top, "k/b.proto"))
		write(top, "l", "a file")
		write(top, "deep.proto", "import \"x.proto\";\n")
		write(top, "m/x.proto", "\nimport \"y.proto\";\n")
		write(top, "m/y.proto", "import \"b.proto\";\nimport \"zz.proto\";\n")
		long := "// " + strings.Repeat("x", 70000) + "\nimport \"b.proto\";\n"
		write(top, "long.proto", long)
		write(top, "blong.proto", "import \"clong.proto\";\nimport \"b.proto\";\n")
		write(top, "i/clong.proto", long)
		at := func(s string) string { return filepath.Join(top, s) }
		for _, c := range []struct {
			file string
			incs []string
			want []string // nil: it fails
			or   bool     // or it fails
		}{
			{file: "ok.proto", incs: []string{"i"}, want: []string{"i/b.proto", "ok.proto"}},
			{file: "ok.proto", want: []string{"ok.proto"}},
			{file: "ok.proto", incs: []string{"nowhere"}, want: []string{"ok.proto"}},
			{file: "missing.proto", incs: []string{"i"}},
			{file: "j/b.proto", incs: []string{"i"}},
			{file: "k/b.proto", incs: []string{"i"}},
			{file: "ok.proto", incs: []string{"j"}},
			{file: "ok.proto", incs: []string{"j", "i"}},
			{file: "ok.proto", incs: []string{"i", "j"}, want: []string{"i/b.proto", "ok.proto"}},
			{file: "ok.proto", incs: []string{"k"}},
			{file: "ok.proto", incs: []string{"nowhere", "k", "i"}},
			{file: "ok.proto", incs: []string{"i", "k"}, want: []string{"i/b.proto", "ok.proto"}},
			{file: "ok.proto", incs: []string{"l", "i"}},
			{file: "deep.proto", incs: []string{"m", "i"}, want: []string{"deep.proto", "i/b.proto", "m/x.proto", "m/y.proto"}},
			{file: "deep.proto", incs: []string{"m", "j"}},
			{file: "deep.proto", incs: []string{"m", "k"}},
			{file: "long.proto", incs: []string{"i"}, want: []string{"i/b.proto", "long.proto"}, or: true},
			{file: "blong.proto", incs: []string{"i"}, want: []string{"blong.proto", "i/b.proto", "i/clong.proto"}, or: true},
		} {
			oneCase()
			var incs []string
			for _, i := range c.incs {
				incs = append(incs, at(i))
			}
			var want []string
			for _, w := range c.want {
				want = append(want, at(w))
			}
			got, err := proto.Deps(at(c.file), incs)
			switch {
			case c.want == nil && err == nil:
				failf("Deps(%q, %q) gives %q, and no error", c.file, c.incs, got)
			case c.want != nil && err != nil && !c.or:
				failf("Deps(%q, %q): %v", c.file, c.incs, err)
			case c.want != nil && err == nil && !eqStrs(got, want):
				failf("Deps(%q, %q) gives %q, not %q", c.file, c.incs, got, want)
			}
			tg, err := proto.Proto([]string{at("i/b.proto"), at(c.file)}, nil, incs, nil)
			if c.want == nil && err == nil {
				failf("Proto of %q with %q does not fail: %s", c.file, c.incs, describe(tg))
			}
			if c.want != nil && err != nil && !c.or {
				failf("Proto of %q with %q: %v", c.file, c.incs, err)
			}
		}
	})
	scenario(t, "in YAML", func() {
		top := scratch()
		write(top, "d/a.proto", "import 'b.proto';\nimport 'c.proto';\n")
		write(top, "d/i/b.proto", "import 'c.proto';\n")
		write(top, "j/c.proto", "\n")
		con := fab.NewController(top)
		for text, want := range map[string][]string{
			"!proto.Deps {File: a.proto, Includes: [i, ../j]}":            {top + "/d/a.proto", top + "/d/i/b.proto", top + "/j/c.proto"},
			"!proto.Deps {File: a.proto, Includes: [i]}":                  {top + "/d/a.proto", top + "/d/i/b.proto"},
			"!proto.Deps {File: a.proto}":                                 {top + "/d/a.proto"},
			"!proto.Deps {File: i/b.proto, Includes: [" + top + "/j]}":    {top + "/d/i/b.proto", top + "/j/c.proto"},
			"!proto.Deps {File: " + top + "/j/c.proto, Includes: [i]}":    {top + "/j/c.proto"},
			"!proto.Deps {File: none.proto}":                              nil,
			"!proto.Deps [a.proto]":                                       nil,
			"!proto.Deps {File: a.proto, Includes: {a: b}}":               nil,
			"!proto.Deps {File: [a.proto]}":                               nil,
			"!proto.Deps {Includes: [i], File: \"../d/./a.proto\"}":       {top + "/d/a.proto", top + "/d/i/b.proto"},
			"!proto.Deps {Includes: [../j, ../j, i/../i], File: a.proto}": {top + "/d/a.proto", top + "/d/i/b.proto", top + "/j/c.proto"},
		} {
			oneCase()
			got, err := con.YAMLStringList(parseNode(text), "d")
			if want == nil {
				if err == nil {
					failf("%s gives %q", text, got)
				}
				continue
			}
			if err != nil || !eqStrs(got, want) {
				failf("%s gives %q, %v, not %q", text, got, err, want)
			}
		}
	})
	scenario(t, "files that are left open", func() {
		oneCase()
		top := scratch()
		for i := 0; i < 10; i++ {
			write(top, fmt.Sprintf("f%d.proto", i), fmt.Sprintf("import \"f%d.proto\";\n", i+1))
		}
		n := openFiles()
		for i := 0; i < 5; i++ {
			proto.Deps(filepath.Join(top, "f0.proto"), []string{top})
		}
		if m := openFiles(); m > n+3 {
			failf("Deps leaves %d files open", m-n)
		}
	})
	_ = context.Background
}

func (p *protoTree) make(intn func(int) int, file string, names []string) {
	var lines, imps []string
	for k := intn(6); k > 0; k-- {
		if len(names) > 0 && intn(2) == 0 {
			n := names[intn(len(names))]
			imps = append(imps, n)
			lines = append(lines, fmt.Sprintf(importStyles[intn(len(importStyles))], n))
		} else {
			lines = append(lines, noImports[intn(len(noImports))])
		}
	}
	p.imports[file] = imps
	nl := "\n"
	if intn(5) == 0 {
		nl = "\r\n"
	}
	text := strings.Join(lines, nl)
	if intn(2) == 0 {
		text += nl
	}
	write(p.top, file, text)
}
