package fab_test

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
)

// stateHash gives the hash of a Files target in the present state.
// Targets known to make its inputs are replaced by one that does nothing.
func stateHash(d string, ft fab.Target, names ...string) string {
	nop := &logged{Name: "nop", log: &runLog{}}
	var all []string
	for _, n := range names {
		for ; n != d && n != "/" && n != "."; n = filepath.Dir(n) {
			all = append(all, n)
		}
	}
	fab.Files(nop, nil, all)
	db := newDB()
	var h string
	db.onHas = func(b []byte) {
		h = string(b)
		db.mu.Lock()
		db.m[h] = true
		db.mu.Unlock()
	}
	if err := runQuiet(fab.NewController(d), fab.WithHashDB(context.Background(), db), ft); err != nil {
		return "error"
	}
	return h
}

// leaves describes what the hash must determine about a list of files.
func leaves(names []string) string {
	m := map[string]string{}
	var walk func(n string)
	walk = func(n string) {
		fi, err := os.Stat(n)
		if err != nil {
			m[n] = "absent"
			return
		}
		if !fi.IsDir() {
			b, _ := os.ReadFile(n)
			m[n] = fmt.Sprintf("content %q", b)
			return
		}
		es, _ := os.ReadDir(n)
		for _, e := range es {
			walk(filepath.Join(n, e.Name()))
		}
	}
	for _, n := range names {
		walk(n)
	}
	var out []string
	for n, c := range m {
		out = append(out, fmt.Sprintf("%q=%s", n, c))
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}

// distinct checks that the hash and what it must determine agree.
type distinct struct {
	byHash, byKey map[string]string
}

func (x *distinct) check(key, hash string) {
	oneCase()
	if x.byHash == nil {
		x.byHash, x.byKey = map[string]string{}, map[string]string{}
	}
	if k, ok := x.byHash[hash]; ok && k != key {
		failf("the same hash for %s and %s", k, key)
	}
	if h, ok := x.byKey[key]; ok && h != hash {
		failf("two hashes, %x and %x, for %s", h, hash, key)
	}
	x.byHash[hash], x.byKey[key] = key, hash
}

type otherTarget struct{ Name string }

func (*otherTarget) Desc() string                               { return "logged" }
func (*otherTarget) Run(context.Context, *fab.Controller) error { return nil }

type numTarget struct {
	A, B  string
	N     int
	L     []string
	M     map[string]string
	P     *string
	inner string
}

func (*numTarget) Desc() string                               { return "n" }
func (*numTarget) Run(context.Context, *fab.Controller) error { return nil }

func definitions(d string) map[string]func() fab.Target {
	s := "x"
	x := func(t fab.Target) func() fab.Target { return func() fab.Target { return t } }
	l := &runLog{}
	c := func(c fab.Command) *fab.Command { return &c }
	return map[string]func() fab.Target{
		"logged a":                x(&logged{Name: "a", log: l}),
		"logged b":                x(&logged{Name: "b", log: l}),
		"other a":                 x(&otherTarget{Name: "a"}),
		"num":                     x(&numTarget{}),
		"num A x":                 x(&numTarget{A: "x"}),
		"num B x":                 x(&numTarget{B: "x"}),
		"num N 1":                 x(&numTarget{N: 1}),
		"num L empty":             x(&numTarget{L: []string{}}),
		"num L with empty":        x(&numTarget{L: []string{""}}),
		"num L x":                 x(&numTarget{L: []string{"x"}}),
		"num L x y":               x(&numTarget{L: []string{"x", "y"}}),
		"num L y x":               x(&numTarget{L: []string{"y", "x"}}),
		"num L x,y":               x(&numTarget{L: []string{"x,y"}}),
		"num M":                   x(&numTarget{M: map[string]string{"a": "b"}}),
		"num M 2":                 x(&numTarget{M: map[string]string{"b": "a"}}),
		"num P":                   x(&numTarget{P: &s}),
		"command shell":           x(c(fab.Command{Shell: "x"})),
		"command shell spaces":    x(c(fab.Command{Shell: "x "})),
		"command shell newline":   x(c(fab.Command{Shell: "x\n"})),
		"command shell long":      x(c(fab.Command{Shell: "x" + strings.Repeat(" y", 5000)})),
		"command shell long z":    x(c(fab.Command{Shell: "x" + strings.Repeat(" y", 5000) + "z"})),
		"command cmd":             x(c(fab.Command{Cmd: "x"})),
		"command cmd args":        x(c(fab.Command{Cmd: "x", Args: []string{"a", "b"}})),
		"command cmd args order":  x(c(fab.Command{Cmd: "x", Args: []string{"b", "a"}})),
		"command cmd args joined": x(c(fab.Command{Cmd: "x", Args: []string{"a b"}})),
		"command cmd args one":    x(c(fab.Command{Cmd: "x", Args: []string{"a"}})),
		"command cmd args repeat": x(c(fab.Command{Cmd: "x", Args: []string{"a", "a"}})),
		"command dir":             x(c(fab.Command{Shell: "x", Dir: "d"})),
		"command env":             x(c(fab.Command{Shell: "x", Env: []string{"A=b"}})),
		"command env 2":           x(c(fab.Command{Shell: "x", Env: []string{"A=b", "C=d"}})),
		"command env order":       x(c(fab.Command{Shell: "x", Env: []string{"C=d", "A=b"}})),
		"command env other":       x(c(fab.Command{Shell: "x", Env: []string{"A=c"}})),
		"command stdout":          x(c(fab.Command{Shell: "x", StdoutFile: "f"})),
		"command stdout append":   x(c(fab.Command{Shell: "x", StdoutFile: ">>f"})),
		"command stderr":          x(c(fab.Command{Shell: "x", StderrFile: "f"})),
		"command stdin":           x(c(fab.Command{Shell: "x", StdinFile: "f"})),
		"command stdout and err":  x(c(fab.Command{Shell: "x", StdoutFile: "f", StderrFile: "f"})),
		"seq of none":             x(fab.Seq()),
		"seq x y":                 x(fab.Seq(fab.Shellf("x"), fab.Shellf("y"))),
		"seq y x":                 x(fab.Seq(fab.Shellf("y"), fab.Shellf("x"))),
		"seq x":                   x(fab.Seq(fab.Shellf("x"))),
		"seq x z":                 x(fab.Seq(fab.Shellf("x"), fab.Shellf("z"))),
		"seq x x":                 x(fab.Seq(fab.Shellf("x"), fab.Shellf("x"))),
		"all x y":                 x(fab.All(fab.Shellf("x"), fab.Shellf("y"))),
		"all y x":                 x(fab.All(fab.Shellf("y"), fab.Shellf("x"))),
		"all x":                   x(fab.All(fab.Shellf("x"))),
		"seq all x seq y":         x(fab.Seq(fab.All(fab.Shellf("x")), fab.Seq(fab.Shellf("y")))),
		"seq all x seq z":         x(fab.Seq(fab.All(fab.Shellf("x")), fab.Seq(fab.Shellf("z")))),
		"all seq x seq y":         x(fab.All(fab.Seq(fab.Shellf("x")), fab.Seq(fab.Shellf("y")))),
		"all seq x all y":         x(fab.All(fab.Seq(fab.Shellf("x")), fab.All(fab.Shellf("y")))),
		"seq one command":         x(fab.Seq(c(fab.Command{Shell: "x", Dir: "d"}), fab.Shellf("y"))),
		"seq other command":       x(fab.Seq(c(fab.Command{Shell: "x", Dir: "e"}), fab.Shellf("y"))),
		"arg a b":                 x(fab.ArgTarget(fab.Shellf("x"), "a", "b")),
		"arg b a":                 x(fab.ArgTarget(fab.Shellf("x"), "b", "a")),
		"arg a":                   x(fab.ArgTarget(fab.Shellf("x"), "a")),
		"arg none":                x(fab.ArgTarget(fab.Shellf("x"))),
		"arg other":               x(fab.ArgTarget(fab.Shellf("y"), "a")),
		"arg arg":                 x(fab.ArgTarget(fab.ArgTarget(fab.Shellf("x"), "a"), "b")),
		"clean":                   x(&fab.Clean{Files: []string{"x", "y"}}),
		"clean order":             x(&fab.Clean{Files: []string{"y", "x"}}),
		"clean other":             x(&fab.Clean{Files: []string{"x", "z"}}),
		"clean auto":              x(&fab.Clean{Files: []string{"x", "y"}, Autoclean: true}),
		"files":                   x(fab.Files(fab.Shellf("x"), nil, nil)),
		"files in":                x(fab.Files(fab.Shellf("x"), []string{filepath.Join(d, "p")}, nil)),
		"files out":               x(fab.Files(fab.Shellf("x"), nil, []string{filepath.Join(d, "p")})),
		"files in 2":              x(fab.Files(fab.Shellf("x"), []string{filepath.Join(d, "q")}, nil)),
		"seq of files":            x(fab.Seq(fab.Files(fab.Shellf("x"), nil, nil))),
	}
}

func TestC06(t *testing.T) {
	defer finish()
	scenario(t, "every part of the definition counts", func() {
		d := scratch()
		write(d, "in", "1")
		in, out := []string{filepath.Join(d, "in")}, []string{filepath.Join(d, "out")}
		var x distinct
		for pass := 0; pass < 2; pass++ {
			for name, f := range definitions(d) {
				x.check("subtarget "+name, stateHash(d, fab.Files(f(), in, out), in...))
			}
		}
	})
	scenario(t, "every name and content counts, order and repetition do not", func() {
		d := scratch()
		r := rng()
		var x distinct
		names := []string{"a", "b", "ab", "a b", "a,b", "d", "d/a", "d/b", "d/ab", "d/e", "d/e/a", "dd", "dd/a", "é", "d/.h", "a\xff", "a\xfe", "a\ufffd", "d/\xed\xa0\x80"}
		contents := []string{"", "a", "b", "ab", "a\n", "absent", "\x00", "\x00\x00", strings.Repeat("a", 70000), strings.Repeat("a", 70001), strings.Repeat("a", 69999) + "b"}
		leaf := []string{"a", "b", "ab", "a b", "a,b", "d/a", "d/b", "d/ab", "d/e/a", "dd/a", "é", "d/.h", "a\xff", "a\xfe", "a\ufffd", "d/\xed\xa0\x80"}
		n := 1500
		if thorough() {
			n = 12000
		}
		for i := 0; i < n; i++ {
			os.RemoveAll(d)
			os.MkdirAll(d, 0755)
			for _, f := range leaf {
				if r.Intn(3) == 0 {
					write(d, f, contents[r.Intn(len(contents))])
				}
			}
			var in, out []string
			for k := r.Intn(4); k > 0; k-- {
				in = append(in, filepath.Join(d, names[r.Intn(len(names))]))
			}
			for k := r.Intn(4); k > 0; k-- {
				out = append(out, filepath.Join(d, names[r.Intn(len(names))]))
			}
			ft := fab.Files(&otherTarget{Name: "t"}, in, out)
			h := stateHash(d, ft, in...)
			x.check(fmt.Sprintf("in [%s] out [%s]", leaves(in), leaves(out)), h)
			if i%3 == 0 {
				// In another order, with repetitions.
				in2, out2 := shuffled(r.Intn, in), shuffled(r.Intn, out)
				h2 := stateHash(d, fab.Files(&otherTarget{Name: "t"}, in2, out2), in2...)
				x.check(fmt.Sprintf("in [%s] out [%s]", leaves(in2), leaves(out2)), h2)
				// Again, with the same target.
				x.check(fmt.Sprintf("in [%s] out [%s]", leaves(in), leaves(out)), stateHash(d, ft, in...))
			}
		}
	})
	scenario(t, "every small change of files", func() {
		for _, c := range fileChanges() {
			oneCase()
			d, in, out := setUpFiles()
			n := 0
			b := builder(d, &runLog{}, &n)
			b.f(nil, nil)
			ft := fab.Files(b, in, out)
			h1 := hashNow(d, ft)
			c.f(d)
			h2 := hashNow(d, ft)
			if h1 == "" || h2 == "" || (h1 != h2) != c.stale {
				failf("after %s the hash is %x, before %x", c.name, h2, h1)
			}
		}
	})
	scenario(t, "large directories", func() {
		r := rng()
		for _, n := range []int{2, 10, 30, 64, 65, 100, 129, 257, 600} {
			oneCase()
			d := scratch()
			in := filepath.Join(d, "in")
			names := map[string]string{}
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("%s%d", []string{"f", ".f", "g~", "F_", "_", "#"}[i%6], i)
				if i%7 == 3 {
					name = filepath.Join(fmt.Sprintf("sub%d", i), name)
				}
				names[name] = fmt.Sprint(i)
				write(in, name, fmt.Sprint(i))
			}
			ft := fab.Files(&otherTarget{Name: "t"}, []string{in}, nil)
			h := stateHash(d, ft)
			for name, c := range names {
				if n > 150 && r.Intn(n) > 100 {
					continue
				}
				write(in, name, "changed")
				if stateHash(d, ft) == h {
					failf("the hash does not depend on the content of %q in a directory of %d files", name, n)
				}
				os.Remove(filepath.Join(in, name))
				if stateHash(d, ft) == h {
					failf("the hash does not depend on the existence of %q in a directory of %d files", name, n)
				}
				write(in, name, c)
			}
			if stateHash(d, ft) != h {
				failf("the hash of a directory of %d files changes by itself", n)
			}
		}
	})
	scenario(t, "deep directories", func() {
		for n := 1; n <= 60; n++ {
			oneCase()
			d := scratch()
			name := "in" + strings.Repeat("/x", n)
			write(d, name, "1")
			ft := fab.Files(&otherTarget{Name: "t"}, []string{filepath.Join(d, "in")}, nil)
			h := stateHash(d, ft)
			write(d, name, "2")
			if stateHash(d, ft) == h {
				failf("the hash does not depend on the content of %s", name)
			}
		}
	})
	scenario(t, "large files", func() {
		for _, size := range []int{511, 512, 513, 4096, 4097, 32767, 32768, 32769, 65536, 70000, 1 << 20, 1<<20 + 1, 5 << 20} {
			d := scratch()
			b := make([]byte, size)
			in := write(d, "in", string(b))
			ft := fab.Files(&otherTarget{Name: "t"}, []string{in}, nil)
			h := stateHash(d, ft)
			for _, at := range []int{0, 1, size / 2, size - 512, size - 1, size} {
				if at < 0 {
					continue
				}
				oneCase()
				c := append([]byte(nil), b...)
				if at == size {
					c = append(c, 0)
				} else {
					c[at] = 1
				}
				write(d, "in", string(c))
				if stateHash(d, ft) == h {
					failf("the hash does not depend on byte %d of a file of %d bytes", at, size)
				}
			}
			write(d, "in", string(b))
			if stateHash(d, ft) != h {
				failf("the hash of a file of %d bytes changes by itself", size)
			}
		}
	})
	scenario(t, "links, permissions, times and the current directory", func() {
		oneCase()
		d := scratch()
		in := write(d, "in", "1")
		ft := fab.Files(&otherTarget{Name: "t"}, []string{in, filepath.Join(d, "l")}, nil)
		h := stateHash(d, ft)
		os.Chmod(in, 0755)
		if stateHash(d, ft) != h {
			failf("the hash depends on permissions")
		}
		write(d, "e/to", "x")
		os.Symlink(filepath.Join(d, "e/to"), filepath.Join(d, "l"))
		h2 := stateHash(d, ft)
		write(d, "e/to", "y")
		h3 := stateHash(d, ft)
		os.Remove(filepath.Join(d, "e/to"))
		h4 := stateHash(d, ft)
		if h2 == h || h3 == h2 || h3 == h || h4 != h {
			failf("contents behind a link: %x %x %x %x", h, h2, h3, h4)
		}
	})
	scenario(t, "rules referred to by name", func() {
		var x distinct
		d := scratch()
		hash := func(doc string) string {
			var h string
			muted(func() {
				con := fab.NewController(d)
				if err := con.ReadYAML(strings.NewReader(doc), ""); err != nil {
					failf("reading %s: %v", doc, err)
					return
				}
				ft, _ := con.RegistryTarget("Foo")
				db := newDB()
				db.onHas = func(b []byte) { h = string(b) }
				db.hasErr = fmt.Errorf("only asking")
				con.Run(fab.WithHashDB(context.Background(), db), ft)
			})
			return h
		}
		for pass := 0; pass < 2; pass++ {
			for _, rule := range []string{"x", "y", "x y"} {
				bar := "Bar: !Command\n  Shell: " + rule + "\n"
				baz := "Baz: !Seq\n  - Bar\n  - !Command\n    Shell: z\n"
				foo := func(t string) string { return "Foo: !Files\n  Target: " + t + "\n  In: [in]\n  Out: [out]\n" }
				x.check("by name "+rule, hash(foo("Bar")+bar))
				x.check("by name "+rule, hash(bar+foo("Bar")))
				x.check("in a seq "+rule, hash(foo("!Seq\n    - Bar\n    - Bar")+bar))
				x.check("in an all "+rule, hash(foo("!All\n    - Bar\n    - Bar")+bar))
				x.check("with arguments "+rule, hash(foo("!ArgTarget\n    - Bar\n    - -a")+bar))
				x.check("in deps "+rule, hash(foo("!Deps\n    Pre:\n      - Bar\n    Post: Qux")+bar+"Qux: !Command\n  Shell: q\n"))
				x.check("as dependent "+rule, hash(foo("!Deps\n    Pre:\n      - Qux\n    Post: Bar")+bar+"Qux: !Command\n  Shell: q\n"))
				x.check("through another "+rule, hash(foo("Baz")+bar+baz))
				x.check("deep "+rule, hash(foo("!Seq\n    - !All\n      - Bar\n    - !All\n      - Baz")+bar+baz))
			}
		}
	})
}

func shuffled(intn func(int) int, l []string) []string {
	var out []string
	if len(l) == 0 {
		return nil
	}
	for i := range l {
		for k := intn(2); k >= 0; k-- {
			out = append(out, l[i])
		}
	}
	for i := range out {
		j := i + intn(len(out)-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}
