package fab_test

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"testing/iotest"

	"github.com/bobg/fab"
)

// yamlCase is a YAML file, and what reading it must do: fail, or register these targets with these documentations.
type yamlCase struct {
	text string
	dir  string
	want map[string]string // nil: it fails
}

func registered(con *fab.Controller) map[string]string {
	m := map[string]string{}
	for _, n := range con.RegistryNames() {
		t, doc := con.RegistryTarget(n)
		if t == nil {
			failf("the name %q is listed but has no target", n)
		}
		m[n] = doc
	}
	return m
}

func mapText(m map[string]string) string {
	var out []string
	for k, v := range m {
		out = append(out, fmt.Sprintf("%q: %q", k, v))
	}
	sort.Strings(out)
	return "{" + strings.Join(out, ", ") + "}"
}

func (c yamlCase) check(con *fab.Controller, err error) {
	oneCase()
	if c.want == nil {
		if err == nil {
			failf("reading %q in %q succeeds, and registers %s", c.text, c.dir, mapText(registered(con)))
		}
		return
	}
	if err != nil {
		failf("reading %q in %q: %v", c.text, c.dir, err)
		return
	}
	if got := mapText(registered(con)); got != mapText(c.want) {
		failf("reading %q in %q registers %s, not %s", c.text, c.dir, got, mapText(c.want))
	}
}

func TestC14(t *testing.T) {
	defer finish()
	scenario(t, "documents", func() {
		for _, c := range []yamlCase{
			{"", "", nil},
			{"# nothing\n", "", nil},
			{"- a\n- b\n", "", nil},
			{"abc\n", "", nil},
			{"{}\n", "", map[string]string{}},
			{"a: b: c\n", "", nil},
			{"a: &x b\n", "", map[string]string{"a": ""}},
			{"A: B\nB: C\n", "", map[string]string{"A": "", "B": ""}},
			{"A: !All\n  - B\nB: !Seq\n  - C\nC: !Clean\n  - x\n", "", map[string]string{"A": "", "B": "", "C": ""}},
			{"A: [x]\n", "", nil},
			{"A: {x: y}\n", "", nil},
			{"A: B\nC: !Nothing\n  - x\n", "", nil},
			{"A: B\nC: !All x\n", "", nil},
			{"A: !All x\nB: C\n", "", nil},
			{"A: !Clean\n  - !NoList z\n", "", nil},
			{"x/y: z\n", "", nil},
			{"a: b\nx/y: z\n", "", nil},
			{"/y: z\n", "", nil},
			{"[a]: z\n", "", nil},
			{"{a: b}: z\n", "", nil},
			{"a: b\n[a]: z\n", "", nil},
			{"_dir: \"\"\nA: B\n", "", map[string]string{"A": ""}},
			{"_dir: x\nA: B\n", "", nil},
			{"A: B\n_dir: x\n", "", nil},
			{"A: B\n_dir: [x]\n", "", nil},
			{"_dir: x\nA: B\n", "x", map[string]string{"x/A": ""}},
			{"A: B\n_dir: x\n", "x", map[string]string{"x/A": ""}},
			{"A: B\nC: D\n_dir: x/y\n", "x/y", map[string]string{"x/y/A": "", "x/y/C": ""}},
			{"A: B\n", "x", nil},
			{"{}\n", "x", nil},
			{"_dir: y\nA: B\n", "x", nil},
			{"_dir: x/\nA: B\n", "x", nil},
			{"_dir: ./x\nA: B\n", "x", nil},
			{"_dir: x\n_dir: y\nA: B\n", "x", nil},
			{"_dir: x\n_dir: x\nA: B\n", "x", map[string]string{"x/A": ""}},
			{"_dir: {a: x}\nA: B\n", "x", nil},
			{"_dir: [x]\nA: B\n", "x", nil},
			{"_dir: x\n", "x", map[string]string{}},
			{"_dirs: x\nA: B\n", "", map[string]string{"_dirs": "", "A": ""}},
			{"_Dir: x\nA: B\n", "x", nil},
			{"# The first.\nA: B\n\n# The second.\nC: D\n", "", map[string]string{"A": "The first.", "C": "The second."}},
			{"# The first.\nA: !All\n  - B\n\nC: D\n", "", map[string]string{"A": "The first.", "C": ""}},
			{"## Two marks.\nA: B\n", "", map[string]string{"A": "Two marks."}},
			{"# One line\n# and another.\nA: B\n", "", map[string]string{"A": "One line\n# and another."}},
			{"A: !All # Beside.\n  - B\n", "", map[string]string{"A": ""}},
			{"A: # Beside.\n  !All\n  - B\n", "", map[string]string{"A": "Beside."}},
			{"# Above.\nA: # Beside.\n  !All\n  - B\n", "", map[string]string{"A": "Above."}},
			{"# sub doc\nA: B\n_dir: s\n", "s", map[string]string{"s/A": "sub doc"}},
			{"_dir: s\n# C# has a mark #\nA: B\n", "s", map[string]string{"s/A": "C# has a mark #"}},
			{"A: B\n---\nC: D\n", "", map[string]string{"A": ""}},
			{"A: B\nA: C\n", "", map[string]string{"A": ""}},
			{"..: B\n", "", map[string]string{"..": ""}},
		} {
			con := fab.NewController(scratchless)
			err := con.ReadYAML(strings.NewReader(c.text), c.dir)
			c.check(con, err)
		}
	})
	scenario(t, "a reader that fails", func() {
		oneCase()
		con := fab.NewController(scratchless)
		if err := con.ReadYAML(iotest.ErrReader(errors.New("no")), ""); err == nil {
			failf("a failing reader is not reported")
		}
		con = fab.NewController(scratchless)
		if err := con.ReadYAML(iotest.OneByteReader(strings.NewReader("A: B\nC: !All\n - D\n")), ""); err != nil || len(con.RegistryNames()) != 2 {
			failf("a slow reader: %v, %q", err, con.RegistryNames())
		}
	})
	scenario(t, "mappings made at random", func() {
		r := rng()
		rounds := 300
		if thorough() {
			rounds = 6000
		}
		values := []string{"x", "!All\n  - q", "!Seq\n  - q\n  - r", "!Clean\n  - f", "!All\n  - !Seq\n    - q"}
		bad := []string{"[x]", "!Zork\n  - q", "!All q", "!All\n  - [q]", "!Command x"}
		for i := 0; i < rounds; i++ {
			dir := []string{"", "d", "d/e", "../o"}[r.Intn(4)]
			n := r.Intn(6)
			want := map[string]string{}
			fails := false
			var lines []string
			dirAt := -1
			if r.Intn(8) > 0 {
				dirAt = r.Intn(n + 1)
			}
			badAt := -1
			if n > 0 && r.Intn(4) == 0 {
				badAt = r.Intn(n)
			}
			for k := 0; k <= n; k++ {
				if k == dirAt {
					d := dir
					if r.Intn(8) == 0 {
						d += "z"
						fails = true
					}
					if d == "" {
						d = `""`
					}
					lines = append(lines, "_dir: "+d)
				}
				if k == n {
					break
				}
				name := fmt.Sprint("n", k)
				doc := ""
				if r.Intn(2) == 0 {
					doc = fmt.Sprint("doc of ", name)
					lines = append(lines, "", "# "+doc)
				}
				v := values[r.Intn(len(values))]
				if k == badAt {
					fails = true
					if r.Intn(3) == 0 {
						name = "m/" + name
					} else {
						v = bad[r.Intn(len(bad))]
					}
				}
				lines = append(lines, name+": "+v)
				want[filepath.Join(dir, name)] = doc
			}
			if dir != "" && dirAt < 0 {
				fails = true
			}
			text := strings.Join(lines, "\n") + "\n"
			if n == 0 && dirAt < 0 {
				text = "{}\n"
			}
			if fails {
				want = nil
			}
			c := yamlCase{text, dir, want}
			con := fab.NewController(scratchless)
			c.check(con, con.ReadYAML(strings.NewReader(text), dir))
		}
	})
	scenario(t, "files", func() {
		for _, c := range []struct {
			name  string
			files map[string]string // "!" for a directory, "@" for a link to nothing, "loop" for a link to itself
			dir   string
			want  map[string]string
		}{
			{"yaml", map[string]string{"fab.yaml": "A: B\n"}, "", map[string]string{"A": ""}},
			{"yml", map[string]string{"fab.yml": "A: B\n"}, "", map[string]string{"A": ""}},
			{"both", map[string]string{"fab.yaml": "A: B\n", "fab.yml": "C: D\n"}, "", map[string]string{"A": ""}},
			{"neither", map[string]string{"fab.txt": "A: B\n"}, "", nil},
			{"other case", map[string]string{"Fab.yaml": "A: B\n"}, "", nil},
			{"bad yaml and good yml", map[string]string{"fab.yaml": "[\n", "fab.yml": "A: B\n"}, "", nil},
			{"empty yaml and good yml", map[string]string{"fab.yaml": "", "fab.yml": "A: B\n"}, "", nil},
			{"directory yaml and good yml", map[string]string{"fab.yaml": "!", "fab.yml": "A: B\n"}, "", nil},
			{"loop yaml and good yml", map[string]string{"fab.yaml": "loop", "fab.yml": "A: B\n"}, "", nil},
			{"dangling yaml and good yml", map[string]string{"fab.yaml": "@", "fab.yml": "A: B\n"}, "", map[string]string{"A": ""}},
			{"directory yml", map[string]string{"fab.yml": "!"}, "", nil},
			{"in a directory", map[string]string{"fab.yaml": "Z: Y\n", "d/fab.yaml": "_dir: d\nA: B\n"}, "d", map[string]string{"d/A": ""}},
			{"yml in a directory", map[string]string{"fab.yaml": "Z: Y\n", "d/e/fab.yml": "_dir: d/e\n# doc\nA: B\n"}, "d/e", map[string]string{"d/e/A": "doc"}},
			{"without one in the directory", map[string]string{"fab.yaml": "Z: Y\n", "d/x": "x"}, "d", nil},
			{"missing directory", map[string]string{"fab.yaml": "Z: Y\n"}, "d", nil},
			{"spelled with a dot", map[string]string{"d/fab.yaml": "_dir: d\nA: B\n"}, "./d/", map[string]string{"d/A": ""}},
			{"the dot", map[string]string{"fab.yaml": "A: B\n"}, ".", map[string]string{"A": ""}},
			{"there and back", map[string]string{"fab.yaml": "A: B\n"}, "d/..", map[string]string{"A": ""}},
			{"no _dir", map[string]string{"d/fab.yaml": "A: B\n"}, "d", nil},
			{"not a directory", map[string]string{"d": "A: B\n"}, "d", nil},
			{"bad entry after good ones", map[string]string{"fab.yaml": "A: B\nC: !All x\n"}, "", nil},
			{"references to another file", map[string]string{"fab.yaml": "A: !All\n  - d/X\n", "d/fab.yaml": "_dir: d\nX: Y\n# why\nZ: W\n"}, "", map[string]string{"A": "", "d/X": "", "d/Z": "why"}},
			{"reference to a file that is missing", map[string]string{"fab.yaml": "A: !All\n  - d/X\n"}, "", nil},
			{"reference to a file that is bad", map[string]string{"fab.yaml": "A: !All\n  - d/X\n", "d/fab.yaml": "_dir: e\nX: Y\n"}, "", nil},
			{"reference to a target that is missing", map[string]string{"fab.yaml": "A: !All\n  - d/X\n", "d/fab.yaml": "_dir: d\nY: Y\n"}, "", nil},
			{"references in a circle", map[string]string{"fab.yaml": "Z: !All\n  - d/X\n", "d/fab.yaml": "_dir: d\nX: !Seq\n - ../e/Y\n", "e/fab.yml": "_dir: e\nY: !Seq\n - ../d/X\n"}, "", map[string]string{"Z": "", "d/X": "", "e/Y": ""}},
			{"references to the top", map[string]string{"fab.yaml": "Z: !All\n  - d/X\n", "d/fab.yaml": "_dir: d\nX: !Seq\n - ../Z\n"}, "", map[string]string{"Z": "", "d/X": ""}},
		} {
			top := scratch()
			for name, text := range c.files {
				p := filepath.Join(top, name)
				os.MkdirAll(filepath.Dir(p), 0755)
				switch text {
				case "!":
					os.MkdirAll(p, 0755)
				case "@":
					os.Symlink("nowhere", p)
				case "loop":
					os.Symlink(filepath.Base(p), p)
				default:
					write(top, name, text)
				}
			}
			con := fab.NewController(top)
			err := con.ReadYAMLFile(c.dir)
			yamlCase{text: c.name, dir: c.dir, want: c.want}.check(con, err)
			if err == nil && c.want != nil {
				// Reading it again does the same.
				err = con.ReadYAMLFile(c.dir)
				yamlCase{text: c.name + ", again", dir: c.dir, want: c.want}.check(con, err)
			}
		}
	})
	scenario(t, "a file that was mended", func() {
		oneCase()
		top := scratch()
		write(top, "d/fab.yaml", "_dir: d\nA: !All x\n")
		con := fab.NewController(top)
		if con.ReadYAMLFile("d") == nil {
			failf("reading a bad file succeeds")
		}
		write(top, "d/fab.yaml", "_dir: d\nA: !All [x]\n")
		if err := con.ReadYAMLFile("d"); err != nil {
			failf("reading a file that was mended: %v", err)
		}
		write(top, "fab.yaml", "Q: !All\n - d/A\n - e/B\n")
		write(top, "e/fab.yaml", "_dir: e\nB: B\n")
		if err := con.ReadYAMLFile(""); err != nil {
			failf("reading a file that refers to it: %v", err)
		}
		if tg, _ := con.RegistryTarget("e/B"); tg == nil {
			failf("a file that another refers to is not read")
		}
	})
	scenario(t, "files are closed", func() {
		oneCase()
		top := scratch()
		write(top, "fab.yaml", "A: !All\n - d/X\n")
		write(top, "d/fab.yaml", "_dir: d\nX: Y\n")
		n := openFiles()
		for i := 0; i < 5; i++ {
			con := fab.NewController(top)
			con.ReadYAMLFile("")
		}
		if m := openFiles(); m > n+2 {
			failf("reading YAML files leaves %d files open", m-n)
		}
	})
}
