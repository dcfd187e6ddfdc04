package fab_test

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"gopkg.in/yaml.v3"

	"github.com/bobg/fab"
)

// oracleTop looks at each directory from d upwards.
func oracleTop(d string) (string, error) {
	for {
		info, err := os.Stat(d + "/_fab")
		if err == nil && info.IsDir() {
			return d, nil
		}
		if err != nil && !errors.Is(err, fs.ErrNotExist) {
			return "", fmt.Errorf("stat: %v", err)
		}
		b, err := os.ReadFile(d + "/fab.yaml")
		if errors.Is(err, fs.ErrNotExist) {
			b, err = os.ReadFile(d + "/fab.yml")
		}
		switch {
		case err == nil:
			dec := yaml.NewDecoder(strings.NewReader(string(b)))
			var m map[string]any
			if err := dec.Decode(&m); err != nil {
				return "", fmt.Errorf("YAML: %v", err)
			}
			decl, ok := m["_dir"].(string)
			if !ok {
				return d, nil
			}
			if strings.HasPrefix(decl, "/") {
				return "", fmt.Errorf("absolute")
			}
			top, ok := strings.CutSuffix(d, "/"+decl)
			if !ok || decl == "" {
				return "", fmt.Errorf("no match")
			}
			if top == "" {
				top = "/"
			}
			return top, nil
		case !errors.Is(err, fs.ErrNotExist):
			return "", fmt.Errorf("open: %v", err)
		}
		i := strings.LastIndex(d, "/")
		if d == "/" {
			return "", fmt.Errorf("none")
		}
		if d = d[:i]; d == "" {
			d = "/"
		}
	}
}

func TestC18(t *testing.T) {
	defer finish()
	base, err := filepath.EvalSymlinks(scratch())
	if err != nil {
		t.Fatal(err)
	}
	compare := func(root, start, arg, what string) {
		oneCase()
		want, wantErr := oracleTop(start)
		got, err := fab.TopDir(arg)
		rel := func(s string) string { return strings.ReplaceAll(s, root, "…") }
		switch {
		case wantErr == nil && err != nil:
			failf("%s: TopDir(%q) fails with %q and does not yield %q", what, rel(arg), rel(err.Error()), rel(want))
		case wantErr != nil && err == nil:
			failf("%s: TopDir(%q) yields %q, where looking fails: %v", what, rel(arg), rel(got), rel(wantErr.Error()))
		case err == nil && got != want:
			failf("%s: TopDir(%q) yields %q and not %q", what, rel(arg), rel(got), rel(want))
		case err != nil && got != "":
			failf("%s: TopDir(%q) yields %q together with the error %v", what, rel(arg), rel(got), err)
		}
	}
	kinds := []string{"", "", "", "dir", "file", "loop"}
	yamls := []string{"", "", "", "", "A: !Foo {}\n", "_dir: a\n", "_dir: b\n", "_dir: a/b\n", "_dir: a/b/a\n", "_dir: b/a\n", "_dir: /a\n", "_dir: [a]\n", "_dir: c/d\nA: [x\n", "", "- x\n", "A: 1\n---\n_dir: a\n", "_dir: \"\"\n", "_dir: .\n", "_dir: ..\n", "_dir: ../a\n", "_dir: 5\n", "_dir: null\n", "_dir: aa\n"}

	n := 1500
	if thorough() {
		n = 20000
	}
	scenario(t, "random trees", func() {
		rnd := rng()
		for i := 0; i < n && nfails == 0; i++ {
			root := filepath.Join(base, fmt.Sprintf("t%d", i))
			d := root
			var what []string
			m := 1 + rnd.Intn(4)
			for j := 0; j <= m; j++ {
				if j > 0 {
					d = filepath.Join(d, []string{"a", "b", "a", "c", "xa", "ab"}[rnd.Intn(6)])
				}
				os.MkdirAll(d, 0755)
				rel, _ := filepath.Rel(base, d)
				switch k := kinds[rnd.Intn(len(kinds))]; k {
				case "dir":
					if rnd.Intn(2) == 0 {
						os.Mkdir(d+"/_fab", 0755)
						what = append(what, rel+"/_fab is a directory")
					}
				case "file":
					os.WriteFile(d+"/_fab", []byte("x"), 0644)
					what = append(what, rel+"/_fab is a file")
				case "loop":
					if rnd.Intn(4) == 0 {
						os.Symlink("_fab", d+"/_fab")
						what = append(what, rel+"/_fab is a link to itself")
					}
				}
				for _, name := range []string{"fab.yaml", "fab.yml"} {
					if y := yamls[rnd.Intn(len(yamls))]; y != "" && rnd.Intn(3) < 2 {
						os.WriteFile(filepath.Join(d, name), []byte(y), 0644)
						what = append(what, fmt.Sprintf("%s/%s is %q", rel, name, y))
					} else if rnd.Intn(25) == 0 {
						switch rnd.Intn(3) {
						case 0:
							os.Mkdir(filepath.Join(d, name), 0755)
							what = append(what, rel+"/"+name+" is a directory")
						case 1:
							os.Symlink(name, filepath.Join(d, name))
							what = append(what, rel+"/"+name+" is a link to itself")
						case 2:
							os.WriteFile(filepath.Join(d, name), nil, 0644)
							what = append(what, rel+"/"+name+" is empty")
						}
					}
				}
			}
			desc := strings.Join(what, "; ")
			compare(root, d, d, desc)
			compare(root, d, d+"/.", desc)
			compare(root, d+"/missing", d+"/missing", desc)
			if i%10 == 0 {
				if err := os.Chdir(d); err == nil {
					compare(root, d, ".", desc)
					if d != root {
						compare(root, filepath.Dir(d), "..", desc)
					}
					os.Chdir(base)
				}
			}
			// The path by way of a link is taken as written.
			if i%7 == 0 {
				l := root + "-l"
				if os.Symlink(d, l) == nil {
					compare(root, l, l, desc+"; by a link")
				}
				os.Remove(l)
			}
			os.RemoveAll(root)
		}
	})

	scenario(t, "files are closed again", func() {
		before := openFiles()
		d := filepath.Join(base, "closing")
		os.MkdirAll(d, 0755)
		for _, y := range yamls {
			os.WriteFile(filepath.Join(d, "fab.yaml"), []byte(y), 0644)
			for i := 0; i < 5; i++ {
				fab.TopDir(d)
			}
		}
		if after := openFiles(); after > before+3 {
			failf("TopDir leaves files open")
		}
		os.RemoveAll(d)
	})
}
