package fab_test

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
)

// sources gives the sum of the sources in the _fab directory, as the stand-in for the compiler computes it.
func (w *driverWorld) sources() string {
	es, _ := os.ReadDir(filepath.Join(w.top, "_fab"))
	var names []string
	for _, e := range es {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			names = append(names, e.Name())
		}
	}
	sort.Strings(names)
	h := sha256.New()
	for _, n := range names {
		h.Write([]byte(readStr(filepath.Join(w.top, "_fab", n))))
	}
	return hex.EncodeToString(h.Sum(nil))[:56]
}

// find finds a file in the cache directory.
func (w *driverWorld) find(name string) string {
	var found string
	filepath.Walk(w.cache, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Name() == name {
			found = p
		}
		return nil
	})
	return found
}

// check runs fab and checks that the driver that runs was compiled from the present sources.
func (w *driverWorld) check(what string, m fab.Main, compiles string) {
	oneCase()
	m.Topdir = w.top
	c, r := len(w.lines("compiles")), len(w.lines("runs"))
	_, _, err := w.run(m)
	n := len(w.lines("compiles")) - c
	switch {
	case err != nil:
		failf("%s: %v", what, err)
		return
	case compiles == "yes" && n == 0:
		failf("%s: the driver is not compiled", what)
	case compiles == "no" && n != 0:
		failf("%s: the driver is compiled again", what)
	case n > 1:
		failf("%s: the driver is compiled %d times", what, n)
	}
	runs := w.lines("runs")[r:]
	if len(runs) != 1 {
		failf("%s: the driver runs %d times", what, len(runs))
		return
	}
	if want := "run " + w.sources(); runs[0] != want {
		failf("%s: the driver that runs was not compiled from the present sources", what)
	}
}

// fails runs fab, which must fail without running a driver.
func (w *driverWorld) fails(what string, m fab.Main) {
	oneCase()
	m.Topdir = w.top
	r := len(w.lines("runs"))
	_, _, err := w.run(m)
	if err == nil {
		failf("%s: no failure is reported", what)
	}
	if len(w.lines("runs")) > r {
		failf("%s: a driver runs", what)
	}
}

const (
	hashName    = "hash"
	versionName = "fab-version.json"
	driverName  = "fab.bin"
)

func TestC19(t *testing.T) {
	if isChild() {
		return
	}
	defer finish()
	src := func(i int) string { return fmt.Sprintf("package rules\n\nvar X = %d\n", i) }
	scenario(t, "changes one at a time", func() {
		w := newDriverWorld()
		fabdir := filepath.Join(w.top, "_fab")
		write(fabdir, "a.go", src(1))
		write(fabdir, "b.go", "package rules\n\nvar Y = 1\n")
		write(fabdir, "b_windows.go", "package rules\n\nvar W = 1\n")
		w.check("the first run", fab.Main{}, "yes")
		for i, step := range []struct {
			what     string
			do       func()
			compiles string
		}{
			{"nothing", func() {}, "no"},
			{"a changed file", func() { write(fabdir, "a.go", src(2)) }, "yes"},
			{"a change of the last file", func() { write(fabdir, "b.go", "package rules\n\nvar Y = 2\n") }, "yes"},
			{"a change back", func() { write(fabdir, "a.go", src(1)) }, "yes"},
			{"a comment", func() { write(fabdir, "a.go", src(1)+"// x\n") }, "yes"},
			{"an added file", func() { write(fabdir, "c.go", "package rules\n\nvar Z = 1\n") }, "yes"},
			{"an added file that comes first", func() {
				write(fabdir, "_0.go", "package rules\n")
				os.Rename(filepath.Join(fabdir, "_0.go"), filepath.Join(fabdir, "A0.go"))
			}, "yes"},
			{"a renamed file", func() { os.Rename(filepath.Join(fabdir, "c.go"), filepath.Join(fabdir, "d.go")) }, "yes"},
			{"a removed file", func() { os.Remove(filepath.Join(fabdir, "d.go")) }, "yes"},
			{"files that change places", func() {
				x, y := readStr(filepath.Join(fabdir, "a.go")), readStr(filepath.Join(fabdir, "b.go"))
				write(fabdir, "a.go", y)
				write(fabdir, "b.go", x)
			}, "yes"},
			{"another file", func() { write(fabdir, "README", "x") }, "no"},
			{"a file of a test", func() { write(fabdir, "a_test.go", "package rules\n") }, "no"},
			{"a file of a directory below", func() { write(fabdir, "sub/x.go", "package sub\n") }, "no"},
			{"a YAML file", func() { write(w.top, "fab.yaml", "A: B\n") }, "no"},
			{"no driver", func() { os.Remove(w.find(driverName)) }, "yes"},
			{"no hash", func() { os.Remove(w.find(hashName)) }, "yes"},
			{"an empty hash", func() { os.WriteFile(w.find(hashName), nil, 0644) }, "yes"},
			{"a hash that is cut short", func() { h := w.find(hashName); os.WriteFile(h, []byte(readStr(h)[:10]), 0644) }, "yes"},
			{"a longer hash", func() { h := w.find(hashName); os.WriteFile(h, []byte(readStr(h)+"00"), 0644) }, "yes"},
			{"another hash", func() { os.WriteFile(w.find(hashName), []byte(strings.Repeat("0", 56)), 0644) }, "yes"},
			{"no version", func() { os.Remove(w.find(versionName)) }, "yes"},
			{"an empty version", func() { os.WriteFile(w.find(versionName), nil, 0644) }, "yes"},
			{"a bad version", func() { os.WriteFile(w.find(versionName), []byte("{"), 0644) }, "yes"},
			{"a version that is empty", func() { os.WriteFile(w.find(versionName), []byte("{}"), 0644) }, "yes"},
			{"another version of Go", func() { w.editInfo(func(i *debug.BuildInfo) { i.GoVersion += ".1" }) }, "yes"},
			{"another path", func() { w.editInfo(func(i *debug.BuildInfo) { i.Path += "x" }) }, "yes"},
			{"another main module", func() { w.editInfo(func(i *debug.BuildInfo) { i.Main.Path += "x" }) }, "yes"},
			{"another version", func() { w.editInfo(func(i *debug.BuildInfo) { i.Main.Version += "x" }) }, "yes"},
			{"another sum", func() { w.editInfo(func(i *debug.BuildInfo) { i.Main.Sum += "x" }) }, "yes"},
			{"another dependency", func() {
				w.editInfo(func(i *debug.BuildInfo) { i.Deps = append(i.Deps, &debug.Module{Path: "x"}) })
			}, "yes"},
			{"a dependency with another version", func() {
				w.editInfo(func(i *debug.BuildInfo) {
					if len(i.Deps) == 0 {
						i.Deps = append(i.Deps, &debug.Module{Path: "x"})
					}
					i.Deps[0].Version += "x"
				})
			}, "yes"},
			{"another setting", func() {
				w.editInfo(func(i *debug.BuildInfo) {
					i.Settings = append(i.Settings, debug.BuildSetting{Key: "vcs.revision", Value: "x"})
				})
			}, "yes"},
			{"a setting with another value", func() {
				w.editInfo(func(i *debug.BuildInfo) {
					if len(i.Settings) == 0 {
						i.Settings = append(i.Settings, debug.BuildSetting{Key: "vcs.modified"})
					}
					i.Settings[0].Value += "x"
				})
			}, "yes"},
		} {
			step.do()
			w.check(step.what, fab.Main{}, step.compiles)
			w.check("nothing after "+step.what, fab.Main{}, "no")
			if i%5 == 0 {
				w.check("force after "+step.what, fab.Main{Force: true}, "yes")
			}
			if i%4 == 0 {
				w.check("verbose after "+step.what, fab.Main{Verbose: true, Args: []string{"x"}}, "no")
			}
		}
	})
	scenario(t, "failures and interruptions", func() {
		for _, force := range []bool{false, true} {
			for _, how := range []string{"fail-init", "fail-tidy", "fail-build", "kill-init", "kill-tidy", "kill-build", "version", "driver"} {
				w := newDriverWorld()
				fabdir := filepath.Join(w.top, "_fab")
				what := fmt.Sprintf("%s, force %v: ", how, force)
				write(fabdir, "a.go", src(1))
				w.check(what+"the first run", fab.Main{}, "yes")
				write(fabdir, "a.go", src(2))
				restore := func() {}
				switch how {
				case "version": // The build information cannot be recorded.
					p := w.find(versionName)
					text := readStr(p)
					os.Remove(p)
					write(p, "x", "x")
					restore = func() { os.RemoveAll(p); os.WriteFile(p, []byte(text), 0644) }
					w.fails(what+"the run that fails", fab.Main{Force: force})
				case "driver": // The driver cannot be replaced.
					p := w.find(driverName)
					text := readStr(p)
					os.Remove(p)
					write(p, "x", "x")
					restore = func() { os.RemoveAll(p); os.WriteFile(p, []byte(text), 0755) }
					w.fails(what+"the run that fails", fab.Main{Force: force})
				default:
					w.set(how)
					if strings.HasPrefix(how, "kill") {
						w.runChild("TestC19", force)
						oneCase()
						if exists(filepath.Join(w.state, how)) {
							failf("%sthe run was not interrupted", what)
						}
					} else {
						w.fails(what+"the run that fails", fab.Main{Force: force})
					}
				}
				if h := w.find(hashName); h != "" {
					failf("%sa hash is left: %s", what, readStr(h))
				}
				restore()
				// Whatever the sources are now, the driver that runs was compiled from them.
				write(fabdir, "a.go", src(1))
				w.check(what+"the run after it, with the sources as before", fab.Main{}, "")
				write(fabdir, "a.go", src(2))
				w.check(what+"the run after that", fab.Main{}, "yes")
				w.check(what+"and again", fab.Main{}, "no")
			}
		}
	})
	scenario(t, "bad sources", func() {
		w := newDriverWorld()
		fabdir := filepath.Join(w.top, "_fab")
		write(fabdir, "a.go", src(1))
		w.check("the first run", fab.Main{}, "yes")
		write(fabdir, "a.go", "package rules\n\nvar X int = \"a\"\n")
		w.fails("a type error", fab.Main{})
		write(fabdir, "a.go", "package rules\n\nvar {\n")
		w.fails("a syntax error", fab.Main{})
		write(fabdir, "a.go", src(1))
		w.check("the run after it", fab.Main{}, "")
		write(fabdir, "z.go", "package other\n")
		w.fails("two packages", fab.Main{})
		os.Remove(filepath.Join(fabdir, "z.go"))
		w.check("the run after two packages", fab.Main{}, "")
	})
	scenario(t, "histories", func() {
		r := rng()
		rounds := 5
		if thorough() {
			rounds = 20
		}
		for round := 0; round < rounds; round++ {
			w := newDriverWorld()
			fabdir := filepath.Join(w.top, "_fab")
			write(fabdir, "a.go", src(0))
			var hist []string
			for step := 0; step < 8; step++ {
				force := r.Intn(5) == 0
				switch k := r.Intn(8); {
				case k < 3:
					write(fabdir, "a.go", src(r.Intn(2)))
					hist = append(hist, "edit")
				case k == 3:
					w.set("fail-build")
					oneCase()
					m := fab.Main{Topdir: w.top, Force: force}
					w.run(m)
					os.Remove(filepath.Join(w.state, "fail-build"))
					hist = append(hist, "failed build")
				case k == 4:
					w.set("kill-build")
					oneCase()
					w.runChild("TestC19", force)
					os.Remove(filepath.Join(w.state, "kill-build"))
					hist = append(hist, "killed build")
				case k == 5:
					if p := w.find([]string{hashName, versionName, driverName}[r.Intn(3)]); p != "" {
						os.Remove(p)
						hist = append(hist, "without "+filepath.Base(p))
					}
				default:
					hist = append(hist, "run")
				}
				want := ""
				if force {
					want = "yes"
				}
				w.check(strings.Join(hist, ", "), fab.Main{Force: force}, want)
			}
		}
	})
}

// editInfo changes the recorded build information.
func (w *driverWorld) editInfo(f func(*debug.BuildInfo)) {
	p := w.find(versionName)
	var info debug.BuildInfo
	if err := json.Unmarshal([]byte(readStr(p)), &info); err != nil {
		panic(err)
	}
	f(&info)
	b, err := json.Marshal(&info)
	if err != nil {
		panic(err)
	}
	if err = os.WriteFile(p, b, 0644); err != nil {
		panic(err)
	}
}
