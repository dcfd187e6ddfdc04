package fab_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bobg/fab"
)

// flagsOf gives the flags of a driver.
func flagsOf(m fab.Main) (flags []string) {
	for _, f := range []struct {
		set  bool
		name string
	}{{m.Verbose, "-v"}, {m.List, "-list"}, {m.Force, "-f"}, {m.DryRun, "-n"}} {
		if f.set {
			flags = append(flags, f.name)
		}
	}
	return flags
}

// wrongArgs tells what is wrong about the arguments of a driver: they must be the directories and flags, in any order, and then the rest.
func wrongArgs(got []string, fabdir, topdir string, m fab.Main) string {
	want := map[string]bool{}
	for _, f := range flagsOf(m) {
		want[f] = true
	}
	n := len(got) - len(m.Args)
	if n < 0 || !eqStrs(append([]string{}, got[n:]...), append([]string{}, m.Args...)) {
		return fmt.Sprintf("do not end with %q", m.Args)
	}
	dirs := map[string]string{}
	for i := 0; i < n; i++ {
		switch a := got[i]; {
		case (a == "-fab" || a == "-top") && i+1 < n:
			if _, ok := dirs[a]; ok {
				return "repeat " + a
			}
			dirs[a] = filepath.Clean(got[i+1])
			i++
		case want[a]:
			delete(want, a)
		default:
			return fmt.Sprintf("contain %q", a)
		}
	}
	for f := range want {
		return "lack " + f
	}
	if dirs["-fab"] != filepath.Clean(fabdir) || dirs["-top"] != filepath.Clean(topdir) {
		return fmt.Sprintf("give the directories %q, not %q and %q", dirs, fabdir, topdir)
	}
	return ""
}

func allFlags(bits int) fab.Main {
	return fab.Main{Verbose: bits&1 != 0, List: bits&2 != 0, Force: bits&4 != 0, DryRun: bits&8 != 0}
}

func inDir(d string, f func()) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(d); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	f()
}

func TestC24(t *testing.T) {
	if isChild() {
		return
	}
	defer finish()
	repo := os.Getenv("VERIF_REPO")
	argLists := [][]string{nil, {"a"}, {"a", "b", "c"}, {"", "a", ""}, {"a", "-x", "y"}, {"a b", "c\nd", "'\"$HOME"}, {"-v"}, {"b", "a", "a"}, {"--", "-f", "x"}}
	scenario(t, "running the driver", func() {
		w := newDriverWorld()
		write(w.top, "_fab/a.go", "package rules\n\nvar X = 1\n")
		for i := 0; i < 32; i++ {
			oneCase()
			m := allFlags(i % 16)
			m.Args = argLists[i%len(argLists)]
			m.Topdir, m.Fabdir = w.top, w.cache
			given := m
			what := fmt.Sprintf("with %q and %q", flagsOf(m), m.Args)
			runs := len(w.lines("runs"))
			in := fmt.Sprintf("input %d\n\nx", i)
			status := i % 3
			write(w.state, "exit", fmt.Sprintln(status))
			out, errout, err := withStd(w.state, in, func() error { return m.Run(context.Background()) })
			if (err != nil) != (status != 0) {
				failf("%s: the driver exits with status %d, and the error is %v", what, status, err)
			}
			if n := len(w.lines("runs")) - runs; n != 1 {
				failf("%s: the driver runs %d times", what, n)
				continue
			}
			if s := wrongArgs(w.args(), w.cache, w.top, given); s != "" {
				failf("%s: the arguments of the driver, %q, %s", what, w.args(), s)
			}
			if got := strings.TrimSuffix(readStr(filepath.Join(w.state, "cwd")), "\n"); got != w.top {
				failf("%s: the driver runs in %s, not in %s", what, got, w.top)
			}
			if got := readStr(filepath.Join(w.state, "stdin")); got != in {
				failf("%s: the input of the driver is %q, not %q", what, got, in)
			}
			if strings.Count(out, "to stdout\n") != 1 || strings.Contains(out, "to stderr") {
				failf("%s: the output is %q", what, out)
			}
			if strings.Count(errout, "to stderr\n") != 1 || strings.Contains(errout, "to stdout") {
				failf("%s: the error output is %q", what, errout)
			}
		}
	})
	scenario(t, "finding the directories", func() {
		w := newDriverWorld()
		write(w.top, "_fab/a.go", "package rules\n\nvar X = 1\n")
		sub := filepath.Join(w.top, "x/y")
		os.MkdirAll(sub, 0755)
		for _, m := range []fab.Main{
			{Fabdir: w.cache},
			{Fabdir: "../cache"},
			{Fabdir: "../cache", Topdir: "."},
			{Topdir: "../top", Fabdir: w.cache},
		} {
			for _, d := range []string{w.top, sub} {
				if d == sub && (m.Topdir != "" || m.Fabdir != w.cache) {
					if m.Topdir != "" {
						m.Topdir = filepath.Join("../..", m.Topdir)
					}
					if m.Fabdir != w.cache {
						m.Fabdir = filepath.Join("../..", m.Fabdir)
					}
				}
				oneCase()
				m := m
				m.Args = []string{"a"}
				given := m
				what := fmt.Sprintf("in %s, with the top directory %q and the cache directory %q", d, m.Topdir, m.Fabdir)
				runs := len(w.lines("runs"))
				var err error
				inDir(d, func() { _, _, err = withStd(w.state, "", func() error { return m.Run(context.Background()) }) })
				if err != nil || len(w.lines("runs")) != runs+1 {
					failf("%s: %v, the driver runs %d times", what, err, len(w.lines("runs"))-runs)
					continue
				}
				// Relative names are relative to the directory the driver runs in.
				got := w.args()
				for i, a := range got {
					if i > 0 && (got[i-1] == "-fab" || got[i-1] == "-top") && !filepath.IsAbs(a) {
						got[i] = filepath.Join(w.top, a)
					}
				}
				if s := wrongArgs(got, w.cache, w.top, given); s != "" {
					failf("%s: the arguments of the driver, %q, %s", what, got, s)
				}
				if got := strings.TrimSuffix(readStr(filepath.Join(w.state, "cwd")), "\n"); got != w.top {
					failf("%s: the driver runs in %s, not in %s", what, got, w.top)
				}
			}
		}
		oneCase()
		none := scratch()
		inDir(none, func() {
			if top, err := fab.TopDir("."); err == nil {
				return // above the scratch directory
			} else if top != "" {
				failf("TopDir gives %q and %v", top, err)
			}
			m := fab.Main{Fabdir: w.cache}
			if _, _, err := withStd(w.state, "", func() error { return m.Run(context.Background()) }); err == nil {
				failf("without a top directory: no failure is reported")
			}
		})
	})
	scenario(t, "without a driver", func() { driverlessCases(w0()) })
	scenario(t, "failures without a driver", func() { driverlessFailures() })
	scenarioFor(t, "the fab command and a real driver", 5*time.Minute, func() { realDriver(repo) })
}

func scenarioFor(t *testing.T, name string, limit time.Duration, f func()) {
	old := scenarioLimit
	scenarioLimit = limit
	defer func() { scenarioLimit = old }()
	scenario(t, name, f)
}

type plainWorld struct {
	top, cache string
	n          int
}

func w0() *plainWorld {
	d := scratch()
	return &plainWorld{top: filepath.Join(d, "top"), cache: filepath.Join(d, "cache")}
}

// plainYAML is a set of targets that tell what they do in files log and out, and on the standard output.
const plainYAML = `
# A says a.
A: !Command
  Shell: echo a >> log
B: !Command
  Shell: echo b >> log
# D is D.
#
# More.
D: !Files
  Target: !Command
    Shell: echo d >> log; cat in > out
  In:
    - in
  Out:
    - out
V: !Command
  Shell: echo loud
  Stdout: $verbose
Bad: !Command
  Shell: exit 3
G: !ArgTarget
  - A
  - x
`

func (w *plainWorld) run(m fab.Main) (string, error) {
	m.Topdir, m.Fabdir = w.top, w.cache
	if err := os.MkdirAll(w.top, 0755); err != nil {
		panic(err)
	}
	out, _, err := withStd(filepath.Dir(w.top), "", func() error { return m.Run(context.Background()) })
	return out, err
}

func (w *plainWorld) log() string {
	p := filepath.Join(w.top, "log")
	if !exists(p) {
		return ""
	}
	return readStr(p)
}

func driverlessCases(w *plainWorld) {
	for bits := 0; bits < 16; bits++ {
		for _, args := range [][]string{nil, {"A"}, {"A", "B"}, {"D"}, {"V"}, {"Bad"}, {"A", "-x"}, {"B", "D"}, {"Nope"}, {"D", "V", "Nope"}, {"A", "Bad"}, {"D", "D"}} {
			oneCase()
			w := w0()
			m := allFlags(bits)
			m.Args = args
			what := fmt.Sprintf("with %q and %q", flagsOf(m), args)
			write(w.top, "fab.yaml", plainYAML)
			write(w.top, "in", "x")
			// First bring D up to date.
			if _, err := w.run(fab.Main{Args: []string{"D"}}); err != nil {
				failf("bringing D up to date: %v", err)
				return
			}
			if w.log() != "d\n" || !exists(filepath.Join(w.cache, "hash.db")) {
				failf("bringing D up to date: the log is %q, the database exists: %v", w.log(), exists(filepath.Join(w.cache, "hash.db")))
				return
			}
			os.Remove(filepath.Join(w.top, "log"))
			out, err := w.run(m)
			want, bad := map[string]int{}, false
			args := args
			if len(args) > 1 && strings.HasPrefix(args[1], "-") {
				args = args[:1]
			}
			loud := false
			for _, a := range args {
				switch a {
				case "A":
					want["a"] = 1
				case "B":
					want["b"] = 1
				case "D":
					if m.Force {
						want["d"] = 1
					}
				case "V":
					loud = m.Verbose
				case "Bad":
					bad = !m.DryRun
				case "Nope":
					want, bad, loud = nil, true, false
				}
				if bad && a == "Nope" {
					break
				}
			}
			if last := len(args) - 1; last >= 0 && args[last] == "Nope" {
				want, bad, loud = nil, true, false
			}
			if m.DryRun || m.List {
				want, loud = nil, false
			}
			if m.List {
				bad = false
			}
			if bad != (err != nil) {
				failf("%s: the error is %v", what, err)
			}
			got := map[string]int{}
			for _, l := range strings.Fields(w.log()) {
				got[l]++
			}
			if fmt.Sprint(got) != fmt.Sprint(want) && len(got)+len(want) > 0 {
				failf("%s: runs %v, not %v", what, got, want)
			}
			if said := hasLine(out, "loud"); said != loud && !m.List {
				failf("%s: the output is %q", what, out)
			}
			if m.List {
				con := fab.NewController(w.top)
				if err := con.ReadYAMLFile(""); err != nil {
					panic(err)
				}
				var buf bytes.Buffer
				con.ListTargets(&buf)
				if !strings.HasSuffix(out, buf.String()) || !strings.Contains(out, "A says a.") || (!m.Verbose && out != buf.String()) {
					failf("%s: the list is %q, not %q", what, out, buf.String())
				}
			} else if strings.Contains(out, "A says a.") {
				failf("%s: lists the targets: %q", what, out)
			}
		}
	}
}

func driverlessFailures() {
	fails := func(what string, w *plainWorld, m fab.Main) {
		oneCase()
		_, err := w.run(m)
		if err == nil {
			failf("%s: no failure is reported", what)
		}
		if w.log() != "" {
			failf("%s: runs %q", what, w.log())
		}
	}
	for _, list := range []bool{false, true} {
		m := fab.Main{List: list, Args: []string{"A"}}
		w := w0()
		write(w.top, "fab.yaml", plainYAML+"X: !Nothing\n")
		fails(fmt.Sprintf("a bad YAML file, list %v", list), w, m)
		w = w0()
		write(w.top, "fab.yaml", plainYAML+"[\n")
		fails(fmt.Sprintf("a malformed YAML file, list %v", list), w, m)
		w = w0()
		write(w.top, "fab.yaml/x", "")
		fails(fmt.Sprintf("an unreadable YAML file, list %v", list), w, m)
	}
	w := w0()
	fails("without a YAML file", w, fab.Main{Args: []string{"A"}})
	oneCase()
	if out, err := w.run(fab.Main{}); err != nil || out != "" {
		failf("without a YAML file and arguments: %q, %v", out, err)
	}
	oneCase()
	if out, err := w.run(fab.Main{List: true}); err != nil || out != "" {
		failf("a list without a YAML file: %q, %v", out, err)
	}
	w = w0()
	write(w.top, "fab.yaml", plainYAML)
	write(filepath.Dir(w.cache), "cache", "a file, not a directory")
	fails("no cache directory", w, fab.Main{Args: []string{"A"}})
	w = w0()
	write(w.top, "fab.yaml", plainYAML)
	write(w.cache, "hash.db/x", "")
	fails("a database that is a directory", w, fab.Main{Args: []string{"A"}})
	w = w0()
	write(w.top, "fab.yaml", plainYAML)
	write(w.cache, "hash.db", strings.Repeat("not a database ", 1000))
	fails("a database that is something else", w, fab.Main{Args: []string{"A"}})
	w = w0()
	write(w.top, "fab.yaml", plainYAML)
	fails("an unknown target", w, fab.Main{Args: []string{"A", "Nope"}})
	fails("arguments of an unknown target", w, fab.Main{Args: []string{"Nope", "-x"}})
	oneCase()
	w = w0()
	write(w.top, "fab.yaml", "A: !Command\n  Shell: touch ran; exit 1\n")
	if _, err := w.run(fab.Main{Args: []string{"A"}}); err == nil || !exists(filepath.Join(w.top, "ran")) {
		failf("a target that fails: the error is %v, it ran: %v", err, exists(filepath.Join(w.top, "ran")))
	}
	oneCase()
	w = w0()
	write(w.top, "fab.yaml", "_dir: .\nx/A: B\nB: !Command\n  Shell: touch ran\n")
	w.run(fab.Main{Args: []string{"B"}})
	// A missing target of a reference is a failure when it runs.
	w = w0()
	write(w.top, "fab.yaml", "A: Nope\n")
	if _, err := w.run(fab.Main{Args: []string{"A"}}); err == nil {
		failf("a reference to an unknown target: no failure is reported")
	}
}

// realDriver builds the fab command, and runs it with and without a _fab directory.
func realDriver(repo string) {
	if p := os.Getenv("VERIF_REAL_PATH"); p != "" {
		os.Setenv("PATH", p)
	}
	d := scratch()
	bin := filepath.Join(d, "fab")
	build := exec.Command("go", "build", "-o", bin, "./cmd/fab")
	build.Dir = repo
	if out, err := build.CombinedOutput(); err != nil {
		failf("building the fab command: %v: %s", err, out)
		return
	}
	run := func(cwd string, args ...string) (string, error) {
		oneCase()
		cmd := exec.Command(bin, args...)
		cmd.Dir = cwd
		out, err := cmd.CombinedOutput()
		return string(out), err
	}
	check := func(top, cache string, driver bool) {
		log := func() string {
			p := filepath.Join(top, "log")
			if !exists(p) {
				return ""
			}
			s := readStr(p)
			os.Remove(p)
			return s
		}
		sub := filepath.Join(top, "x")
		os.MkdirAll(sub, 0755)
		for _, step := range []struct {
			args   []string
			log    string
			bad    bool
			loud   bool
			listed bool
		}{
			{[]string{"A"}, "a\n", false, false, false},
			{[]string{"D"}, "d\n", false, false, false},
			{[]string{"D"}, "", false, false, false},
			{[]string{"-f", "D"}, "d\n", false, false, false},
			{[]string{"-n", "A", "V"}, "", false, false, false},
			{[]string{"V"}, "", false, false, false},
			{[]string{"-v", "V"}, "", false, true, false},
			{[]string{"-list"}, "", false, false, true},
			{[]string{"-list", "-f", "A"}, "", false, false, true},
			{[]string{"Bad"}, "", true, false, false},
			{[]string{"A", "Nope"}, "", true, false, false},
			{[]string{"A", "-x", "y"}, "a\n", false, false, false},
			{[]string{"-n", "-f", "D"}, "", false, false, false},
			{[]string{"-v", "-f", "D"}, "d\n", false, false, false},
		} {
			if driver && len(step.args) == 3 && step.args[1] == "-f" {
				continue // compiling once more takes long
			}
			dir := top
			if len(step.args) == 1 {
				dir = sub
			}
			what := fmt.Sprintf("fab %s, with a driver: %v", strings.Join(step.args, " "), driver)
			out, err := run(dir, append([]string{"-fab", cache}, step.args...)...)
			if (err != nil) != step.bad {
				failf("%s: %v, %s", what, err, out)
			}
			if got := log(); got != step.log {
				failf("%s: runs %q, not %q (%s)", what, got, step.log, out)
			}
			if loud := hasLine(out, "loud"); loud != step.loud && !step.listed {
				failf("%s: the output is %q", what, out)
			}
			if listed := strings.Contains(out, "A says a."); listed != step.listed {
				failf("%s: the output is %q", what, out)
			}
			if step.listed && driver {
				for _, l := range []string{"Go1\n    Go1 is in Go.\n", "Go2\n", "A\n"} {
					if !strings.Contains(out, l) {
						failf("%s: the list, %q, lacks %q", what, out, l)
					}
				}
				for _, l := range []string{"hidden", "NotATarget", "Type"} {
					if strings.Contains(out, l) {
						failf("%s: the list, %q, contains %q", what, out, l)
					}
				}
			}
		}
		if driver {
			for _, step := range []struct{ arg, log string }{{"Go1", "go1\n"}, {"Go2", "go2\n"}, {"Both", "go1\na\n"}} {
				out, err := run(top, "-fab", cache, step.arg)
				if got := log(); err != nil || got != step.log {
					failf("fab %s: runs %q, not %q: %v (%s)", step.arg, got, step.log, err, out)
				}
			}
		}
		if !exists(filepath.Join(cache, "hash.db")) {
			failf("there is no database in the cache directory, with a driver: %v", driver)
		}
	}
	yaml := plainYAML + "Both: !Seq\n  - Go1\n  - A\n"
	top := filepath.Join(d, "plain")
	write(top, "fab.yaml", plainYAML)
	write(top, "in", "x")
	check(top, filepath.Join(d, "cache1"), false)

	top = filepath.Join(d, "driver")
	write(top, "fab.yaml", yaml)
	write(top, "in", "x")
	write(top, "go.mod", strings.Replace(readStr(filepath.Join(repo, "_testdata/compile/go.mod")), "=> ../fab", "=> "+repo, 1))
	write(top, "go.sum", readStr(filepath.Join(repo, "_testdata/compile/go.sum")))
	write(top, "_fab/rules.go", `package rules

import "github.com/bobg/fab"

// Go1 is in Go.
var Go1 = fab.Shellf("echo go1 >> log")

var Go2 = fab.Seq(fab.Shellf("echo go2 >> log"))

var hidden = fab.Shellf("echo hidden >> log")

var NotATarget = 17

type Type struct{ fab.Target }

func F() {}
`)
	check(top, filepath.Join(d, "cache2"), true)
}

// hasLine tells whether a text has the given line, whatever its indentation.
func hasLine(text, line string) bool {
	for _, l := range strings.Split(text, "\n") {
		if strings.TrimSpace(l) == line {
			return true
		}
	}
	return false
}
