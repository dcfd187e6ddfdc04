package fab_test

import (
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/bobg/fab"
	"github.com/bobg/fab/ts"
)

// snapshot describes all files in a directory.
func snapshot(d string) string {
	var out []string
	filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
		if err != nil {
			out = append(out, err.Error())
			return nil
		}
		i, _ := e.Info()
		s := fmt.Sprintf("%s %v %v", strings.TrimPrefix(p, d), i.Mode(), i.ModTime().UnixNano())
		if i.Mode().IsRegular() {
			s += fmt.Sprintf(" %q", readStr(p))
		}
		out = append(out, s)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

type nopCloser struct{ io.Writer }

func (nopCloser) Close() error { return nil }

func TestC08(t *testing.T) {
	defer finish()
	ctx0 := context.Background()
	contexts := func() []context.Context {
		var out []context.Context
		for bits := 0; bits < 16; bits++ {
			ctx := ctx0
			if bits&8 != 0 {
				ctx = fab.WithDryRun(ctx, false) // overridden
			}
			if bits&1 != 0 {
				ctx = fab.WithVerbose(ctx, true)
			}
			ctx = fab.WithDryRun(ctx, true)
			if bits&2 != 0 {
				ctx = fab.WithForce(ctx, true)
			}
			if bits&4 != 0 {
				c, cancel := context.WithCancel(ctx)
				cancel()
				ctx = c
			}
			out = append(out, ctx)
		}
		return out
	}
	// check runs the target in dry-run mode, when the directory must not change.
	check := func(d, what string, target fab.Target, viaController bool) {
		old := time.Now().Add(-time.Hour)
		filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if e != nil && e.Type().IsRegular() {
				os.Chtimes(p, old, old)
			}
			return nil
		})
		for i, ctx := range contexts() {
			oneCase()
			before := snapshot(d)
			n := openFiles()
			con := fab.NewController(d)
			var err error
			muted(func() {
				if viaController {
					err = con.Run(ctx, target)
				} else {
					err = target.Run(ctx, con)
				}
			})
			if err != nil {
				failf("dry run of %s (context %d): %v", what, i, err)
			}
			if after := snapshot(d); after != before {
				failf("dry run of %s (context %d) changes the directory from %s to %s", what, i, before, after)
			}
			if m := openFiles(); m > n {
				failf("dry run of %s leaves %d files open", what, m-n)
			}
		}
	}

	scenario(t, "commands", func() {
		d := scratch()
		old := write(d, "old", "old")
		write(d, "sub/in", "in")
		fifo := filepath.Join(d, "no", "such", "dir", "f")
		prog := write(d, "prog", "#!/bin/sh\ntouch "+filepath.Join(d, "ran")+"\n")
		os.Chmod(prog, 0755)
		touch := "touch " + filepath.Join(d, "ran")
		outs := []string{"", old, filepath.Join(d, "new"), ">>" + old, ">> " + filepath.Join(d, "new"), fifo, d}
		for _, o := range outs {
			for _, e := range outs {
				for _, in := range []string{"", filepath.Join(d, "missing"), filepath.Join(d, "sub/in")} {
					for form := 0; form < 3; form++ {
						c := &fab.Command{Shell: touch, StdoutFile: o, StderrFile: e, StdinFile: in}
						switch form {
						case 1:
							c = &fab.Command{Cmd: prog, Args: []string{"x"}, StdoutFile: o, StderrFile: e, StdinFile: in, Dir: d, Env: []string{"A=B"}}
						case 2:
							c = &fab.Command{Cmd: filepath.Join(d, "missing"), StdoutFile: o, StderrFile: e, StdinFile: in, Dir: fifo}
						}
						if o == d && form == 0 {
							os.Setenv("SHELL", prog)
						}
						check(d, fmt.Sprintf("a command with Cmd %q, StdoutFile %q, StderrFile %q, StdinFile %q", filepath.Base(c.Cmd), strings.ReplaceAll(o, d, "D"), strings.ReplaceAll(e, d, "D"), strings.ReplaceAll(in, d, "D")), c, form == 1)
						os.Setenv("SHELL", "/bin/sh")
					}
				}
			}
		}
		for form := 0; form < 16; form++ {
			var s1, s2 sink
			c := &fab.Command{Shell: touch}
			if form&1 != 0 {
				c.Stdout = &s1
			}
			if form&2 != 0 {
				c.Stderr = &s2
			}
			if form&4 != 0 {
				c.StdoutFn = func(context.Context, *fab.Controller) io.Writer { return nopCloser{&s1} }
			}
			if form&8 != 0 {
				c.StderrFn = func(context.Context, *fab.Controller) io.Writer { return nopCloser{&s2} }
				c.Stdin = strings.NewReader("x")
			}
			check(d, fmt.Sprintf("a command with writers and functions (%d)", form), c, form&3 == 0)
			if s1.buf.Len()+s2.buf.Len() > 0 {
				failf("dry run of a command with writers (%d) produces %q %q", form, s1.buf.String(), s2.buf.String())
			}
		}
	})

	scenario(t, "Clean", func() {
		d := scratch()
		a, b := write(d, "a", "a"), write(d, "sub/b", "b")
		os.MkdirAll(filepath.Join(d, "empty"), 0755)
		auto := write(d, "auto", "auto")
		fab.Files(&logged{Name: "x", log: &runLog{}}, nil, []string{auto}, fab.Autoclean(true))
		for _, files := range [][]string{nil, {}, {a}, {a, b}, {b, a, a}, {filepath.Join(d, "missing")}, {filepath.Join(d, "empty")}, {filepath.Join(d, "sub")}, {d}, {filepath.Join(a, "x")}} {
			for _, ac := range []bool{false, true} {
				check(d, fmt.Sprintf("Clean of %q, Autoclean %v", files, ac), &fab.Clean{Files: files, Autoclean: ac}, true)
				check(d, fmt.Sprintf("Clean of %q, Autoclean %v", files, ac), &fab.Clean{Files: files, Autoclean: ac}, false)
			}
		}
	})

	scenario(t, "TypeScript declarations", func() {
		d := scratch()
		write(d, "go.mod", "module m\n\ngo 1.20\n")
		write(d, "m.go", "package m\n\nimport \"context\"\n\ntype S struct{}\n\nfunc (S) F(context.Context, int) (int, error) { return 0, nil }\n")
		old := write(d, "old.ts", "old")
		for _, out := range []string{old, filepath.Join(d, "new.ts"), filepath.Join(d, "missing", "x.ts")} {
			for _, typ := range []string{"S", "NoSuchType"} {
				target, err := ts.Decls(d, typ, "/s", out)
				if err != nil {
					failf("ts.Decls: %v", err)
					continue
				}
				check(d, fmt.Sprintf("ts.Decls of type %s to %q", typ, strings.TrimPrefix(out, d)), target, true)
			}
		}
	})

	scenario(t, "Files targets", func() {
		d := scratch()
		in, out, in2 := write(d, "in", "in"), write(d, "out", "out"), write(d, "in2", "in2")
		for _, known := range []bool{false, true} {
			for _, cs := range []int{0, 1, 2, 3, 4} {
				var sub fab.Target
				log := &runLog{}
				switch cs {
				case 0:
					sub = fab.Shellf("echo changed > %s", out)
				case 1:
					sub = &logged{Name: "x", log: log}
				case 2:
					sub = fab.Seq(&fab.Clean{Files: []string{out}}, fab.Shellf("echo changed > %s", out))
				case 3:
					sub = fab.All(&fab.Command{Shell: "true", StdoutFile: out}, &fab.Clean{Files: []string{in}})
				case 4:
					sub = fab.Deps(fab.Shellf("echo changed > %s", out), &fab.Clean{Files: []string{in}})
				}
				db := newDB()
				ft := fab.Files(sub, []string{in, in2}, []string{out})
				fab.Files(fab.Shellf("echo changed > %s", in2), []string{in}, []string{in2}) // a prerequisite
				if known {
					for _, f := range []fab.Target{ft} {
						if h := hashNow(d, f); h != "" {
							db.Add(ctx0, []byte(h))
						}
					}
				}
				db.addN, db.hasN = 0, 0
				for _, bad := range []bool{false, true} {
					if bad {
						db.hasErr, db.addErr = oddErr{"has"}, oddErr{"add"}
					}
					for _, verbose := range []bool{false, true} {
						for _, force := range []bool{false, true} {
							oneCase()
							what := fmt.Sprintf("Files with subtarget %d, known %v, failing database %v, verbose %v, force %v", cs, known, bad, verbose, force)
							before := snapshot(d)
							ctx := fab.WithVerbose(fab.WithForce(fab.WithHashDB(fab.WithDryRun(ctx0, true), db), force), verbose)
							if err := runQuiet(fab.NewController(d), ctx, ft); err != nil {
								failf("dry run of %s: %v", what, err)
							}
							if after := snapshot(d); after != before {
								failf("dry run of %s changes the directory from %s to %s", what, before, after)
							}
							if db.hasN+db.addN > 0 {
								failf("dry run of %s asks the database %d times and adds %d times", what, db.hasN, db.addN)
							}
							if cs == 1 && len(log.list()) == 0 {
								failf("dry run of %s does not run the subtarget", what)
							}
							db.addN, db.hasN = 0, 0
							log.ids = nil
						}
					}
				}
			}
		}
		// A subtarget that fails.
		oneCase()
		db := newDB()
		ft := fab.Files(&logged{Name: "y", log: &runLog{}, err: oddErr{"y"}}, []string{in}, nil)
		if err := runQuiet(fab.NewController(d), fab.WithHashDB(fab.WithDryRun(ctx0, true), db), ft); err == nil || db.hasN+db.addN > 0 {
			failf("dry run of Files with a failing subtarget: %v, database used %d times", err, db.hasN+db.addN)
		}
	})
}
