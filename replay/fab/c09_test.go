package fab_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/bobg/fab"
)

func TestC09(t *testing.T) {
	defer finish()
	ctx0 := context.Background()

	run := func(ctx context.Context, c *fab.Command) (err error) {
		muted(func() { err = c.Run(ctx, fab.NewController("")) })
		return err
	}

	scenario(t, "the program and its arguments", func() {
		d := scratch()
		prog := write(d, "prog", "#!/bin/sh\n{ for x in \"$@\"; do printf '<%s>' \"$x\"; done; printf '\\n'; } >> \"$LOGTO\"\n")
		os.Chmod(prog, 0755)
		log := filepath.Join(d, "log")
		env := []string{"LOGTO=" + log}
		lists := [][]string{nil, {}, {"a"}, {""}, {"a b", "", "'\"", "$HOME", "-c", "*", "a"}, {"x", "x", "y", "x"}, {"-c", "echo"}, {"\n", "é"}}
		for _, shell := range []string{"", "ignored", "exit 7"} {
			for _, args := range lists {
				for _, verbose := range []bool{false, true} {
					oneCase()
					os.Remove(log)
					given := append([]string(nil), args...)
					c := &fab.Command{Cmd: prog, Args: args, Env: env, Shell: shell}
					what := fmt.Sprintf("Cmd %q, Args %q, Shell %q, verbose %v", "prog", args, shell, verbose)
					if err := run(fab.WithVerbose(ctx0, verbose), c); err != nil {
						failf("%s: %v", what, err)
					}
					want := ""
					for _, a := range given {
						want += "<" + a + ">"
					}
					if got := readStr(log); got != want+"\n" {
						failf("%s: got %q, want %q", what, got, want)
					}
				}
			}
		}
		// By the shell.
		old, was := os.LookupEnv("SHELL")
		defer func() {
			if was {
				os.Setenv("SHELL", old)
			} else {
				os.Unsetenv("SHELL")
			}
		}()
		for _, shell := range []string{"", "echo x", "  a  b ", "'", "$HOME", "a\nb", "-x", "#"} {
			for _, args := range [][]string{nil, {"a", "b"}} {
				oneCase()
				os.Remove(log)
				os.Setenv("SHELL", prog)
				what := fmt.Sprintf("Shell %q, Args %q", shell, args)
				if err := run(ctx0, &fab.Command{Shell: shell, Args: args, Env: env}); err != nil {
					failf("%s: %v", what, err)
				}
				if got, want := readStr(log), "<-c><"+shell+">\n"; got != want {
					failf("%s: $SHELL gets %q, want %q", what, got, want)
				}
			}
		}
		for _, set := range []bool{false, true} {
			oneCase()
			os.Remove(log)
			os.Unsetenv("SHELL")
			if set {
				os.Setenv("SHELL", "")
			}
			if err := run(ctx0, &fab.Command{Shell: "echo $0 >> $LOGTO", Env: env}); err != nil {
				failf("SHELL empty (%v): %v", set, err)
			}
			if got := readStr(log); got != "/bin/sh\n" {
				failf("SHELL empty (%v): run by %q, want /bin/sh", set, got)
			}
		}
		oneCase()
		os.Remove(log)
		if c := fab.Shellf("echo %d%% %s >> "+log, 7, "x y"); run(ctx0, c) != nil || readStr(log) != "7% x y\n" {
			failf("Shellf: %q", readStr(log))
		}
	})

	scenario(t, "directory and environment", func() {
		d := scratch()
		log := filepath.Join(d, "log")
		os.Setenv("C09_A", "inherited")
		os.Setenv("C09_B", "kept")
		defer os.Unsetenv("C09_A")
		defer os.Unsetenv("C09_B")
		envs := [][]string{nil, {}, {"C09_A=mine"}, {"C09_A=1", "C09_A=2"}, {"C09_C=c"}, {"C09_A="}, {"C09_C=x y=z"}}
		wants := []string{"inherited|kept|", "inherited|kept|", "mine|kept|", "2|kept|", "inherited|kept|c", "|kept|", "inherited|kept|x y=z"}
		for i, e := range envs {
			for _, spare := range []bool{false, true} {
				for _, dir := range []string{"", d, filepath.Join(d, "sub dir")} {
					oneCase()
					os.Remove(log)
					if dir != "" {
						os.MkdirAll(dir, 0755)
					}
					env := append([]string(nil), e...)
					if spare {
						env = append(make([]string, 0, len(e)+3), e...)
					}
					c := &fab.Command{Cmd: "/bin/sh", Args: []string{"-c", `echo "$C09_A|$C09_B|$C09_C|$(pwd -P)" > "$0"`, log}, Env: env, Dir: dir}
					what := fmt.Sprintf("Env %q, Dir %q", e, dir)
					for n := 0; n < 2; n++ {
						if err := run(ctx0, c); err != nil {
							failf("%s: %v", what, err)
						}
						wd := dir
						if wd == "" {
							wd, _ = os.Getwd()
						}
						wd, _ = filepath.EvalSymlinks(wd)
						if got, want := readStr(log), wants[i]+"|"+wd+"\n"; got != want {
							failf("%s: got %q, want %q", what, got, want)
						}
					}
					if !eqStrs(env, e) || !eqStrs(c.Env, e) {
						failf("%s: Env becomes %q", what, c.Env)
					}
				}
			}
		}
		// The whole inherited environment.
		oneCase()
		var b bytes.Buffer
		if err := run(ctx0, &fab.Command{Cmd: "env", Stdout: &b, Env: []string{"C09_Z=z"}}); err != nil {
			failf("env: %v", err)
		}
		for _, kv := range append(os.Environ(), "C09_Z=z") {
			if !strings.Contains(kv, "\n") && !strings.Contains("\n"+b.String(), "\n"+kv+"\n") && !strings.HasPrefix(kv, "_=") && !strings.HasPrefix(kv, "PWD=") && !strings.HasPrefix(kv, "SHLVL=") {
				failf("the environment lacks %q", kv)
			}
		}
	})

	scenario(t, "standard input", func() {
		d := scratch()
		in := write(d, "in", "from the file\n")
		for _, file := range []string{"", in, filepath.Join(d, "missing"), d} {
			for _, rd := range []bool{false, true} {
				for _, verbose := range []bool{false, true} {
					oneCase()
					var b bytes.Buffer
					c := &fab.Command{Cmd: "cat", Stdout: &b, StdinFile: file}
					if rd {
						c.Stdin = strings.NewReader("from the reader\n")
					}
					what := fmt.Sprintf("StdinFile %q, Stdin %v", strings.TrimPrefix(file, d), rd)
					err := run(fab.WithVerbose(ctx0, verbose), c)
					switch {
					case file == in:
						if err != nil || b.String() != "from the file\n" {
							failf("%s: %v, output %q", what, err, b.String())
						}
					case file != "":
						if err == nil {
							failf("%s: succeeds", what)
						}
						if b.Len() > 0 {
							failf("%s: output %q", what, b.String())
						}
						if file != d && !errors.Is(err, fs.ErrNotExist) {
							failf("%s: error %v", what, err)
						}
					case rd:
						if err != nil || b.String() != "from the reader\n" {
							failf("%s: %v, output %q", what, err, b.String())
						}
					default:
						if err != nil || b.String() != "" {
							failf("%s: %v, output %q", what, err, b.String())
						}
					}
				}
			}
		}
	})

	scenario(t, "outcomes", func() {
		d := scratch()
		mark := filepath.Join(d, "mark")
		dests := []string{"none", "both", "out", "err", "files", "shared file"}
		for _, verbose := range []bool{false, true} {
			for _, dest := range dests {
				for _, code := range []int{0, 1, 2, 3, 77, 126, 127, 130, 141, 255, -9, -15, -13} {
					for _, noise := range []int{0, 1, 2, 3} {
						oneCase()
						os.Remove(mark)
						sh := "echo ran >> " + mark + "\n"
						if noise&1 != 0 {
							sh += "echo on output\n"
						}
						if noise&2 != 0 {
							sh += "echo on error >&2\n"
						}
						if code >= 0 {
							sh += fmt.Sprintf("exit %d\n", code)
						} else {
							sh += fmt.Sprintf("kill %d $$\n", code)
						}
						c := &fab.Command{Cmd: "/bin/sh", Args: []string{"-c", sh}}
						var ob, eb bytes.Buffer
						capO, capE := true, true
						if dest == "both" || dest == "out" {
							c.Stdout, capO = &ob, false
						}
						if dest == "both" || dest == "err" {
							c.Stderr, capE = &eb, false
						}
						if dest == "files" || dest == "shared file" {
							c.StdoutFile, c.StderrFile, capO, capE = filepath.Join(d, "f1"), filepath.Join(d, "f2"), false, false
							if dest == "shared file" {
								c.StderrFile = c.StdoutFile
							}
						}
						what := fmt.Sprintf("a process that writes %d and exits with %d, destinations given: %s, verbose %v", noise, code, dest, verbose)
						err := run(fab.WithVerbose(ctx0, verbose), c)
						if got := readStr(mark); got != "ran\n" {
							failf("%s: process record %q", what, got)
						}
						if (err == nil) != (code == 0) {
							failf("%s: error %v", what, err)
							continue
						}
						if err == nil {
							continue
						}
						var ee *exec.ExitError
						if !errors.As(err, &ee) {
							failf("%s: the process's error cannot be recovered from %v", what, err)
						} else if code > 0 && ee.ExitCode() != code {
							failf("%s: recovered exit code %d", what, ee.ExitCode())
						}
						want := ""
						if capO && noise&1 != 0 {
							want += "on output\n"
						}
						if capE && noise&2 != 0 {
							want += "on error\n"
						}
						if !verbose && want != "" {
							var ce fab.CommandErr
							if !errors.As(err, &ce) {
								failf("%s: no CommandErr in %v", what, err)
							} else if string(ce.Output) != want {
								failf("%s: captured output %q, want %q", what, ce.Output, want)
							}
						}
					}
				}
			}
		}
		// Processes that cannot be started.
		for _, verbose := range []bool{false, true} {
			for _, c := range []*fab.Command{
				{Cmd: filepath.Join(d, "missing")}, {Cmd: "no-such-program-c09"}, {Cmd: "/bin/sh", Args: []string{"-c", "true"}, Dir: filepath.Join(d, "missing")},
				{Cmd: write(d, "notexec", "x")}, {Shell: "true", Dir: filepath.Join(d, "missing")},
				{Cmd: "true", StdoutFile: filepath.Join(d, "missing", "x")}, {Cmd: "true", StderrFile: filepath.Join(d, "missing", "x")},
				{Cmd: "true", StdoutFile: ">>" + filepath.Join(d, "missing", "x")}, {Cmd: "true", StderrFile: ">> " + filepath.Join(d, "missing", "x")},
				{Cmd: "true", StdoutFile: filepath.Join(d, "same"), StderrFile: ">>" + filepath.Join(d, "same")},
			} {
				oneCase()
				if err := run(fab.WithVerbose(ctx0, verbose), c); err == nil {
					failf("%+v, which cannot be started, succeeds", *c)
				}
			}
		}
	})

	scenario(t, "the context", func() {
		d := scratch()
		mark := filepath.Join(d, "mark")
		oneCase()
		ctx, cancel := context.WithCancel(ctx0)
		cancel()
		if err := run(ctx, &fab.Command{Cmd: "touch", Args: []string{mark}}); err == nil || exists(mark) {
			failf("with a canceled context: error %v, process run %v", err, exists(mark))
		}
		oneCase()
		ctx, cancel = context.WithTimeout(ctx0, 100*time.Millisecond)
		defer cancel()
		t0 := time.Now()
		if err := run(ctx, &fab.Command{Cmd: "sleep", Args: []string{"20"}}); err == nil || time.Since(t0) > 10*time.Second {
			failf("a process is not ended with its context: error %v after %v", err, time.Since(t0))
		}
	})

	scenario(t, "a command does not change by running", func() {
		d := scratch()
		for n := 0; n < 4; n++ {
			oneCase()
			args := append(make([]string, 0, 8), "-c", "echo $0 $FOO", "x")
			c := &fab.Command{Cmd: "/bin/sh", Args: args, Env: append(make([]string, 0, 8), "FOO=1"), StdoutFile: filepath.Join(d, "o"), StderrFile: ">>" + filepath.Join(d, "e"), Dir: d}
			before := fmt.Sprintf("%+v", *c)
			ctx := fab.WithVerbose(fab.WithDryRun(ctx0, n&1 != 0), n&2 != 0)
			for i := 0; i < 2; i++ {
				if err := run(ctx, c); err != nil {
					failf("%v", err)
				}
			}
			if after := fmt.Sprintf("%+v", *c); after != before {
				failf("%s becomes %s", before, after)
			}
		}
	})
}
