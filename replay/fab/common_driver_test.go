package fab_test

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/bobg/fab"
)

// A stand-in for the go command: what compiles a driver writes a script that tells how it was called and what
// it was compiled from. Everything else is done by the real go command.
const fakeGo = `#!/bin/bash
real=@REAL@
state=@STATE@
case "$1" in
mod)
	if [ "$2" = init ]; then
		printf 'module x\n' > go.mod
	fi
	if [ -e "$state/kill-$2" ]; then
		rm -f "$state/kill-$2"
		kill -9 $PPID
		exit 1
	fi
	[ -e "$state/fail-$2" ] && { rm -f "$state/fail-$2"; echo failed; exit 1; }
	exit 0;;
build)
	out=x
	[ "$2" = -o ] && out=$3
	echo compile >> "$state/compiles"
	if [ -e "$state/fail-build" ]; then
		rm -f "$state/fail-build"
		echo failed
		exit 1
	fi
	sum=$(cat $(ls pkg/*/*.go | sort) | sha256sum | cut -c1-56)
	{
		echo '#!/bin/bash'
		echo "echo run $sum >> '$state/runs'"
		echo "pwd > '$state/cwd'"
		echo "printf '%s\\0' \"\$@\" > '$state/args'"
		echo "cat > '$state/stdin'"
		echo "echo to stdout"
		echo "echo to stderr >&2"
		echo "exit \$(cat '$state/exit' 2> /dev/null || echo 0)"
	} > "$out"
	chmod +x "$out"
	if [ -e "$state/kill-build" ]; then
		rm -f "$state/kill-build"
		kill -9 $PPID
		exit 1
	fi
	exit 0;;
esac
exec "$real" "$@"
`

// driverWorld is a project with a _fab directory, a cache directory, and the stand-in for the go command.
type driverWorld struct {
	top, cache, state string
}

// newDriverWorld puts the stand-in first in the path of this process.
func newDriverWorld() *driverWorld {
	base := scratch()
	w := &driverWorld{top: filepath.Join(base, "top"), cache: filepath.Join(base, "cache"), state: filepath.Join(base, "state")}
	for _, d := range []string{w.top, w.state} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
	}
	real := os.Getenv("VERIF_REAL_GO")
	if real == "" {
		var err error
		real, err = exec.LookPath("go")
		if err != nil {
			panic(err)
		}
		os.Setenv("VERIF_REAL_GO", real)
		os.Setenv("VERIF_REAL_PATH", os.Getenv("PATH"))
	}
	p := write(base, "bin/go", strings.NewReplacer("@REAL@", real, "@STATE@", w.state).Replace(fakeGo))
	os.Chmod(p, 0755)
	os.Setenv("PATH", filepath.Dir(p)+":"+os.Getenv("VERIF_REAL_PATH"))
	write(w.top, "go.mod", "module ex.com/t\n\ngo 1.20\n")
	return w
}

func (w *driverWorld) lines(name string) []string {
	if !exists(filepath.Join(w.state, name)) {
		return nil
	}
	return strings.Split(strings.TrimSuffix(readStr(filepath.Join(w.state, name)), "\n"), "\n")
}

func (w *driverWorld) set(name string) { write(w.state, name, "") }

// args are the arguments of the last run of the driver.
func (w *driverWorld) args() []string {
	s := readStr(filepath.Join(w.state, "args"))
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\x00"), "\x00")
}

// withStd runs a function with the given standard input, and gives what it wrote to standard output and to the error output.
func withStd(dir, in string, f func() error) (string, string, error) {
	i, o, e := os.Stdin, os.Stdout, os.Stderr
	defer func() { os.Stdin, os.Stdout, os.Stderr = i, o, e }()
	var err error
	if os.Stdin, err = os.Open(write(dir, "std.in", in)); err != nil {
		panic(err)
	}
	defer os.Stdin.Close()
	if os.Stdout, err = os.Create(filepath.Join(dir, "std.out")); err != nil {
		panic(err)
	}
	defer os.Stdout.Close()
	if os.Stderr, err = os.Create(filepath.Join(dir, "std.err")); err != nil {
		panic(err)
	}
	defer os.Stderr.Close()
	ferr := f()
	return readStr(filepath.Join(dir, "std.out")), readStr(filepath.Join(dir, "std.err")), ferr
}

// run runs fab in this process.
func (w *driverWorld) run(m fab.Main) (string, string, error) {
	if m.Fabdir == "" {
		m.Fabdir = w.cache
	}
	return withStd(w.state, "", func() error { return m.Run(context.Background()) })
}

// runChild runs fab in a process of its own, which may be killed.
func (w *driverWorld) runChild(test string, force bool) {
	cmd := exec.Command(os.Args[0], "-test.run=^"+test+"$")
	cmd.Env = append(os.Environ(), "VERIF_CHILD="+w.top+"\n"+w.cache+"\n"+fmt.Sprint(force))
	cmd.Run()
}

// isChild tells whether this is such a process, and runs fab if so.
func isChild() bool {
	parts := strings.Split(os.Getenv("VERIF_CHILD"), "\n")
	if len(parts) != 3 {
		return false
	}
	m := fab.Main{Topdir: parts[0], Fabdir: parts[1], Force: parts[2] == "true"}
	m.Run(context.Background())
	return true
}
