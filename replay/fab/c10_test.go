package fab_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/bobg/fab"
)

func TestC10(t *testing.T) {
	defer finish()
	ctx0 := context.Background()

	kinds := []string{"none", "writer", "file", ">>file", ">> file", ">>new", "new", "fn", "fn closer", "fn closer fails", "fn nil", "writer closer"}
	scenario(t, "all combinations of destinations", func() {
		d := scratch()
		muted(func() { (&fab.Command{Cmd: "true"}).Run(ctx0, fab.NewController("")) })
		for _, ok1 := range kinds {
			for _, ek := range append(kinds, "same", "same >>", "same fn") {
				for _, exit := range []int{0, 3, -1} {
					for _, verbose := range []bool{false, true} {
						oneCase()
						one(d, ctx0, ok1, ek, exit, verbose)
					}
				}
			}
		}
	})

	scenario(t, "appending and overwriting several times", func() {
		d := scratch()
		for _, p1 := range []string{"", ">>", ">> ", ">>> >"} {
			for _, p2 := range []string{"", ">>", ">>  "} {
				for _, shared := range []bool{false, true} {
					oneCase()
					a, b := filepath.Join(d, "a"), filepath.Join(d, "b")
					os.Remove(a)
					os.Remove(b)
					if shared {
						b = a
					}
					c := &fab.Command{Shell: "echo out; echo err >&2", StdoutFile: p1 + a, StderrFile: p2 + b}
					what := fmt.Sprintf("StdoutFile %q, StderrFile %q run three times", strings.Replace(c.StdoutFile, d, "D", 1), strings.Replace(c.StderrFile, d, "D", 1))
					if shared && (p1 == "") != (p2 == "") {
						write(d, "a", "kept")
						var err error
						muted(func() { err = c.Run(ctx0, fab.NewController("")) })
						if err == nil || readStr(a) != "kept" {
							failf("%s: error %v and the file has %q", what, err, readStr(a))
						}
						continue
					}
					for i := 0; i < 3; i++ {
						var err error
						muted(func() { err = c.Run(ctx0, fab.NewController("")) })
						if err != nil {
							failf("%s: %v", what, err)
						}
					}
					wa, wb := "out\n", "err\n"
					if shared {
						wa = "out\nerr\n"
					}
					if p1 != "" {
						wa = strings.Repeat(wa, 3)
					}
					if p2 != "" {
						wb = strings.Repeat(wb, 3)
					}
					if got := readStr(a); got != wa {
						failf("%s: %q, want %q", what, got, wa)
					}
					if got := readStr(b); !shared && got != wb {
						failf("%s: %q, want %q", what, got, wb)
					}
				}
			}
		}
	})

	scenario(t, "interleaved output to one file", func() {
		d := scratch()
		for _, p := range []string{"", ">>"} {
			oneCase()
			f := filepath.Join(d, "f"+p)
			c := &fab.Command{Shell: "for i in 1 2 3 4 5; do echo o$i; echo e$i >&2; done", StdoutFile: p + f, StderrFile: p + f}
			var err error
			muted(func() { err = c.Run(ctx0, fab.NewController("")) })
			if got := readStr(f); err != nil || got != "o1\ne1\no2\ne2\no3\ne3\no4\ne4\no5\ne5\n" {
				failf("streams to one file (%q): %v, %q", p, err, got)
			}
		}
		// Captured together.
		oneCase()
		var err error
		muted(func() {
			err = (&fab.Command{Shell: "for i in 1 2 3; do echo o$i; echo e$i >&2; done; exit 1"}).Run(ctx0, fab.NewController(""))
		})
		var ce fab.CommandErr
		if !errors.As(err, &ce) || string(ce.Output) != "o1\ne1\no2\ne2\no3\ne3\n" {
			failf("captured together: %v, %q", err, ce.Output)
		}
	})

	scenario(t, "an error closing the file of standard output", func() {
		// A file that has been closed behind the back of the command: the descriptor is found through its number.
		d := scratch()
		for _, p := range []string{"", ">>"} {
			oneCase()
			name := filepath.Join(d, "x"+p)
			c := &fab.Command{Shell: "true", StdoutFile: p + name}
			c.Stdin = readerFunc(func([]byte) (int, error) {
				closeFd(name)
				return 0, io.EOF
			})
			var err error
			muted(func() { err = c.Run(ctx0, fab.NewController("")) })
			if err == nil {
				failf("an error closing the file of standard output (%q) is not reported", p)
			}
		}
	})
}

type readerFunc func([]byte) (int, error)

func (f readerFunc) Read(p []byte) (int, error) { return f(p) }

// closeFd makes closing the file with the given name fail, by closing its descriptor.
func closeFd(name string) {
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if l, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && l == name {
			var n int
			fmt.Sscan(e.Name(), &n)
			rawClose(n)
		}
	}
}

func one(d string, ctx0 context.Context, ok1, ek string, exit int, verbose bool) {
	type dest struct {
		kind, file string
		s          *sink
		calls      int
		old        string
		append     bool
	}
	c := &fab.Command{Shell: fmt.Sprintf("echo out; echo err >&2; exit %d", exit)}
	if exit < 0 {
		c = &fab.Command{Cmd: filepath.Join(d, "missing")}
	}
	con := fab.NewController("")
	ctx := fab.WithVerbose(ctx0, verbose)
	what := fmt.Sprintf("standard output to %q, error output to %q, exit %d, verbose %v", ok1, ek, exit, verbose)
	so, se := &dest{kind: ok1}, &dest{kind: ek}
	set := func(x *dest, n string, w *io.Writer, file *string, fn *func(context.Context, *fab.Controller) io.Writer) {
		x.s = &sink{}
		name := filepath.Join(d, n)
		os.Remove(name)
		switch x.kind {
		case "writer":
			*w = struct{ io.Writer }{x.s}
		case "writer closer":
			*w = x.s
		case "file", ">>file", ">> file", "new", ">>new":
			x.file = name
			if strings.HasSuffix(x.kind, "file") {
				x.old = "an older content of the file\n"
				write(d, n, x.old)
			}
			x.append = strings.HasPrefix(x.kind, ">>")
			*file = name
			if i := strings.IndexAny(x.kind, "fn"); x.append {
				*file = x.kind[:i] + name
			}
		case "fn", "fn closer", "fn closer fails", "fn nil":
			if x.kind == "fn closer fails" {
				x.s.closeErr = oddErr{"close fails"}
			}
			*fn = func(gctx context.Context, gcon *fab.Controller) io.Writer {
				x.calls++
				if gctx != ctx || gcon != con {
					failf("%s: the function gets another context or controller", what)
				}
				switch x.kind {
				case "fn":
					return struct{ io.Writer }{x.s}
				case "fn nil":
					return nil
				}
				return x.s
			}
		}
	}
	set(so, "o", &c.Stdout, &c.StdoutFile, &c.StdoutFn)
	set(se, "e", &c.Stderr, &c.StderrFile, &c.StderrFn)
	shared := false
	if strings.HasPrefix(ek, "same") {
		if so.file == "" {
			return
		}
		if (ek == "same >>") != so.append {
			return
		}
		if ek == "same fn" {
			c.StderrFn = func(context.Context, *fab.Controller) io.Writer { se.calls++; return se.s }
		}
		c.StderrFile = c.StdoutFile
		shared = true
	}
	before := openFiles()
	var err error
	gotO, gotE := capture(func() { err = c.Run(ctx, con) })
	if after := openFiles(); after > before {
		failf("%s: %d files stay open", what, after-before)
	}
	fails := exit != 0 || so.kind == "fn closer fails" || se.kind == "fn closer fails"
	if (err != nil) != fails {
		failf("%s: error %v", what, err)
	}
	for i, x := range []*dest{so, se} {
		text := []string{"out\n", "err\n"}[i]
		name := []string{"standard output", "error output"}[i]
		if exit < 0 {
			text = ""
		}
		printed := []string{gotO, gotE}[i]
		switch x.kind {
		case "writer", "writer closer", "fn", "fn closer", "fn closer fails":
			if got := x.s.buf.String(); got != text {
				failf("%s: %s is %q", what, name, got)
			}
			switch x.kind {
			case "fn closer", "fn closer fails":
				if x.s.closed == 0 {
					failf("%s: the writer for %s is not closed", what, name)
				} else if x.s.atClose != text {
					failf("%s: the writer for %s is closed when it has %q", what, name, x.s.atClose)
				}
			case "writer closer":
				if x.s.closed > 0 {
					failf("%s: the writer for %s, which was given, is closed", what, name)
				}
			}
		case "file", ">>file", ">> file", "new", ">>new":
			want := text
			if shared && text != "" {
				want = "out\nerr\n"
			}
			if x.append {
				want = x.old + want
			}
			if got := readStr(x.file); got != want {
				failf("%s: the file of %s has %q, want %q", what, name, got, want)
			}
		case "none", "fn nil":
			line := strings.TrimSuffix(text, "\n")
			if exit < 0 {
				break
			}
			if verbose {
				want := "    " + line + "\n"
				if !strings.Contains("\n"+printed, "\n"+want) && !strings.Contains(printed, want) {
					failf("%s: %s is not copied and indented: %q", what, name, printed)
				}
			} else {
				if strings.Contains(printed, line) {
					failf("%s: %s is copied: %q", what, name, printed)
				}
				var ce fab.CommandErr
				if exit > 0 && (!errors.As(err, &ce) || !strings.Contains(string(ce.Output), text)) {
					failf("%s: %s is not captured: %v", what, name, err)
				}
			}
		}
		if strings.HasPrefix(x.kind, "fn") && x.calls != 1 {
			failf("%s: the function for %s is called %d times", what, name, x.calls)
		}
		if x.kind != "none" && x.kind != "fn nil" && !shared {
			if strings.Contains(printed, strings.TrimSuffix(text, "\n")) && text != "" && !strings.Contains(printed, "Running command") {
				failf("%s: %s is also printed: %q", what, name, printed)
			}
			var ce fab.CommandErr
			if text != "" && errors.As(err, &ce) && strings.Contains(string(ce.Output), text) {
				failf("%s: %s is also captured: %q", what, name, ce.Output)
			}
		}
	}
}
