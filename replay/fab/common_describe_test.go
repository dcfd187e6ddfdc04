package fab_test

import (
	"context"
	"fmt"
	"io"
	"os"
	"reflect"
	"strings"

	"github.com/bobg/fab"
)

// describe describes a target that a node was decoded to.
func describe(t fab.Target) string {
	v := reflect.ValueOf(t)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return fmt.Sprintf("%T", t)
	}
	v = v.Elem()
	sub := func(name string) string {
		x, _ := v.FieldByName(name).Interface().(fab.Target)
		return describe(x)
	}
	subs := func() string {
		var out []string
		for _, x := range v.FieldByName("Targets").Interface().([]fab.Target) {
			out = append(out, describe(x))
		}
		return strings.Join(out, ",")
	}
	strs := func(name string) []string { return v.FieldByName(name).Interface().([]string) }
	switch v.Type().Name() {
	case "deferredResolutionTarget":
		return "name:" + t.Desc()
	case "all":
		return "All(" + subs() + ")"
	case "seq":
		return "Seq(" + subs() + ")"
	case "argTarget":
		return fmt.Sprintf("Arg(%s;%q)", sub("Target"), strs("Args"))
	case "files":
		return fmt.Sprintf("Files(%s;%q;%q)", sub("Target"), strs("In"), strs("Out"))
	case "declsType":
		return fmt.Sprintf("Decls(%q %q %q %q)", v.FieldByName("Dir"), v.FieldByName("Typename"), v.FieldByName("Prefix"), v.FieldByName("Outfile"))
	}
	switch t := t.(type) {
	case *fab.Clean:
		return fmt.Sprintf("Clean(%q;%v)", t.Files, t.Autoclean)
	case *fab.Command:
		return fmt.Sprintf("Command(%q %q %q %q %q in:%s out:%s err:%s)", t.Shell, t.Cmd, t.Args, t.Dir, t.Env, describeIn(t.Stdin, t.StdinFile), describeOut(t.Stdout, t.StdoutFile, t.StdoutFn), describeOut(t.Stderr, t.StderrFile, t.StderrFn))
	}
	return fmt.Sprintf("%T", t)
}

func describeIn(r io.Reader, file string) string {
	switch {
	case r == nil && file == "":
		return "none"
	case r == nil:
		return "file:" + file
	case r == os.Stdin && file == "":
		return "stdin"
	}
	return fmt.Sprintf("%T and %q", r, file)
}

func describeOut(w io.Writer, file string, f func(context.Context, *fab.Controller) io.Writer) string {
	switch {
	case w == nil && file == "" && f == nil:
		return "none"
	case w == nil && f == nil:
		return "file:" + file
	case w != nil && file == "" && f == nil:
		switch w {
		case os.Stdout:
			return "stdout"
		case os.Stderr:
			return "stderr"
		case io.Discard:
			return "discard"
		}
	case w == nil && file == "" && f != nil:
		con := fab.NewController("/top/dir")
		quiet := f(context.Background(), con)
		verbose := f(fab.WithVerbose(context.Background(), true), con)
		if verbose == nil {
			return "no writer when verbose"
		}
		if !strings.HasSuffix(fmt.Sprintf("%T", verbose), "indentingCopier") {
			return fmt.Sprintf("a function that gives %T", verbose)
		}
		if quiet == nil {
			return "verbose"
		}
		return "indent"
	}
	return fmt.Sprintf("%T and %q and %v", w, file, f != nil)
}

// innerCommand is the command of a Files target.
func innerCommand(t fab.Target) *fab.Command {
	v := reflect.ValueOf(t)
	if v.Kind() != reflect.Ptr || v.Elem().Kind() != reflect.Struct {
		return nil
	}
	f := v.Elem().FieldByName("Target")
	if !f.IsValid() {
		return nil
	}
	c, _ := f.Interface().(*fab.Command)
	return c
}
