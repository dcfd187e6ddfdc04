package fab_test

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"syscall"

	"github.com/bobg/fab"
)

// A way to change files, and whether it changes what the hash stands for.
type change struct {
	name  string
	f     func(d string)
	stale bool
}

func fileChanges() []change {
	w := func(name, text string) func(string) { return func(d string) { write(d, name, text) } }
	rm := func(name string) func(string) { return func(d string) { os.RemoveAll(filepath.Join(d, name)) } }
	return []change{
		{"nothing", func(string) {}, false},
		{"touching an input", func(d string) {
			p := filepath.Join(d, "in1")
			b, _ := os.ReadFile(p)
			os.WriteFile(p, b, 0644)
		}, false},
		{"changing an input", w("in1", "other"), true},
		{"emptying an input", w("in1", ""), true},
		{"appending to an input", w("in1", "one\n"), true},
		{"removing an input", rm("in1"), true},
		{"creating a missing input", w("in3", "x"), true},
		{"creating a missing input that is empty", w("in3", ""), true},
		{"changing the last input", w("in2", "other"), true},
		{"swapping two inputs", func(d string) { write(d, "in1", "two"); write(d, "in2", "one") }, true},
		{"changing an output", w("out1", "other"), true},
		{"removing an output", rm("out1"), true},
		{"removing the last output", rm("out2"), true},
		{"changing a file in an input directory", w("ind/a", "other"), true},
		{"changing a file deep in an input directory", w("ind/sub/deep/b", "other"), true},
		{"adding a file to an input directory", w("ind/c", ""), true},
		{"adding a hidden file to an input directory", w("ind/.c", "h"), true},
		{"adding a file deep in an input directory", w("ind/sub/deep/c", "x"), true},
		{"removing a file from an input directory", rm("ind/a"), true},
		{"renaming a file in an input directory", func(d string) { os.Rename(filepath.Join(d, "ind/a"), filepath.Join(d, "ind/z")) }, true},
		{"changing a file in an output directory", w("outd/a", "other"), true},
		{"an unrelated file", w("unrelated", "x"), false},
		{"an input that becomes a directory", func(d string) { os.Remove(filepath.Join(d, "in2")); write(d, "in2/x", "two") }, true},
	}
}

func setUpFiles() (d string, in, out []string) {
	d = scratch()
	write(d, "in1", "one")
	write(d, "in2", "two")
	write(d, "ind/a", "a")
	write(d, "ind/sub/deep/b", "b")
	for _, x := range []string{"in1", "ind", "in3", "in2"} {
		in = append(in, filepath.Join(d, x))
	}
	for _, x := range []string{"out1", "outd", "out2"} {
		out = append(out, filepath.Join(d, x))
	}
	return
}

// builder writes the outputs.
func builder(d string, log *runLog, n *int) *logged {
	return &logged{Name: "build", log: log, f: func(context.Context, *fab.Controller) error {
		*n++
		write(d, "out1", "o1")
		write(d, "out2", "o2")
		write(d, "outd/a", "oa")
		return nil
	}}
}

func runQuiet(con *fab.Controller, ctx context.Context, ts ...fab.Target) (err error) {
	muted(func() { err = con.Run(ctx, ts...) })
	return
}

// hashNow gives the hash of a Files target in the present state, as passed to the database.
func hashNow(d string, ft fab.Target) string {
	db := newDB()
	var h string
	db.onHas = func(b []byte) { h = string(b) }
	db.hasErr = fmt.Errorf("only asking")
	runQuiet(fab.NewController(d), fab.WithHashDB(context.Background(), db), ft)
	return h
}

func rawClose(fd int) { syscall.Close(fd) }

func openFiles() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// A writer that can be closed.
type sink struct {
	mu       sync.Mutex
	buf      bytes.Buffer
	closed   int
	atClose  string
	closeErr error
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.buf.Write(p)
}

func (s *sink) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closed++
	s.atClose = s.buf.String()
	return s.closeErr
}
