package fab_test

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/bobg/fab"
)

// The scenarios run the real code through its exported interface, in scratch directories only.

var (
	ncases int
	nfails int
	rmu    sync.Mutex
	stdout = os.Stdout
)

func failf(format string, args ...any) {
	rmu.Lock()
	defer rmu.Unlock()
	nfails++
	if nfails <= 20 {
		fmt.Fprintf(stdout, "\nREPLAY-FAIL %s\n", oneLine(fmt.Sprintf(format, args...)))
	}
}

func oneLine(s string) string {
	var out []rune
	for _, r := range s {
		if r == '\n' {
			out = append(out, '\\', 'n')
			continue
		}
		out = append(out, r)
	}
	if len(out) > 900 {
		out = append(out[:900], '…')
	}
	return string(out)
}

func oneCase() { rmu.Lock(); ncases++; rmu.Unlock() }

// scenarioLimit is how long a scenario may take.
var scenarioLimit = 60 * time.Second

func scenario(t *testing.T, name string, f func()) {
	fmt.Fprintf(stdout, "\nREPLAY-SCENARIO %s\n", name)
	defer func() {
		if r := recover(); r != nil {
			failf("%s: panic: %v", name, r)
		}
		if nfails > 0 {
			t.Fail()
		}
	}()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				failf("%s: panic: %v", name, r)
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(scenarioLimit):
		failf("%s: does not end", name)
	}
}

func finish() {
	fmt.Fprintf(stdout, "\nREPLAY-CASES %d\n", ncases)
}

func thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func rng() *rand.Rand {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return rand.New(rand.NewSource(int64(seed) + 12345))
}

var scratchN int

// scratch makes a directory that is removed with everything else when the scenarios have run.
func scratch() string {
	rmu.Lock()
	scratchN++
	n := scratchN
	rmu.Unlock()
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		panic("VERIF_SCRATCH is not set")
	}
	d := filepath.Join(base, fmt.Sprintf("s%d", n))
	if err := os.MkdirAll(d, 0755); err != nil {
		panic(err)
	}
	return d
}

func write(dir, name, text string) string {
	p := filepath.Join(dir, name)
	if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	return p
}

func exists(p string) bool {
	_, err := os.Lstat(p)
	return err == nil
}

func readStr(p string) string {
	b, err := os.ReadFile(p)
	if err != nil {
		return "error: " + err.Error()
	}
	return string(b)
}

// A target that records its runs.
type logged struct {
	Name string
	log  *runLog
	err  error
	f    func(context.Context, *fab.Controller) error
}

type runLog struct {
	mu  sync.Mutex
	ids []string
}

func (l *runLog) add(s string) { l.mu.Lock(); l.ids = append(l.ids, s); l.mu.Unlock() }
func (l *runLog) list() []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string(nil), l.ids...)
}
func (l *runLog) count(s string) int {
	n := 0
	for _, x := range l.list() {
		if x == s {
			n++
		}
	}
	return n
}

func (t *logged) Desc() string { return "logged" }
func (t *logged) Run(ctx context.Context, con *fab.Controller) error {
	t.log.add(t.Name)
	if t.f != nil {
		if err := t.f(ctx, con); err != nil {
			return err
		}
	}
	return t.err
}

// Errors of many kinds: code that treats one kind specially must not be missed.
type oddErr struct{ s string }

func (e oddErr) Error() string { return e.s }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var kindsOfErrors = []error{
	errors.New("plain"), context.Canceled, context.DeadlineExceeded, os.ErrNotExist, os.ErrExist, os.ErrPermission, os.ErrClosed, os.ErrDeadlineExceeded,
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, &exec.ExitError{}, exec.ErrNotFound, exec.ErrDot, exec.ErrWaitDelay,
	&os.PathError{Op: "open", Path: "x", Err: syscall.ENOENT}, syscall.EINTR, syscall.EPIPE, fs.SkipDir, fs.SkipAll, filepath.ErrBadPattern,
	oddErr{"odd"}, oddErr{""}, &ptrErr{"ptr"}, timeoutErr{}, fmt.Errorf("wrapped: %w", context.Canceled), fmt.Errorf("wrapped: %w", os.ErrNotExist),
	errors.Join(errors.New("j1"), errors.New("j2")), sql.ErrNoRows, sql.ErrConnDone, fab.BadYAMLNodeKindError{}, fab.UnknownStringListTagError{Tag: "t"},
	fab.CommandErr{Err: errors.New("in command")}, &fab.CommandErr{},
}

// sameErr tells whether want can be recovered from got.
func sameErr(got, want error) bool {
	if want == nil || got == nil {
		return want == nil && got == nil
	}
	defer func() { recover() }()
	if reflect.TypeOf(want).Comparable() {
		return errors.Is(got, want)
	}
	return strings.Contains(got.Error(), want.Error())
}

type memDB struct {
	mu     sync.Mutex
	m      map[string]bool
	hasErr error
	addErr error
	hasN   int
	addN   int
	onAdd  func([]byte)
	onHas  func([]byte)
}

func newDB() *memDB { return &memDB{m: map[string]bool{}} }
func (d *memDB) Has(ctx context.Context, h []byte) (bool, error) {
	d.mu.Lock()
	d.hasN++
	f := d.onHas
	d.mu.Unlock()
	if f != nil {
		f(h)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.hasErr != nil {
		return false, d.hasErr
	}
	return d.m[string(h)], nil
}
func (d *memDB) Add(ctx context.Context, h []byte) error {
	d.mu.Lock()
	d.addN++
	f := d.onAdd
	d.mu.Unlock()
	if f != nil {
		f(h)
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	if d.addErr != nil {
		return d.addErr
	}
	d.m[string(h)] = true
	return nil
}

// capture runs f with standard output and error going to files, and returns what was written.
func capture(f func()) (string, string) {
	return captureLocked(f)
}

func captureLocked(f func()) (string, string) {
	base := os.Getenv("VERIF_SCRATCH")
	so, _ := os.CreateTemp(base, "out")
	se, _ := os.CreateTemp(base, "err")
	oo, oe := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = so, se
	func() {
		defer func() { os.Stdout, os.Stderr = oo, oe }()
		f()
	}()
	so.Close()
	se.Close()
	return readStr(so.Name()), readStr(se.Name())
}

// muted runs f without letting its output reach standard output.
func muted(f func()) {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		panic(err)
	}
	defer null.Close()
	oo, oe := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = null, null
	defer func() { os.Stdout, os.Stderr = oo, oe }()
	f()
}

func eqStrs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
