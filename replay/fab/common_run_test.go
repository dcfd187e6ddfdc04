package fab_test

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/bobg/fab"
)

// counted counts the runs of its Run method.
type counted struct {
	n    atomic.Int32
	Name string
	err  error
	f    func(context.Context, *fab.Controller) error
	done atomic.Bool
	slow time.Duration
}

func (c *counted) Desc() string {
	runtime.Gosched()
	return "counted"
}

func (c *counted) Run(ctx context.Context, con *fab.Controller) error {
	c.n.Add(1)
	if c.slow > 0 {
		time.Sleep(c.slow)
	} else {
		runtime.Gosched()
	}
	if c.f != nil {
		if err := c.f(ctx, con); err != nil {
			c.done.Store(true)
			return err
		}
	}
	c.done.Store(true)
	return c.err
}

// By-name references, which are registered together with their targets.
func byName(con *fab.Controller, names ...string) []fab.Target {
	var doc strings.Builder
	for i, n := range names {
		// The second reference in each list is a part of a Seq.
		fmt.Fprintf(&doc, "Ref%d: %s\nSeq%d: !Seq\n  - %s\nAll%d: !All\n  - %s\n  - %s\n", i, n, i, n, i, n, n)
	}
	if err := con.ReadYAML(strings.NewReader(doc.String()), ""); err != nil {
		failf("reading %q: %v", doc.String(), err)
	}
	var out []fab.Target
	for i := range names {
		for _, k := range []string{"Ref", "Seq", "All"} {
			t, _ := con.RegistryTarget(fmt.Sprintf("%s%d", k, i))
			if t == nil {
				failf("%s%d is not registered", k, i)
				continue
			}
			out = append(out, t)
		}
	}
	return out
}

// contexts in which targets run.
func runContexts() []context.Context {
	ctx := context.Background()
	canceled, cancel := context.WithCancel(ctx)
	cancel()
	return []context.Context{
		ctx, fab.WithVerbose(ctx, true), fab.WithForce(ctx, true), fab.WithDryRun(ctx, true),
		fab.WithForce(fab.WithDryRun(fab.WithVerbose(ctx, true), true), true), fab.WithArgs(ctx, "a"), canceled,
	}
}
