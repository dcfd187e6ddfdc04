package fab_test

import (
	"context"
	"fmt"
	"testing"

	"github.com/bobg/fab"
)

type settings struct {
	dry, force, verbose bool
	db                  fab.HashDB
	args                []string
}

func readSettings(ctx context.Context) settings {
	return settings{fab.GetDryRun(ctx), fab.GetForce(ctx), fab.GetVerbose(ctx), fab.GetHashDB(ctx), fab.GetArgs(ctx)}
}

func (s settings) eq(o settings) bool {
	return s.dry == o.dry && s.force == o.force && s.verbose == o.verbose && s.db == o.db && eqStrs(s.args, o.args)
}

func (s settings) String() string {
	return fmt.Sprintf("dryrun=%v force=%v verbose=%v db=%p args=%q", s.dry, s.force, s.verbose, s.db, s.args)
}

func TestC23(t *testing.T) {
	defer finish()
	db1, db2 := newDB(), newDB()
	type step struct {
		name string
		f    func(context.Context, *settings) context.Context
	}
	var steps []step
	for _, b := range []bool{false, true} {
		b := b
		steps = append(steps,
			step{fmt.Sprintf("WithDryRun(%v)", b), func(c context.Context, s *settings) context.Context { s.dry = b; return fab.WithDryRun(c, b) }},
			step{fmt.Sprintf("WithForce(%v)", b), func(c context.Context, s *settings) context.Context { s.force = b; return fab.WithForce(c, b) }},
			step{fmt.Sprintf("WithVerbose(%v)", b), func(c context.Context, s *settings) context.Context { s.verbose = b; return fab.WithVerbose(c, b) }})
	}
	for i, d := range []fab.HashDB{db1, db2, nil} {
		d := d
		steps = append(steps, step{fmt.Sprintf("WithHashDB(%d)", i), func(c context.Context, s *settings) context.Context { s.db = d; return fab.WithHashDB(c, d) }})
	}
	for _, a := range [][]string{nil, {"x"}, {"-y", "z", ""}} {
		a := a
		steps = append(steps, step{fmt.Sprintf("WithArgs(%q)", a), func(c context.Context, s *settings) context.Context { s.args = a; return fab.WithArgs(c, a...) }})
	}
	scenario(t, "sequences of settings", func() {
		if s := readSettings(context.Background()); !s.eq(settings{}) {
			failf("a context without settings reads %s", s)
		}
		var rec func(ctx context.Context, s settings, path string, d int)
		rec = func(ctx context.Context, s settings, path string, d int) {
			oneCase()
			if got := readSettings(ctx); !got.eq(s) {
				failf("after%s: got %s, want %s", path, got, s)
			}
			if d == 0 {
				return
			}
			for _, st := range steps {
				s2 := s
				c2 := st.f(ctx, &s2)
				rec(c2, s2, path+" "+st.name, d-1)
				if got := readSettings(ctx); !got.eq(s) {
					failf("deriving %s%s changed the outer context to %s, want %s", path, st.name, got, s)
				}
			}
		}
		rec(context.Background(), settings{}, "", 3)
		type k struct{}
		ctx, cancel := context.WithCancel(context.WithValue(context.Background(), k{}, 1))
		rec(ctx, settings{}, " (a derived context)", 2)
		d := fab.WithArgs(fab.WithDryRun(ctx, true), "q")
		cancel()
		if d.Err() == nil || d.Value(k{}) != 1 {
			failf("a context with settings loses the cancellation or values of its parent")
		}
	})
}
