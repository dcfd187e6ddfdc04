package fab_test

import (
	"context"
	"errors"
	"fmt"
	"testing"

	"github.com/bobg/fab"
)

type ctxKey struct{}

func TestC03(t *testing.T) {
	defer finish()
	ctx0 := context.WithValue(context.Background(), ctxKey{}, "x")
	boom := errors.New("boom")
	boom2 := errors.New("boom2")

	scenario(t, "Seq, All and Deps of n targets, failing at any subset", func() {
		for n := 0; n <= 4; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for kind := 0; kind < 3; kind++ {
					oneCase()
					log := &runLog{}
					var ts []fab.Target
					var names []string
					first := -1
					for i := 0; i < n; i++ {
						x := &logged{Name: fmt.Sprintf("t%d", i), log: log}
						if mask>>i&1 == 1 {
							x.err = boom
							if first < 0 {
								first = i
							}
						}
						ts = append(ts, x)
						names = append(names, x.Name)
					}
					con := fab.NewController(scratch())
					main := &logged{Name: "main", log: log}
					var target fab.Target
					switch kind {
					case 0:
						target = fab.Seq(ts...)
					case 1:
						target = fab.All(ts...)
					case 2:
						target = fab.Deps(main, ts...)
					}
					var err error
					muted(func() { err = con.Run(ctx0, target) })
					what := fmt.Sprintf("%s of %d targets of which those in %b fail", []string{"Seq", "All", "Deps"}[kind], n, mask)
					if (err != nil) != (first >= 0) || err != nil && !errors.Is(err, boom) {
						failf("%s: error %v", what, err)
					}
					got := log.list()
					switch kind {
					case 0:
						want := names
						if first >= 0 {
							want = names[:first+1]
						}
						if !eqStrs(got, want) {
							failf("%s: ran %v, want %v", what, got, want)
						}
					case 1, 2:
						for _, x := range names {
							if log.count(x) != 1 {
								failf("%s: ran %v", what, got)
							}
						}
						if kind == 2 {
							if first >= 0 && log.count("main") != 0 || first < 0 && (log.count("main") != 1 || got[len(got)-1] != "main") {
								failf("%s: ran %v", what, got)
							}
						}
					}
				}
			}
		}
	})

	scenario(t, "failures of all kinds", func() {
		for _, e := range kindsOfErrors {
			for kind := 0; kind < 6; kind++ {
				oneCase()
				log := &runLog{}
				bad := &logged{Name: "bad", log: log, err: e}
				good := &logged{Name: "good", log: log}
				var target fab.Target
				want := []string{"bad"}
				switch kind {
				case 0:
					target = fab.Seq(bad, good)
				case 1:
					target, want = fab.All(bad), []string{"bad"}
				case 2:
					target = fab.Deps(good, bad)
				case 3:
					target, want = fab.Deps(bad, good), []string{"good", "bad"}
				case 4:
					target = fab.ArgTarget(bad, "a")
				case 5:
					target = fab.F(func(ctx context.Context, con *fab.Controller) error { log.add("bad"); return e })
				}
				con := fab.NewController(scratchless03)
				var err error
				muted(func() { err = con.Run(ctx0, target) })
				if !sameErr(err, e) || !eqStrs(log.list(), want) {
					failf("composite of kind %d with a part failing with %T %v: ran %v, error %v", kind, e, e, log.list(), err)
				}
			}
		}
	})

	scenario(t, "All and Deps request all their parts at once", func() {
		for kind := 0; kind < 2; kind++ {
			oneCase()
			log := &runLog{}
			// Each waits for the other.
			a, b := make(chan bool), make(chan bool)
			x := &logged{Name: "x", log: log, f: func(context.Context, *fab.Controller) error { close(a); <-b; return nil }}
			y := &logged{Name: "y", log: log, f: func(context.Context, *fab.Controller) error { close(b); <-a; return nil }}
			con := fab.NewController(scratch())
			var target fab.Target
			if kind == 0 {
				target = fab.All(x, y)
			} else {
				target = fab.Deps(&logged{Name: "main", log: log}, x, y)
			}
			if err := con.Run(ctx0, target); err != nil {
				failf("All/Deps (%d) of targets waiting for each other: %v", kind, err)
			}
		}
	})

	scenario(t, "Deps reports a failure of its main target", func() {
		oneCase()
		log := &runLog{}
		con := fab.NewController(scratch())
		err := con.Run(ctx0, fab.Deps(&logged{Name: "main", log: log, err: boom2}, &logged{Name: "d", log: log}))
		if !errors.Is(err, boom2) {
			failf("Deps whose main target fails with boom2: %v", err)
		}
		con = fab.NewController(scratch())
		err = con.Run(ctx0, fab.Deps(&logged{Name: "main", log: log, err: boom2}))
		if !errors.Is(err, boom2) {
			failf("Deps without dependencies whose main target fails with boom2: %v", err)
		}
	})

	scenario(t, "Seq runs a target again requested later only once, and keeps its outcome", func() {
		oneCase()
		log := &runLog{}
		con := fab.NewController(scratch())
		x := &logged{Name: "x", log: log}
		y := &logged{Name: "y", log: log}
		if err := con.Run(ctx0, fab.Seq(x, y, x)); err != nil || !eqStrs(log.list(), []string{"x", "y"}) {
			failf("Seq(x, y, x): ran %v, error %v", log.list(), err)
		}
	})

	scenario(t, "a Seq of Seqs runs its parts in order", func() {
		oneCase()
		log := &runLog{}
		con := fab.NewController(scratch())
		x := func(n string) fab.Target { return &logged{Name: n, log: log} }
		if err := con.Run(ctx0, fab.Seq(fab.Seq(x("a"), x("b")), fab.Deps(x("d"), x("c")), fab.Seq(x("e")))); err != nil || !eqStrs(log.list(), []string{"a", "b", "c", "d", "e"}) {
			failf("nested Seq: ran %v, error %v", log.list(), err)
		}
	})

	scenario(t, "ArgTarget passes its arguments and everything else", func() {
		db := newDB()
		for _, args := range [][]string{nil, {}, {"a"}, {"-x", "b", ""}} {
			for bits := 0; bits < 8; bits++ {
				for _, outer := range [][]string{nil, {"outer"}} {
					oneCase()
					var got []string
					var dry, force, verbose bool
					var gdb fab.HashDB
					var val any
					log := &runLog{}
					x := &logged{Name: "x", log: log, f: func(ctx context.Context, con *fab.Controller) error {
						got = fab.GetArgs(ctx)
						dry, force, verbose = fab.GetDryRun(ctx), fab.GetForce(ctx), fab.GetVerbose(ctx)
						gdb = fab.GetHashDB(ctx)
						val = ctx.Value(ctxKey{})
						return nil
					}}
					ctx := fab.WithDryRun(fab.WithForce(fab.WithVerbose(fab.WithHashDB(ctx0, db), bits&1 != 0), bits&2 != 0), bits&4 != 0)
					if outer != nil {
						ctx = fab.WithArgs(ctx, outer...)
					}
					con := fab.NewController(scratch())
					var err error
					muted(func() { err = con.Run(ctx, fab.ArgTarget(x, args...)) })
					if err != nil || log.count("x") != 1 {
						failf("ArgTarget with %q: ran %v, error %v", args, log.list(), err)
					}
					if !eqStrs(got, args) {
						failf("ArgTarget with %q inside a context with %q: target sees %q", args, outer, got)
					}
					if dry != (bits&4 != 0) || force != (bits&2 != 0) || verbose != (bits&1 != 0) || gdb != fab.HashDB(db) || val != "x" {
						failf("ArgTarget with %q: the context changed otherwise (flags %d: dry %v force %v verbose %v)", args, bits, dry, force, verbose)
					}
				}
			}
		}
		log := &runLog{}
		con := fab.NewController(scratch())
		err := con.Run(ctx0, fab.ArgTarget(&logged{Name: "x", log: log, err: boom}, "a"))
		if !errors.Is(err, boom) {
			failf("ArgTarget of a failing target: %v", err)
		}
	})

	scenario(t, "F calls its function once with its context and controller", func() {
		for _, want := range []error{nil, boom} {
			oneCase()
			n := 0
			con := fab.NewController(scratch())
			f := fab.F(func(ctx context.Context, c *fab.Controller) error {
				n++
				if c != con || ctx.Value(ctxKey{}) != "x" {
					failf("F: other context or controller")
				}
				return want
			})
			err := con.Run(ctx0, f)
			if n != 1 || (want == nil) != (err == nil) || want != nil && !errors.Is(err, want) {
				failf("F returning %v: called %d times, error %v", want, n, err)
			}
		}
		n := 0
		con := fab.NewController(scratch())
		f := fab.F(func(context.Context, *fab.Controller) error { n++; return boom })
		e1 := f.Run(ctx0, con)
		if n != 1 || e1 != boom {
			failf("F.Run: called %d times, error %v", n, e1)
		}
	})
}

const scratchless03 = "/nonexistent/top"
