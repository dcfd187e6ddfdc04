package fab_test

import (
	"context"
	"fmt"
	"path/filepath"
	"testing"

	"github.com/bobg/fab"
)

func TestC05(t *testing.T) {
	defer finish()
	ctx0 := context.Background()
	scenario(t, "the state after the run is recorded", func() {
		for _, c := range fileChanges() {
			for bits := 0; bits < 8; bits++ {
				force, dry, verbose := bits&1 != 0, bits&2 != 0, bits&4 != 0
				oneCase()
				what := fmt.Sprintf("a subtarget that makes its outputs, then %s, force %v, dry run %v, verbose %v", c.name, force, dry, verbose)
				d, in, out := setUpFiles()
				log := &runLog{}
				n := 0
				db := newDB()
				var added []string
				db.onAdd = func(b []byte) { added = append(added, string(b)) }
				b := builder(d, log, &n)
				f := b.f
				b.f = func(ctx context.Context, con *fab.Controller) error { f(ctx, con); c.f(d); return nil }
				ft := fab.Files(b, in, out)
				before := hashNow(d, ft)
				ctx := fab.WithVerbose(fab.WithForce(fab.WithDryRun(fab.WithHashDB(ctx0, db), dry), force), verbose)
				if err := runQuiet(fab.NewController(d), ctx, ft); err != nil {
					failf("%s: %v", what, err)
				}
				after := hashNow(d, ft)
				if before == after || after == "" {
					failf("%s: the hash is %x before and %x after", what, before, after)
				}
				if dry && (len(added) > 0 || db.addN > 0 || db.hasN > 0) {
					failf("%s: the database is used in dry-run mode", what)
				}
				if !dry && (len(added) != 1 || added[0] != after) {
					failf("%s: added %x, want %x", what, added, after)
				}
			}
		}
	})
	scenario(t, "whatever is listed", func() {
		for _, c := range fileChanges() {
			for shape := 0; shape < 8; shape++ {
				for _, force := range []bool{false, true} {
					oneCase()
					d, in, out := setUpFiles()
					switch shape {
					case 0:
						in = nil
					case 1:
						out = nil
					case 2:
						in, out = nil, nil
					case 3:
						out = append(out, in...)
					case 4:
						in, out = in[:1], in[:1]
					case 5:
						in, out = []string{d}, nil
					case 6:
						in, out = nil, []string{d}
					case 7:
						in, out = in[1:2], out[:1]
					}
					what := fmt.Sprintf("Files with In %q, Out %q, and a subtarget that makes outputs, then %s, force %v", in, out, c.name, force)
					log := &runLog{}
					n := 0
					db := newDB()
					var added []string
					db.onAdd = func(b []byte) { added = append(added, string(b)) }
					b := builder(d, log, &n)
					f := b.f
					b.f = func(ctx context.Context, con *fab.Controller) error { f(ctx, con); c.f(d); return nil }
					ft := fab.Files(b, in, out)
					ctx := fab.WithForce(fab.WithHashDB(ctx0, db), force)
					if err := runQuiet(fab.NewController(d), ctx, ft); err != nil {
						failf("%s: %v", what, err)
					}
					if after := hashNow(d, ft); after == "" || len(added) != 1 || added[0] != after {
						failf("%s: added %x, want %x", what, added, after)
					}
				}
			}
		}
	})
	scenario(t, "nothing is recorded after a failure", func() {
		for _, e := range kindsOfErrors {
			for kind := 0; kind < 4; kind++ {
				for _, force := range []bool{false, true} {
					oneCase()
					d, in, out := setUpFiles()
					log := &runLog{}
					n := 0
					db := newDB()
					b := builder(d, log, &n)
					ctx := fab.WithForce(fab.WithHashDB(ctx0, db), force)
					switch kind {
					case 0:
						b.err = e
					case 1:
						fab.Files(&logged{Name: "pre", log: log, err: e}, nil, in[:1])
					case 2:
						db.addErr = e
					case 3:
						db.hasErr = e
						if force {
							continue
						}
					}
					err := runQuiet(fab.NewController(d), ctx, fab.Files(b, in, out))
					if !sameErr(err, e) || len(db.m) > 0 || kind != 2 && db.addN > 0 {
						failf("failure %T %v of kind %d (subtarget, prerequisite, adding, asking), force %v: error %v, %d hashes added", e, e, kind, force, err, db.addN)
					}
				}
			}
		}
	})
	scenario(t, "nothing is added when skipping", func() {
		oneCase()
		d, in, out := setUpFiles()
		log := &runLog{}
		n := 0
		db := newDB()
		ft := fab.Files(builder(d, log, &n), in, out)
		ctx := fab.WithHashDB(ctx0, db)
		runQuiet(fab.NewController(d), ctx, ft)
		if err := runQuiet(fab.NewController(d), ctx, ft); err != nil || n != 1 || db.addN != 1 {
			failf("second run: %v, the subtarget ran %d times, %d hashes added", err, n, db.addN)
		}
	})
	scenario(t, "a failed subtarget after a good one", func() {
		oneCase()
		d := scratch()
		write(d, "in", "1")
		log := &runLog{}
		db := newDB()
		b := &logged{Name: "b", log: log}
		ft := fab.Files(b, []string{filepath.Join(d, "in")}, []string{filepath.Join(d, "out")})
		ctx := fab.WithHashDB(ctx0, db)
		run := func() error { return runQuiet(fab.NewController(d), ctx, ft) }
		run()
		write(d, "in", "2")
		b.err = fmt.Errorf("boom")
		if run() == nil {
			failf("a failing subtarget is not reported")
		}
		b.err = nil
		k := log.count("b")
		if err := run(); err != nil || log.count("b") != k+1 {
			failf("after a failed build, Run gives %v and the subtarget ran %d times", err, log.count("b")-k)
		}
		write(d, "in", "1")
		if err := run(); err != nil || log.count("b") != k+1 {
			failf("back in the first state, Run gives %v and the subtarget ran %d times", err, log.count("b")-k-1)
		}
	})
}
