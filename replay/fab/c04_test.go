package fab_test

import (
	"context"
	"errors"
	"fmt"
	"path/filepath"
	"testing"

	"github.com/bobg/fab"
)

func TestC04(t *testing.T) {
	defer finish()
	ctx0 := context.Background()
	scenario(t, "skipping exactly in the recorded state", func() {
		for _, c := range fileChanges() {
			for bits := 0; bits < 16; bits++ {
				force, dry, verbose, nodb := bits&1 != 0, bits&2 != 0, bits&4 != 0, bits&8 != 0
				oneCase()
				what := fmt.Sprintf("after %s, force %v, dry run %v, verbose %v, without database %v", c.name, force, dry, verbose, nodb)
				d, in, out := setUpFiles()
				log := &runLog{}
				n := 0
				db := newDB()
				ctx := fab.WithHashDB(ctx0, db)
				b := builder(d, log, &n)
				if err := runQuiet(fab.NewController(d), ctx, fab.Files(b, in, out)); err != nil || n != 1 {
					failf("first run: %v, ran %d times", err, n)
					continue
				}
				c.f(d)
				ctx2 := ctx0
				if !nodb {
					ctx2 = ctx
				}
				ctx2 = fab.WithVerbose(fab.WithForce(fab.WithDryRun(ctx2, dry), force), verbose)
				has := db.hasN
				err := runQuiet(fab.NewController(d), ctx2, fab.Files(b, in, out))
				want := 2
				if !nodb && !force && !dry && !c.stale {
					want = 1
				}
				if err != nil || n != want {
					failf("%s: the subtarget ran %d times in all, want %d; error %v", what, n, want, err)
				}
				if (nodb || dry) && db.hasN != has {
					failf("%s: the database is consulted", what)
				}
			}
		}
	})
	scenario(t, "errors of the database, the files and the subtarget", func() {
		for _, e := range kindsOfErrors {
			for kind := 0; kind < 4; kind++ {
				for bits := 0; bits < 4; bits++ {
					verbose, interrupted := bits&1 != 0, bits&2 != 0
					oneCase()
					d, in, out := setUpFiles()
					log := &runLog{}
					n := 0
					db := newDB()
					b := builder(d, log, &n)
					ctx, cancel := context.WithCancel(fab.WithVerbose(fab.WithHashDB(ctx0, db), verbose))
					stop := func() {
						if interrupted {
							cancel()
						}
					}
					wantN := 1
					switch kind {
					case 0:
						db.hasErr = e
						db.onHas = func([]byte) { stop() }
						wantN = 0
					case 1:
						db.addErr = e
						db.onAdd = func([]byte) { stop() }
					case 2:
						b.err = e
						f := b.f
						b.f = func(ctx context.Context, con *fab.Controller) error { stop(); return f(ctx, con) }
					case 3:
						p := &logged{Name: "pre", log: log, err: e, f: func(context.Context, *fab.Controller) error { stop(); return nil }}
						fab.Files(p, nil, in[:1])
						wantN = 0
					}
					err := runQuiet(fab.NewController(d), ctx, fab.Files(b, in, out))
					if !sameErr(err, e) || n != wantN {
						failf("error %T %v of kind %d (database read, database write, subtarget, prerequisite), context canceled then %v: Run gives %v, the subtarget ran %d times", e, e, kind, interrupted, err, n)
					}
					// Nothing is recorded.
					db.hasErr, db.addErr, b.err = nil, nil, nil
					cancel()
					ctx = fab.WithVerbose(fab.WithHashDB(ctx0, db), verbose)
					if kind == 3 {
						continue
					}
					n = 0
					err = runQuiet(fab.NewController(d), ctx, fab.Files(b, in, out))
					if err != nil || n != 1 {
						failf("after an error %T %v of kind %d, Run gives %v and the subtarget ran %d times", e, e, kind, err, n)
					}
				}
			}
		}
	})
	scenario(t, "a file that cannot be looked at", func() {
		for _, where := range []string{"in", "out", "after"} {
			oneCase()
			d := scratch()
			bad := filepath.Join(d, "f", "x") // f is a file, so f/x cannot be looked at
			write(d, "in1", "1")
			log := &runLog{}
			db := newDB()
			in, out := []string{filepath.Join(d, "in1")}, []string{filepath.Join(d, "out1")}
			b := &logged{Name: "b", log: log}
			wantN := 0
			switch where {
			case "in":
				write(d, "f", "")
				in = append(in, bad)
			case "out":
				write(d, "f", "")
				out = append(out, bad)
			case "after":
				out = append(out, bad)
				b.f = func(context.Context, *fab.Controller) error { write(d, "f", ""); return nil }
				wantN = 1
			}
			err := runQuiet(fab.NewController(d), fab.WithHashDB(ctx0, db), fab.Files(b, in, out))
			if err == nil || log.count("b") != wantN || db.addN != 0 {
				failf("a file that cannot be looked at (%s): error %v, the subtarget ran %d times, %d hashes added", where, err, log.count("b"), db.addN)
			}
		}
	})
	scenario(t, "the hash is computed after the prerequisites ran", func() {
		oneCase()
		d := scratch()
		log := &runLog{}
		db := newDB()
		n := 0
		mid := filepath.Join(d, "mid")
		content := "1"
		pre := &logged{Name: "pre", log: log, f: func(context.Context, *fab.Controller) error { write(d, "mid", content); return nil }}
		fab.Files(pre, nil, []string{mid})
		b := &logged{Name: "b", log: log, f: func(context.Context, *fab.Controller) error { n++; return nil }}
		ft := fab.Files(b, []string{mid}, []string{filepath.Join(d, "out")})
		ctx := fab.WithHashDB(ctx0, db)
		for i, c := range []string{"1", "2", "2", "1", "3"} {
			content = c
			was := n
			// The prerequisite must run: forget what is recorded about it.
			for h := range db.m {
				_ = h
			}
			write(d, "mid", "garbage "+fmt.Sprint(i))
			if err := runQuiet(fab.NewController(d), ctx, ft); err != nil {
				failf("run %d: %v", i, err)
			}
			want := map[int]bool{0: true, 1: true, 4: true}[i]
			if (n > was) != want {
				failf("run %d with the input becoming %q: the subtarget ran %d times", i, c, n-was)
			}
		}
	})
	scenario(t, "the same target run by several controllers", func() {
		oneCase()
		d, in, out := setUpFiles()
		log := &runLog{}
		n := 0
		db := newDB()
		ft := fab.Files(builder(d, log, &n), in, out)
		ctx := fab.WithHashDB(ctx0, db)
		for i := 0; i < 3; i++ {
			if err := runQuiet(fab.NewController(d), ctx, ft); err != nil || n != 1 {
				failf("run %d: %v, the subtarget ran %d times in all", i, err, n)
			}
		}
		db.m = map[string]bool{}
		if err := runQuiet(fab.NewController(d), ctx, ft); err != nil || n != 2 {
			failf("with the database emptied: %v, the subtarget ran %d times in all", err, n)
		}
		_ = errors.New
	})
}
