package fab_test

import (
	"context"
	"errors"
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
)

// nearest gives the index of the target that lists the file, or the nearest directory above it.
func nearest(owners map[string]int, name string) int {
	for {
		if i, ok := owners[name]; ok {
			return i
		}
		dir := filepath.Dir(name)
		if dir == name || dir == "." || dir == "/" {
			return -1
		}
		name = dir
	}
}

func TestC07(t *testing.T) {
	defer finish()
	ctx0 := context.Background()
	scenario(t, "exactly the targets that make an input run, before everything else", func() {
		r := rng()
		n := 1200
		if thorough() {
			n = 10000
		}
		parts := []string{"a", "b", "aa", "a.b"}
		path := func(d string) string {
			p := d
			for k := 1 + r.Intn(4); k > 0; k-- {
				p = filepath.Join(p, parts[r.Intn(len(parts))])
			}
			return p
		}
		for i := 0; i < n; i++ {
			oneCase()
			base := scratch()
			d := filepath.Join(base, "d")
			if i%4 == 3 {
				d = fmt.Sprintf("rel%d-%d", scratchN, i) // relative names
			}
			log := &runLog{}
			var ts []fab.Target
			owners := map[string]int{}
			var desc []string
			outs := make([][]string, 0)
			k := 1 + r.Intn(5)
			for j := 0; j < k; j++ {
				var out []string
				for q := r.Intn(3); q >= 0; q-- {
					out = append(out, path(d))
				}
				outs = append(outs, out)
			}
			for j, out := range outs {
				ts = append(ts, fab.Files(&logged{Name: fmt.Sprint(j), log: log}, nil, out))
				for _, o := range out {
					owners[o] = j
				}
				desc = append(desc, fmt.Sprintf("target %d makes %q", j, out))
			}
			var in, self []string
			for q := r.Intn(5); q > 0; q-- {
				in = append(in, path(d))
			}
			for q := r.Intn(3); q > 0; q-- {
				self = append(self, path(d))
			}
			me := len(ts)
			wantDry := r.Intn(3) == 0
			verbose := r.Intn(3) == 0
			ft := fab.Files(&logged{Name: "self", log: log}, in, self)
			for _, o := range self {
				owners[o] = me
			}
			want := map[string]bool{}
			for _, x := range in {
				if o := nearest(owners, x); o >= 0 && o != me {
					want[fmt.Sprint(o)] = true
				}
			}
			ctx := fab.WithVerbose(fab.WithDryRun(ctx0, wantDry), verbose)
			if r.Intn(2) == 0 {
				ctx = fab.WithHashDB(ctx, newDB())
			}
			err := runQuiet(fab.NewController(base), ctx, ft)
			got := log.list()
			what := fmt.Sprintf("%s; the target has inputs %q and outputs %q", strings.Join(desc, ", "), in, self)
			if err != nil || len(got) == 0 || got[len(got)-1] != "self" {
				failf("%s: error %v, ran %q", what, err, got)
				continue
			}
			pre := append([]string(nil), got[:len(got)-1]...)
			sort.Strings(pre)
			var w []string
			for x := range want {
				w = append(w, x)
			}
			sort.Strings(w)
			if !eqStrs(pre, w) {
				failf("%s: ran %q first, want %q", what, pre, w)
			}
		}
	})
	scenario(t, "the prerequisites run in one request, concurrently", func() {
		for _, k := range []int{2, 3, 7} {
			oneCase()
			d := scratch()
			log := &runLog{}
			arrived := make(chan struct{}, k)
			all := make(chan struct{})
			var in []string
			for j := 0; j < k; j++ {
				o := filepath.Join(d, fmt.Sprint("f", j))
				in = append(in, o)
				fab.Files(&logged{Name: fmt.Sprint(j), log: log, f: func(context.Context, *fab.Controller) error {
					arrived <- struct{}{}
					<-all
					return nil
				}}, nil, []string{o})
			}
			go func() {
				for j := 0; j < k; j++ {
					<-arrived
				}
				close(all)
			}()
			if err := runQuiet(fab.NewController(d), ctx0, fab.Files(&logged{Name: "self", log: log}, in, nil)); err != nil {
				failf("%d prerequisites: %v", k, err)
			}
		}
	})
	scenario(t, "a failing prerequisite stops the target, after all of them", func() {
		for _, e := range kindsOfErrors {
			for at := 0; at < 3; at++ {
				for bits := 0; bits < 8; bits++ {
					oneCase()
					d := scratch()
					log := &runLog{}
					var in []string
					for j := 0; j < 3; j++ {
						o := filepath.Join(d, fmt.Sprint("f", j))
						in = append(in, filepath.Join(o, "x"))
						l := &logged{Name: fmt.Sprint(j), log: log}
						if j == at {
							l.err = e
						}
						fab.Files(l, nil, []string{o})
					}
					db := newDB()
					ctx := fab.WithVerbose(fab.WithForce(fab.WithDryRun(ctx0, bits&1 != 0), bits&2 != 0), bits&4 != 0)
					b := &logged{Name: "self", log: log}
					hit := 0
					dbctx := fab.WithHashDB(ctx, db)
					db.onHas = func([]byte) { hit++ }
					err := runQuiet(fab.NewController(d), dbctx, fab.Files(b, in, []string{filepath.Join(d, "out")}))
					if !sameErr(err, e) || log.count("self") != 0 || len(log.list()) != 3 {
						failf("prerequisite %d of 3 fails with %T %v (flags %d): error %v, ran %q", at, e, e, bits, err, log.list())
					}
					if hit > 3 || db.addN > 2 {
						failf("prerequisite %d of 3 fails (flags %d): the database is used by the target: asked %d times, added %d", at, bits, hit, db.addN)
					}
				}
			}
		}
	})
	scenario(t, "chains, and a target that makes its own input", func() {
		for k := 1; k < 6; k++ {
			for _, wrap := range []bool{false, true} {
				oneCase()
				d := scratch()
				log := &runLog{}
				var last fab.Target
				var want []string
				for j := 0; j < k; j++ {
					var sub fab.Target = &logged{Name: fmt.Sprint(j), log: log}
					if wrap {
						sub = fab.Seq(sub)
					}
					f := func(j int) string { return filepath.Join(d, fmt.Sprint("dir", j)) }
					in := []string{filepath.Join(f(j), "own")}
					if j > 0 {
						in = append(in, filepath.Join(f(j-1), "deep", "x"))
					}
					last = fab.Files(sub, in, []string{f(j)})
					want = append(want, fmt.Sprint(j))
				}
				if err := runQuiet(fab.NewController(d), ctx0, last); err != nil || !eqStrs(log.list(), want) {
					failf("a chain of %d: error %v, ran %q", k, err, log.list())
				}
			}
		}
		oneCase()
		d := scratch()
		log := &runLog{}
		boom := errors.New("boom")
		a := filepath.Join(d, "a")
		ft := fab.Files(&logged{Name: "x", log: log, err: boom}, []string{a}, []string{a})
		if err := runQuiet(fab.NewController(d), ctx0, ft); !errors.Is(err, boom) || log.count("x") != 1 {
			failf("its own input: %v, ran %q", err, log.list())
		}
	})
}
