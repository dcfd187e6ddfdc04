package fab_test

import (
	"context"
	"fmt"
	"testing"

	"github.com/bobg/fab"
)

func TestC17(t *testing.T) {
	defer finish()
	words := []string{"a", "b", "zz", "-x", "", "--", "-"}
	scenario(t, "all argument lists of up to 4 words", func() {
		for _, odd := range []bool{false, true} {
			con := fab.NewController(scratch())
			log := &runLog{}
			reg := map[string]fab.Target{}
			names := []string{"a", "b"}
			if odd { // unusual names can be registered too
				names = append(names, "-x", "")
			}
			for _, n := range names {
				x, err := con.RegisterTarget(n, "", &logged{Name: n, log: log})
				if err != nil {
					failf("RegisterTarget(%q): %v", n, err)
				}
				reg[n] = x
			}
			var rec func(args []string)
			rec = func(args []string) {
				parseCase(con, reg, args)
				if len(args) < 4 {
					for _, w := range words {
						rec(append(append([]string(nil), args...), w))
					}
				}
			}
			rec(nil)
		}
	})
}

func parseCase(con *fab.Controller, reg map[string]fab.Target, args []string) {
	oneCase()
	what := fmt.Sprintf("ParseArgs(%q)", args)
	defer func() {
		if r := recover(); r != nil {
			failf("%s: panic %v", what, r)
		}
	}()
	given := append([]string(nil), args...)
	ts, err := con.ParseArgs(args)
	if !eqStrs(args, given) {
		failf("%s changed its argument to %q", what, args)
	}
	if len(given) > 1 && len(given[1]) > 0 && given[1][0] == '-' {
		want := reg[given[0]]
		if (err == nil) != (want != nil) {
			failf("%s: error %v", what, err)
			return
		}
		if err != nil {
			return
		}
		if len(ts) != 1 {
			failf("%s: %d targets", what, len(ts))
			return
		}
		// Run it, to see which target it runs with which arguments.
		l := want.(*logged)
		var got []string
		l.f = func(ctx context.Context, _ *fab.Controller) error { got = fab.GetArgs(ctx); return nil }
		before := l.log.count(l.Name)
		c2 := fab.NewController("/nonexistent")
		if err := c2.Run(context.Background(), ts[0]); err != nil {
			failf("%s: running the target: %v", what, err)
		}
		if l.log.count(l.Name) != before+1 {
			failf("%s: the target does not run %q", what, given[0])
		}
		if !eqStrs(got, given[1:]) {
			failf("%s: the target gets %q", what, got)
		}
		return
	}
	ok := true
	for _, a := range given {
		if reg[a] == nil {
			ok = false
		}
	}
	if (err == nil) != ok {
		failf("%s: error %v", what, err)
		return
	}
	if err != nil {
		return
	}
	if len(ts) != len(given) {
		failf("%s: %d targets", what, len(ts))
		return
	}
	for i, a := range given {
		if ts[i] != reg[a] {
			failf("%s: target %d is not %q", what, i, a)
		}
	}
}
