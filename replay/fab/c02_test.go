package fab_test

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/bobg/fab"
)

// A target that is not a pointer.
type valTarget struct{}

func (valTarget) Desc() string                               { return "value" }
func (valTarget) Run(context.Context, *fab.Controller) error { return nil }

type mapTarget map[string]int

func (mapTarget) Desc() string                               { return "map" }
func (mapTarget) Run(context.Context, *fab.Controller) error { return nil }

func TestC02(t *testing.T) {
	defer finish()
	bg := context.Background()

	scenario(t, "every combination of outcomes", func() {
		// 0: succeeds, 1: fails, 2: not a pointer, 3: by name and fails, 4: by name and succeeds, 5: no such name, 6: already run and failed, 7: already run and succeeded
		const kinds = 8
		max := 3
		for n := 0; n <= max; n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= kinds
			}
			for code := 0; code < total; code++ {
				for ci, ctx := range []context.Context{bg, fab.WithVerbose(bg, true)} {
					if n == max && code%2 != ci {
						continue
					}
					oneCase()
					con := fab.NewController("")
					var ts []fab.Target
					var cs []*counted
					var want []error
					bad := false
					what := ""
					muted(func() {
						for i, c := 0, code; i < n; i, c = i+1, c/kinds {
							x := &counted{Name: fmt.Sprint(i), slow: time.Microsecond * time.Duration(i*20)}
							cs = append(cs, x)
							e := &ptrErr{fmt.Sprintf("e%d", i)}
							k := c % kinds
							what += fmt.Sprintf(" %d", k)
							switch k {
							case 1, 3, 6:
								x.err = e
								want = append(want, e)
								bad = true
							case 2, 5:
								bad = true
							}
							var t fab.Target = x
							switch k {
							case 2:
								t = valTarget{}
								x.done.Store(true)
							case 3, 4, 5:
								name := fmt.Sprintf("T%d", i)
								if k != 5 {
									con.RegisterTarget(name, "", x)
								} else {
									x.done.Store(true)
								}
								if err := con.ReadYAML(strings.NewReader(fmt.Sprintf("Ref%d: %s\n", i, name)), ""); err != nil {
									failf("reading: %v", err)
								}
								t, _ = con.RegistryTarget(fmt.Sprintf("Ref%d", i))
							case 6, 7:
								con.Run(ctx, x)
							}
							ts = append(ts, t)
						}
					})
					what = "targets of the kinds" + what + " (0 good, 1 failing, 2 no pointer, 3 by name failing, 4 by name good, 5 no such name, 6 failed before, 7 good before)"
					err := runQuiet(con, ctx, ts...)
					if (err != nil) != bad {
						failf("%s: error %v", what, err)
					}
					for _, e := range want {
						var p *ptrErr
						if !errors.Is(err, e) || !errors.As(err, &p) {
							failf("%s: the error of Run, %v, does not give the error %v", what, err, e)
						}
					}
					for i, c := range cs {
						if !c.done.Load() {
							failf("%s: Run returned before target %d finished", what, i)
						}
					}
					if err2 := runQuiet(con, ctx, ts...); (err2 != nil) != bad {
						failf("%s, a second time: error %v", what, err2)
					} else {
						for _, e := range want {
							if !errors.Is(err2, e) {
								failf("%s, a second time: the error of Run, %v, does not give the error %v", what, err2, e)
							}
						}
					}
				}
			}
		}
	})

	scenario(t, "every kind of error", func() {
		for _, e := range kindsOfErrors {
			for ci, ctx := range runContexts() {
				oneCase()
				con := fab.NewController("")
				bad := &counted{err: e}
				good := &counted{}
				for i, ts := range [][]fab.Target{{bad}, {good, bad}, {bad, good, good}, {good}, {fab.All(good, bad)}, {fab.Seq(bad)}} {
					err := runQuiet(con, ctx, ts...)
					if i == 3 {
						if err != nil {
							failf("a good target, context %d: %v", ci, err)
						}
					} else if !sameErr(err, e) {
						failf("a target that returns %T %v, context %d, request %d: Run returns %v", e, e, ci, i, err)
					}
				}
			}
		}
	})

	scenario(t, "waiting for all, whatever fails first", func() {
		for n := 1; n <= 4; n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for _, how := range []string{"fresh", "started by another request", "started by another request, this one canceled", "canceled"} {
					oneCase()
					con := fab.NewController("")
					ctx, cancel := context.WithCancel(bg)
					release := make(chan struct{})
					started := make(chan struct{}, n)
					var ts []fab.Target
					var cs []*counted
					for i := 0; i < n; i++ {
						c := &counted{}
						if mask>>i&1 == 1 {
							c.err = fmt.Errorf("e%d", i)
						} else {
							c.f = func(context.Context, *fab.Controller) error {
								started <- struct{}{}
								<-release
								return nil
							}
						}
						cs = append(cs, c)
						ts = append(ts, c)
					}
					slow := 0
					for i := 0; i < n; i++ {
						if mask>>i&1 == 0 {
							slow++
						}
					}
					other := make(chan struct{})
					otherCtx := ctx
					if strings.Contains(how, "this one canceled") {
						otherCtx = bg
						cancel()
					}
					if strings.HasPrefix(how, "started") {
						go func() { defer close(other); runQuietly(con, otherCtx, ts...) }()
						for i := 0; i < slow; i++ {
							<-started
						}
					} else {
						close(other)
					}
					done := make(chan error, 1)
					go func() { done <- con.Run(ctx, ts...) }()
					if !strings.HasPrefix(how, "started") {
						for i := 0; i < slow; i++ {
							<-started
						}
					}
					if how == "canceled" {
						cancel()
					}
					if slow > 0 {
						select {
						case err := <-done:
							failf("%d targets of which those in %b fail at once and the others are still running (%s): Run returned %v", n, mask, how, err)
							close(release)
							cancel()
							continue
						case <-time.After(time.Millisecond):
						}
					}
					close(release)
					err := <-done
					<-other
					cancel()
					if (err != nil) != (mask != 0) {
						failf("%d targets of which those in %b fail (%s): Run returned %v", n, mask, how, err)
					}
					for i := 0; i < n; i++ {
						if mask>>i&1 == 1 && !errors.Is(err, cs[i].err) {
							failf("%d targets of which those in %b fail (%s): Run returned %v without the error of target %d", n, mask, how, err, i)
						}
						if !cs[i].done.Load() {
							failf("%d targets of which those in %b fail (%s): Run returned before target %d finished", n, mask, how, i)
						}
					}
				}
			}
		}
	})

	scenario(t, "concurrent requests see the one outcome", func() {
		rounds := 150
		if thorough() {
			rounds = 3000
		}
		for round := 0; round < rounds; round++ {
			oneCase()
			con := fab.NewController("")
			a, b := &counted{}, &counted{err: errors.New("b")}
			if round%3 == 0 {
				b.slow = 200 * time.Microsecond
			}
			con.RegisterTarget("A", "", a)
			con.RegisterTarget("B", "", b)
			refs := byName(con, "A", "B")
			var wg sync.WaitGroup
			start := make(chan struct{})
			for g := 0; g < 12; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					if round%2 == 1 {
						for i := 0; i < g; i++ {
							runtime.Gosched()
						}
					}
					var ts []fab.Target
					switch g % 6 {
					case 0:
						ts = []fab.Target{a}
					case 1:
						ts = []fab.Target{b}
					case 2:
						ts = []fab.Target{a, b}
					case 3:
						ts = []fab.Target{b, a, b}
					case 4:
						ts = []fab.Target{refs[0], refs[1], refs[2]}
					case 5:
						ts = refs
					}
					err := con.Run(bg, ts...)
					bad := g%6 != 0 && g%6 != 4
					if bad != errors.Is(err, b.err) || bad != (err != nil) {
						failf("request %d of 12 (round %d) got %v", g, round, err)
					}
					if g%6 != 1 && !a.done.Load() || bad && !b.done.Load() {
						failf("request %d of 12 (round %d) returned too early", g, round)
					}
				}()
			}
			close(start)
			wg.Wait()
		}
	})

	scenario(t, "requests by running targets", func() {
		r := rng()
		rounds := 200
		if thorough() {
			rounds = 3000
		}
		for round := 0; round < rounds; round++ {
			oneCase()
			con := fab.NewController("")
			n := 2 + r.Intn(7)
			ts := make([]*counted, n)
			fails := make([]map[error]bool, n)
			for i := n - 1; i >= 0; i-- {
				c := &counted{}
				fails[i] = map[error]bool{}
				var parts []fab.Target
				var idx []int
				for j := i + 1; j < n; j++ {
					if r.Intn(2) == 0 {
						parts = append(parts, ts[j])
						idx = append(idx, j)
					}
				}
				if r.Intn(4) == 0 {
					c.err = fmt.Errorf("e%d", i)
				}
				i := i
				c.f = func(ctx context.Context, con *fab.Controller) error {
					err := con.Run(ctx, parts...)
					for _, j := range idx {
						if !ts[j].done.Load() {
							failf("graph of round %d: target %d went on before target %d, which it requested, finished", round, i, j)
						}
						for e := range fails[j] {
							if !errors.Is(err, e) {
								failf("graph of round %d: target %d got %v, without the error %v of target %d", round, i, err, e, j)
							}
						}
						if len(fails[j]) > 0 && err == nil {
							failf("graph of round %d: target %d got no error from target %d", round, i, j)
						}
					}
					return err
				}
				for _, j := range idx {
					for e := range fails[j] {
						fails[i][e] = true
					}
				}
				if len(fails[i]) == 0 && c.err != nil {
					fails[i][c.err] = true
				}
				ts[i] = c
			}
			var all []fab.Target
			bad := false
			for i, c := range ts {
				all = append(all, c)
				bad = bad || len(fails[i]) > 0
			}
			r.Shuffle(n, func(i, j int) { all[i], all[j] = all[j], all[i] })
			err := con.Run(bg, all...)
			if (err != nil) != bad {
				failf("graph of round %d: Run returned %v", round, err)
			}
			for i := range fails {
				for e := range fails[i] {
					if !errors.Is(err, e) {
						failf("graph of round %d: Run returned %v without %v", round, err, e)
					}
				}
			}
		}
	})

	scenario(t, "unusable targets", func() {
		for _, bad := range []fab.Target{valTarget{}, mapTarget{}, nil} {
			for pos := 0; pos < 3; pos++ {
				for _, later := range []bool{false, true} {
					oneCase()
					con := fab.NewController("")
					cs := []*counted{{slow: 2 * time.Millisecond}, {slow: time.Millisecond, err: errors.New("x")}}
					ts := []fab.Target{cs[0], cs[1]}
					ts = append(ts[:pos:pos], append([]fab.Target{bad}, ts[pos:]...)...)
					if bad == nil {
						// Whether nil is an error or a panic is not specified.
						continue
					}
					if later {
						runQuiet(con, bg, bad)
					}
					err := runQuiet(con, bg, ts...)
					if !errors.Is(err, cs[1].err) || !cs[0].done.Load() || !cs[1].done.Load() || strings.Count(err.Error(), "\n") < 1 {
						failf("two targets and an unusable %T: error %v, finished %v %v", bad, err, cs[0].done.Load(), cs[1].done.Load())
					}
				}
			}
		}
	})

	scenario(t, "a name registered later", func() {
		oneCase()
		con := fab.NewController("")
		con.ReadYAML(strings.NewReader("Ref: Later\n"), "")
		ref, _ := con.RegistryTarget("Ref")
		if err := runQuiet(con, bg, ref); err == nil {
			failf("a reference to a target that is not registered succeeds")
		}
		c := &counted{err: errors.New("late")}
		con.RegisterTarget("Later", "", c)
		if err := runQuiet(con, bg, ref); !errors.Is(err, c.err) || c.n.Load() != 1 {
			failf("a reference to a target registered after a failing request: error %v, ran %d times", err, c.n.Load())
		}
	})
}

func runQuietly(con *fab.Controller, ctx context.Context, ts ...fab.Target) { con.Run(ctx, ts...) }
