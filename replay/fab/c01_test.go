package fab_test

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/bobg/fab"
)

// A target whose first field is also a target: both have the same address.
type outerTarget struct {
	inner counted
	n     atomic.Int32
}

func (o *outerTarget) Desc() string { return "outer" }
func (o *outerTarget) Run(context.Context, *fab.Controller) error {
	o.n.Add(1)
	return nil
}

// Two types with the same pointer value.
type view1 counted
type view2 counted

var viewRuns [2]atomic.Int32

func (v *view1) Desc() string                               { return "view" }
func (v *view1) Run(context.Context, *fab.Controller) error { viewRuns[0].Add(1); return nil }
func (v *view2) Desc() string                               { return "view" }
func (v *view2) Run(context.Context, *fab.Controller) error { viewRuns[1].Add(1); return nil }

func TestC01(t *testing.T) {
	defer finish()
	boom := errors.New("boom")

	scenario(t, "many requests for one target", func() {
		rounds := 300
		if thorough() {
			rounds = 3000
		}
		for _, ctx := range runContexts() {
			for round := 0; round < rounds; round++ {
				oneCase()
				con := fab.NewController("")
				var ts []*counted
				for i := 0; i < 4; i++ {
					c := &counted{Name: fmt.Sprint(i)}
					if i%2 == 1 {
						c.err = boom
					}
					ts = append(ts, c)
				}
				muted(func() {
					for i, c := range ts {
						if round%2 == 0 {
							if _, err := con.RegisterTarget(fmt.Sprintf("T%d", i), "", c); err != nil {
								failf("registering: %v", err)
							}
						}
					}
					var refs []fab.Target
					if round%2 == 0 {
						refs = byName(con, "T0", "T1", "T2", "T3")
					}
					start := make(chan struct{})
					var wg sync.WaitGroup
					for g := 0; g < 8; g++ {
						g := g
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							switch g % 4 {
							case 0:
								con.Run(ctx, ts[0], ts[1], ts[0], ts[2], ts[3])
							case 1:
								con.Run(ctx, ts[3], ts[2], ts[1])
							case 2:
								con.Run(ctx, fab.Seq(ts[0], ts[2]), fab.All(ts[3], ts[1], ts[0]))
							case 3:
								con.Run(ctx, append(refs, ts[2], ts[0])...)
							}
						}()
					}
					close(start)
					wg.Wait()
					con.Run(ctx, ts[0], ts[1], ts[2], ts[3])
				})
				for i, c := range ts {
					if n := c.n.Load(); n != 1 {
						failf("target %d requested by 8 goroutines (round %d) ran %d times", i, round, n)
					}
				}
			}
		}
	})

	scenario(t, "one after the other", func() {
		for ci, ctx := range runContexts() {
			for _, e := range append([]error{nil}, kindsOfErrors...) {
				for _, how := range []int{0, 1, 2, 3} {
					oneCase()
					con := fab.NewController("")
					c := &counted{err: e}
					muted(func() {
						con.RegisterTarget("T", "", c)
						refs := byName(con, "T", "T")
						for i := 0; i < 3; i++ {
							switch how {
							case 0:
								con.Run(ctx, c)
							case 1:
								con.Run(ctx, c, c, c)
							case 2:
								con.Run(ctx, refs...)
							case 3:
								con.Run(ctx, refs[i%len(refs)], c)
							}
						}
						for _, ctx := range runContexts() {
							con.Run(ctx, c)
						}
					})
					if n := c.n.Load(); n != 1 {
						failf("a target that returns %v, requested repeatedly (way %d) in context %d, ran %d times", e, how, ci, n)
					}
				}
			}
		}
	})

	scenario(t, "requests by targets, in any graph", func() {
		r := rng()
		rounds := 1500
		if thorough() {
			rounds = 3000
		}
		for round := 0; round < rounds; round++ {
			oneCase()
			con := fab.NewController("")
			n := 2 + r.Intn(8)
			ts := make([]*counted, n)
			for i := n - 1; i >= 0; i-- {
				c := &counted{}
				if r.Intn(5) == 0 {
					c.err = boom
				}
				var parts []fab.Target
				for j := i + 1; j < n; j++ {
					for r.Intn(2) == 0 {
						parts = append(parts, ts[j])
					}
				}
				switch r.Intn(4) {
				case 0:
					parts = []fab.Target{fab.Seq(parts...)}
				case 1:
					parts = []fab.Target{fab.All(parts...)}
				}
				many := r.Intn(2) == 0
				c.f = func(ctx context.Context, con *fab.Controller) error {
					if many {
						for _, p := range parts {
							con.Run(ctx, p)
						}
						return nil
					}
					con.Run(ctx, parts...)
					return nil
				}
				ts[i] = c
			}
			muted(func() {
				for i := 0; i < n; i++ {
					con.Run(context.Background(), ts[i], ts[r.Intn(n)])
				}
			})
			for i, c := range ts {
				if k := c.n.Load(); k != 1 {
					failf("target %d of %d in a graph (round %d) ran %d times", i, n, round, k)
				}
			}
		}
	})

	scenario(t, "distinct targets", func() {
		for mask := 0; mask < 4; mask++ {
			oneCase()
			con := fab.NewController("")
			ctx := context.Background()
			o := &outerTarget{}
			var v counted
			viewRuns[0].Store(0)
			viewRuns[1].Store(0)
			same := []*counted{{Name: "x"}, {Name: "x"}, {Name: "x"}}
			ts := []fab.Target{o, &o.inner, (*view1)(&v), (*view2)(&v), same[0], same[1], same[2]}
			if mask&1 == 1 {
				for i := 0; i < len(ts)/2; i++ {
					ts[i], ts[len(ts)-1-i] = ts[len(ts)-1-i], ts[i]
				}
			}
			muted(func() {
				if mask&2 == 0 {
					con.Run(ctx, ts...)
				} else {
					for _, t := range ts {
						con.Run(ctx, t)
					}
				}
				con.Run(ctx, ts...)
			})
			got := fmt.Sprint(o.n.Load(), o.inner.n.Load(), viewRuns[0].Load(), viewRuns[1].Load(), same[0].n.Load(), same[1].n.Load(), same[2].n.Load())
			if got != "1 1 1 1 1 1 1" {
				failf("distinct targets (an object and its first field, one object with two types, equal objects), each requested twice, ran %s times", got)
			}
		}
		// Many targets of one controller.
		oneCase()
		con := fab.NewController("")
		var ts []fab.Target
		for i := 0; i < 3000; i++ {
			ts = append(ts, &counted{})
		}
		muted(func() { con.Run(context.Background(), ts...); con.Run(context.Background(), ts...) })
		for i, x := range ts {
			if n := x.(*counted).n.Load(); n != 1 {
				failf("target %d of 3000 requested twice ran %d times", i, n)
				break
			}
		}
	})

	scenario(t, "another controller", func() {
		oneCase()
		c := &counted{}
		muted(func() {
			for i := 0; i < 3; i++ {
				fab.NewController("").Run(context.Background(), c)
			}
		})
		if n := c.n.Load(); n != 3 {
			failf("a target requested from 3 controllers ran %d times", n)
		}
	})

	scenario(t, "composite targets run through the controller", func() {
		for _, e := range []error{nil, boom} {
			oneCase()
			con := fab.NewController("")
			a, b := &counted{err: e}, &counted{}
			ctx := context.Background()
			muted(func() {
				con.Run(ctx, fab.Seq(a, b), fab.All(a, b), fab.Deps(b, a), fab.ArgTarget(a, "x"), fab.Seq(fab.All(a), fab.ArgTarget(b)))
				con.Run(ctx, a)
				con.Run(ctx, fab.Files(a, nil, nil), fab.Files(b, nil, nil), b)
			})
			if a.n.Load() != 1 || b.n.Load() != 1 {
				failf("parts of several composite targets ran %d and %d times", a.n.Load(), b.n.Load())
			}
		}
	})
}
