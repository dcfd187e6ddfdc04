package fab_test

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"testing"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

// A target of a kind that is not a pointer.
type flat struct{ A string }

func (flat) Run(context.Context, *fab.Controller) error { return nil }
func (flat) Desc() string                               { return "flat" }

type empty struct{}

func (*empty) Run(context.Context, *fab.Controller) error { return nil }
func (*empty) Desc() string                               { return "empty" }

func TestC15(t *testing.T) {
	defer finish()
	scenario(t, "histories of registrations", func() {
		r := rng()
		rounds := 60
		if thorough() {
			rounds = 2000
		}
		for round := 0; round < rounds; round++ {
			con := fab.NewController(scratchless)
			log := &runLog{}
			names := []string{"a", "b", "c", "a/b", "B", "", "z z"}
			byName := map[string]fab.Target{}
			docs := map[string]string{}
			nameOf := map[fab.Target]string{}
			var made []fab.Target
			var hist []string
			for step := 0; step < 1+r.Intn(8); step++ {
				name := names[r.Intn(len(names))]
				var target fab.Target
				switch {
				case len(made) > 0 && r.Intn(4) == 0:
					target = made[r.Intn(len(made))]
				case r.Intn(5) == 0:
					target = flat{"x"}
				default:
					target = &logged{Name: fmt.Sprint("t", len(made)), log: log}
					made = append(made, target)
				}
				doc := fmt.Sprint("doc ", step)
				if r.Intn(3) == 0 {
					doc = ""
				}
				hist = append(hist, fmt.Sprintf("%q %T", name, target))
				got, err := con.RegisterTarget(name, doc, target)
				if _, bad := target.(flat); bad {
					if err == nil {
						failf("RegisterTarget accepts a target that is not a pointer")
					}
				} else {
					if err != nil {
						failf("RegisterTarget(%q): %v", name, err)
					}
					if got != target {
						failf("RegisterTarget(%q) returns another target", name)
					}
					byName[name], docs[name], nameOf[target] = target, doc, name
				}
				oneCase()
				registryIs(con, names, byName, docs, nameOf, strings.Join(hist, "; "))
			}
		}
	})
	scenario(t, "targets that lie next to each other", func() {
		oneCase()
		type pair struct {
			First  logged
			Second logged
		}
		con := fab.NewController(scratchless)
		p := &pair{}
		con.RegisterTarget("first", "1", &p.First)
		con.RegisterTarget("second", "2", &p.Second)
		if d := con.Describe(&p.First); d != "first" {
			failf("Describe of the first of two targets gives %q", d)
		}
		if d := con.Describe(&p.Second); d != "second" {
			failf("Describe of the second of two targets gives %q", d)
		}
	})
	scenario(t, "references by name", func() {
		top := scratch()
		write(top, "fab.yaml", "top1: !Seq\n  - later\ntop2: !Seq\n  - sub/x\ntop3: !Seq\n  - ./sub/../later\nmissing: !Seq\n  - nowhere\n")
		write(top, "sub/fab.yaml", "_dir: sub\nx: !Seq\n  - ./y\nz: !Seq\n  - ../later2\nw: !Seq\n - y\nv: !Seq\n - ../sub2/q\n")
		write(top, "sub2/fab.yaml", "_dir: sub2\nq: !Seq\n  - ../sub/y\n")
		con := fab.NewController(top)
		log := &runLog{}
		con.RegisterTarget("sub/y", "", &logged{Name: "sub/y", log: log})
		con.RegisterTarget("y", "", &logged{Name: "y", log: log})
		if err := con.ReadYAMLFile(""); err != nil {
			failf("reading: %v", err)
			return
		}
		con.RegisterTarget("later", "", &logged{Name: "later", log: log})
		con.RegisterTarget("later2", "", &logged{Name: "later2", log: log})
		for name, want := range map[string]string{"top1": "later", "top2": "sub/y", "sub/x": "sub/y", "sub/z": "later2", "sub/w": "y", "sub/v": "sub/y", "sub2/q": "sub/y", "missing": "", "top3": "later"} {
			oneCase()
			con2 := fab.NewController(top)
			log.mu.Lock()
			log.ids = nil
			log.mu.Unlock()
			con2.RegisterTarget("sub/y", "", &logged{Name: "sub/y", log: log})
			con2.RegisterTarget("y", "", &logged{Name: "y", log: log})
			if err := con2.ReadYAMLFile(""); err != nil {
				failf("reading: %v", err)
				return
			}
			con2.RegisterTarget("later", "", &logged{Name: "later", log: log})
			con2.RegisterTarget("later2", "", &logged{Name: "later2", log: log})
			target, _ := con2.RegistryTarget(name)
			if target == nil {
				failf("%s is not registered", name)
				continue
			}
			var err error
			muted(func() { err = con2.Run(context.Background(), target) })
			got := strings.Join(log.list(), ",")
			if got != want || (err == nil) != (want != "") {
				failf("running %s runs %q and gives %v; want %q", name, got, err, want)
			}
		}
	})
	scenario(t, "references resolved when run", func() {
		for _, reg := range []bool{true, false} {
			oneCase()
			con := fab.NewController(scratch())
			log := &runLog{}
			target, err := con.YAMLTarget(&yaml.Node{Kind: yaml.ScalarNode, Value: "n"}, "")
			if err != nil {
				failf("YAMLTarget: %v", err)
				continue
			}
			con.RegisterTarget("m", "", &logged{Name: "m", log: log})
			if reg {
				con.RegisterTarget("n", "", &logged{Name: "n", log: log})
			}
			err = con.Run(context.Background(), target)
			if reg && (err != nil || !eqStrs(log.list(), []string{"n"})) {
				failf("a reference to n: %v, ran %v", err, log.list())
			}
			if !reg && (err == nil || len(log.list()) > 0) {
				failf("a reference to a missing n: %v, ran %v", err, log.list())
			}
			if !reg {
				// Registered later, it is found.
				con.RegisterTarget("n", "", &logged{Name: "n", log: log})
				con2 := fab.NewController(scratch())
				con2.RegisterTarget("n", "", &logged{Name: "n2", log: log})
				if err := con2.Run(context.Background(), target); err != nil || !eqStrs(log.list(), []string{"n2"}) {
					failf("a reference to n in another controller: %v, ran %v", err, log.list())
				}
			}
		}
	})
}

func registryIs(con *fab.Controller, names []string, byName map[string]fab.Target, docs map[string]string, nameOf map[fab.Target]string, hist string) {
	var want []string
	for n := range byName {
		want = append(want, n)
	}
	sort.Strings(want)
	if got := con.RegistryNames(); !eqStrs(got, want) {
		failf("after %s: RegistryNames gives %q, want %q", hist, got, want)
	}
	for _, n := range names {
		got, doc := con.RegistryTarget(n)
		if got != byName[n] || doc != docs[n] {
			failf("after %s: RegistryTarget(%q) gives %v, %q", hist, n, got, doc)
		}
	}
	for x, n := range nameOf {
		if d := con.Describe(x); d != n {
			failf("after %s: Describe of the target of %q gives %q", hist, n, d)
		}
	}
	if d := con.Describe(&logged{Name: "other", log: &runLog{}}); !strings.HasPrefix(d, "unnamed ") {
		failf("after %s: Describe of an unregistered target gives %q", hist, d)
	}
}
