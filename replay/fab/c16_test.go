package fab_test

import (
	"errors"
	"path/filepath"
	"testing"

	"github.com/bobg/fab"
	"gopkg.in/yaml.v3"
)

var errTagged = errors.New("tagged element failed")

func TestC16(t *testing.T) {
	defer finish()
	fab.RegisterYAMLStringList("verif.List", func(_ *fab.Controller, node *yaml.Node, dir string) ([]string, error) {
		if node.Value == "fail" {
			return nil, errTagged
		}
		var out []string
		for _, n := range node.Content {
			out = append(out, dir+"|"+n.Value)
		}
		return out, nil
	})
	words := []string{"a", "/b", "c/d", "/e/f", "..", "", "/"}
	scenario(t, "all paths of up to 4 elements", func() {
		con := fab.NewController("/top/dir")
		var rec func(elts []string)
		rec = func(elts []string) {
			oneCase()
			want := filepath.Join(append([]string{"/top/dir"}, elts...)...)
			for i := len(elts) - 1; i >= 0; i-- {
				if filepath.IsAbs(elts[i]) {
					want = filepath.Join(elts[i:]...)
					break
				}
			}
			given := append([]string(nil), elts...)
			if got := con.JoinPath(elts...); got != want {
				failf("JoinPath(%q) gives %q, want %q", elts, got, want)
			}
			if !eqStrs(given, elts) {
				failf("JoinPath changed its argument")
			}
			if len(elts) < 4 {
				for _, w := range words {
					rec(append(append([]string(nil), elts...), w))
				}
			}
		}
		rec(nil)
	})
	docs := []string{"x", "/y", "'!!z'", "!!str q", "!verif.List [l, m]", "!verif.List []", "!verif.List fail", "!unknown n", "[k]", "*anchor", "{a: b}", "~", "3"}
	scenario(t, "all lists of up to 3 elements", func() {
		con := fab.NewController("/top/dir")
		for _, dir := range []string{"", "sub", "/abs"} {
			var rec func(els []int)
			rec = func(els []int) {
				listCase(con, docs, els, dir)
				if len(els) < 3 {
					for i := range docs {
						rec(append(append([]int(nil), els...), i))
					}
				}
			}
			rec(nil)
		}
	})
	scenario(t, "nodes that are not sequences", func() {
		con := fab.NewController("/top/dir")
		for _, text := range []string{"x", "{a: b}", "!unknown [a]"} {
			oneCase()
			n := parseNode(text)
			if got, err := con.YAMLStringList(n, ""); err == nil {
				failf("the list %s gives %q and no error", text, got)
			}
			if got, err := con.YAMLFileList(n, ""); err == nil {
				failf("the file list %s gives %q and no error", text, got)
			}
		}
		n := parseNode("!verif.List [a, b]")
		if got, err := con.YAMLStringList(n, "d"); err != nil || !eqStrs(got, []string{"d|a", "d|b"}) {
			failf("a tagged list gives %q, %v", got, err)
		}
		if got, err := con.YAMLFileList(n, "d"); err != nil || !eqStrs(got, []string{"/top/dir/d/d|a", "/top/dir/d/d|b"}) {
			failf("a tagged file list gives %q, %v", got, err)
		}
		if got, err := con.YAMLStringList(&yaml.Node{}, "d"); err != nil || len(got) != 0 {
			failf("an absent list gives %q, %v", got, err)
		}
	})
}

func listCase(con *fab.Controller, docs []string, els []int, dir string) {
	oneCase()
	text := "["
	var want []string
	ok := true
	for i, e := range els {
		if i > 0 {
			text += ", "
		}
		text += docs[e]
		switch docs[e] {
		case "x", "/y", "3":
			want = append(want, docs[e])
		case "'!!z'":
			want = append(want, "!!z")
		case "~":
			want = append(want, "~")
		case "!!str q":
			want = append(want, "q")
		case "!verif.List [l, m]":
			want = append(want, dir+"|l", dir+"|m")
		case "!verif.List []":
		default:
			ok = false
		}
	}
	text += "]"
	n := parseNode("[&anchor foo, " + text + "]").Content[1]
	files := func(ss []string) (out []string) {
		for _, s := range ss {
			if filepath.IsAbs(s) {
				out = append(out, filepath.Join(s))
			} else if filepath.IsAbs(dir) {
				out = append(out, filepath.Join(dir, s))
			} else {
				out = append(out, filepath.Join("/top/dir", dir, s))
			}
		}
		return
	}
	check := func(what string, got []string, err error, want []string) {
		if (err == nil) != ok || ok && !eqStrs(got, want) {
			failf("%s of %s in %q gives %q, %v; want %q, success %v", what, text, dir, got, err, want, ok)
		}
	}
	got, err := con.YAMLStringList(n, dir)
	check("YAMLStringList", got, err, want)
	got, err = con.YAMLStringListFromNodes(n.Content, dir)
	check("YAMLStringListFromNodes", got, err, want)
	got, err = con.YAMLFileList(n, dir)
	check("YAMLFileList", got, err, files(want))
	got, err = con.YAMLFileListFromNodes(n.Content, dir)
	check("YAMLFileListFromNodes", got, err, files(want))
}
