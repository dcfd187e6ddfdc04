package fab_test

import (
	"context"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"testing"

	"github.com/bobg/fab"
)

func TestC11(t *testing.T) {
	defer finish()
	ctx0 := context.Background()
	run := func(c *fab.Clean, verbose bool) (err error) {
		muted(func() { err = c.Run(fab.WithVerbose(ctx0, verbose), fab.NewController("")) })
		return err
	}
	rel := func(d string, s []string) string { return strings.ReplaceAll(fmt.Sprintf("%q", s), d, "D") }

	scenario(t, "lists of files", func() {
		r := rng()
		n := 150
		if thorough() {
			n = 3000
		}
		for ; n > 0; n-- {
			oneCase()
			d := scratch()
			names := []string{"a", "b", "c.txt", "d e", "sub/f", "-x", "*", "é", "~", "link", "dangling", "emptydir", "missing", "missing/x", "z"}
			for _, f := range names[:9] {
				write(d, f, f)
			}
			write(d, "z", "z")
			os.Symlink(filepath.Join(d, "a"), filepath.Join(d, "link"))
			os.Symlink(filepath.Join(d, "nowhere"), filepath.Join(d, "dangling"))
			os.Mkdir(filepath.Join(d, "emptydir"), 0755)
			var list, want []string
			for k := r.Intn(8); k > 0; k-- {
				list = append(list, filepath.Join(d, names[r.Intn(len(names))]))
			}
			want = append(want, list...)
			given := append(make([]string, 0, len(list)+r.Intn(3)*4), list...)
			ac := r.Intn(3) == 0
			var auto, not []string
			if ac || r.Intn(2) == 0 {
				for k := r.Intn(4); k > 0; k-- {
					f := filepath.Join(d, names[r.Intn(len(names))])
					yes := r.Intn(2) == 0
					switch {
					case yes && r.Intn(2) == 0:
						auto = append(auto, f, filepath.Join(d, "second"))
						write(d, "second", "2")
						fab.Files(&logged{log: &runLog{}}, []string{filepath.Join(d, "b")}, []string{f, filepath.Join(d, "second")}, fab.Autoclean(false), fab.Autoclean(true))
					case yes:
						auto = append(auto, f)
						fab.Files(&logged{log: &runLog{}}, nil, []string{f}, fab.Autoclean(true))
					case r.Intn(2) == 0:
						not = append(not, f)
						fab.Files(&logged{log: &runLog{}}, nil, []string{f}, fab.Autoclean(false))
					default:
						not = append(not, f)
						fab.Files(&logged{log: &runLog{}}, []string{f}, []string{f})
					}
				}
			}
			if ac {
				want = append(want, auto...)
			}
			c := &fab.Clean{Files: given, Autoclean: ac}
			verbose := r.Intn(2) == 0
			what := fmt.Sprintf("Clean of %s, Autoclean %v with registered %s and unregistered %s", rel(d, list), ac, rel(d, auto), rel(d, not))
			if err := run(c, verbose); err != nil {
				failf("%s: %v", what, err)
			}
			gone := map[string]bool{}
			for _, f := range want {
				gone[f] = true
			}
			for _, f := range append(names, "sub", "second") {
				p := filepath.Join(d, f)
				was := !strings.HasPrefix(f, "missing") && f != "second" || f == "second" && len(auto) > 0 && contains(auto, p)
				if was && exists(p) == gone[p] {
					failf("%s: %q exists afterwards: %v", what, f, exists(p))
				}
			}
			if !eqStrs(c.Files, list) || !eqStrs(given, list) {
				failf("%s: the list becomes %s", what, rel(d, c.Files))
			}
			if ext := given[:cap(given)]; len(ext) > len(list) {
				for _, x := range ext[len(list):] {
					if x != "" {
						failf("%s: the memory after the list becomes %q", what, x)
					}
				}
			}
			if c.Autoclean != ac {
				failf("%s: Autoclean changes", what)
			}
			// Again, when nothing is there.
			if err := run(c, verbose); err != nil {
				failf("%s, again: %v", what, err)
			}
		}
	})

	scenario(t, "files that cannot be removed", func() {
		for _, verbose := range []bool{false, true} {
			for at := 0; at < 4; at++ {
				for kind := 0; kind < 5; kind++ {
					{
						oneCase()
						d := scratch()
						list := []string{write(d, "f1", ""), write(d, "f2", ""), write(d, "f3", "")}
						bad := write(d, "dir/x", "x")
						prefix := []string{"a", "f1a", "f2a", "f4"}[at]
						var want error
						switch kind {
						case 0:
							bad, want = filepath.Join(d, prefix), syscall.ENOTEMPTY
							write(bad, "x", "x")
						case 1:
							bad, want = filepath.Join(write(d, prefix, ""), "x"), syscall.ENOTDIR
						case 2:
							bad, want = filepath.Join(d, prefix+strings.Repeat("n", 300)), syscall.ENAMETOOLONG
						case 3:
							bad, want = filepath.Join(d, prefix+"\x00"), syscall.EINVAL
						case 4:
							bad, want = filepath.Join(d, prefix), syscall.ELOOP
							os.Symlink(bad, bad)
							bad = filepath.Join(bad, "x")
						}
						c := &fab.Clean{Files: append(append(append([]string(nil), list[:min3(at)]...), bad), list[min3(at):]...)}
						given := append([]string(nil), c.Files...)
						what := fmt.Sprintf("Clean of %s, of which one cannot be removed (%v)", rel(d, given), want)
						err := run(c, verbose)
						if err == nil {
							failf("%s: succeeds", what)
						} else if !errors.Is(err, want) {
							failf("%s: error %v", what, err)
						}
						if !eqStrs(c.Files, given) {
							failf("%s: the list becomes %s", what, rel(d, c.Files))
						}
						if exists(filepath.Join(d, "dir/x")) == false {
							failf("%s: removes another file", what)
						}
						if kind == 0 && !exists(filepath.Join(d, prefix, "x")) {
							failf("%s: removes what is in the directory", what)
						}
					}
				}
			}
		}
	})

	scenario(t, "the registry, last", func() {
		// A registered file that cannot be removed at first.
		d := scratch()
		write(d, "dir/x", "x")
		f := write(d, "f", "")
		fab.Files(&logged{log: &runLog{}}, nil, []string{filepath.Join(d, "dir"), f}, fab.Autoclean(true))
		oneCase()
		if err := run(&fab.Clean{}, false); err != nil || !exists(f) {
			failf("Clean without Autoclean: error %v, registered file exists %v", err, exists(f))
		}
		oneCase()
		if err := run(&fab.Clean{Autoclean: true}, false); !errors.Is(err, syscall.ENOTEMPTY) {
			failf("Clean of the registry with a directory that is not empty: %v", err)
		}
		os.Remove(filepath.Join(d, "dir/x"))
		oneCase()
		if err := run(&fab.Clean{Autoclean: true}, false); err != nil || exists(f) || exists(filepath.Join(d, "dir")) {
			failf("Clean of the registry: %v; files exist: %v %v", err, exists(f), exists(filepath.Join(d, "dir")))
		}
		// Files registered between runs, by several goroutines.
		oneCase()
		done := make(chan bool)
		var fs []string
		for i := 0; i < 20; i++ {
			fs = append(fs, write(d, fmt.Sprintf("g%d", i), ""))
		}
		for i := range fs {
			go func(i int) {
				fab.Files(&logged{log: &runLog{}}, nil, fs[i:i+1], fab.Autoclean(true))
				done <- true
			}(i)
		}
		for range fs {
			<-done
		}
		if err := run(&fab.Clean{Autoclean: true}, false); err != nil {
			failf("Clean of the registry: %v", err)
		}
		for _, f := range fs {
			if exists(f) {
				failf("a file put in the registry concurrently is not removed")
			}
		}
	})
}

func min3(n int) int {
	if n > 3 {
		return 3
	}
	return n
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
