package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// The harness runs concrete scenarios of a property on the real code: to find a failing input when an
// obligation fails, and, for some properties, as a labelled bounded stand-in for functions out of the
// verifier's reach.

type harnessInfo struct {
	always bool   // a bounded stand-in: run also when every obligation is discharged
	note   string // what it stands in for, and its bound
	pkgs   []string
	race   bool // also with the race detector
}

type harnessResult struct {
	cmd   string
	cases int
	fails []string
	note  string
	out   string
	names []string
}

func (h *harnessResult) failed() bool { return len(h.fails) > 0 }
func (h *harnessResult) first() string {
	return h.fails[0]
}

func (h *harnessResult) summary() map[string]any {
	return map[string]any{"cases": h.cases, "failures": len(h.fails), "stands_in_for": h.note, "label": "bounded, not counted as proved", "scenarios": h.names}
}

func harnessFor(p string) harnessInfo {
	var all map[string]harnessInfo
	b, err := os.ReadFile(filepath.Join(*flagVerif, "replay", "harness.json"))
	if err != nil {
		return harnessInfo{}
	}
	var raw map[string]struct {
		Always bool
		Note   string
		Pkgs   []string
		Race   bool
	}
	if err := json.Unmarshal(b, &raw); err != nil {
		return harnessInfo{}
	}
	all = map[string]harnessInfo{}
	for k, v := range raw {
		all[k] = harnessInfo{v.Always, v.Note, v.Pkgs, v.Race}
	}
	return all[p]
}

// runHarness runs the scenarios of a property.
// The test files of the package are replaced, through an overlay, by those in /verif/replay.
func runHarness(p, tier string, seed int) *harnessResult {
	info := harnessFor(p)
	res := &harnessResult{note: info.note}
	dir, err := os.MkdirTemp("", "govc-replay-")
	if err != nil {
		return res
	}
	defer os.RemoveAll(dir)
	for _, pkg := range info.pkgs {
		sub := pkg
		if pkg == "fab" {
			sub = "."
		}
		pdir := filepath.Join(*flagRepo, sub)
		tests, _ := filepath.Glob(filepath.Join(pdir, "*_test.go"))
		all, _ := filepath.Glob(filepath.Join(*flagVerif, "replay", pkg, "*_test.go"))
		var mine []string
		for _, f := range all {
			if b := filepath.Base(f); strings.HasPrefix(b, "common") || strings.HasPrefix(b, strings.ToLower(p)) {
				mine = append(mine, f)
			}
		}
		if len(tests) < len(mine) || len(mine) == 0 {
			continue
		}
		repl := map[string]string{}
		empty := filepath.Join(dir, "empty_"+strings.ReplaceAll(pkg, "/", "_")+".go")
		name := filepath.Base(pkg)
		if name == "fab" && pkg != "fab" {
			name = "main"
		}
		os.WriteFile(empty, []byte("package "+name+"\n"), 0644)
		for i, t := range tests {
			if i < len(mine) {
				repl[t] = mine[i]
			} else {
				repl[t] = empty
			}
		}
		ov := filepath.Join(dir, "overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": repl})
		os.WriteFile(ov, b, 0644)
		build := func(race bool) {
			bin := filepath.Join(dir, "t.test")
			args := []string{"test", "-c"}
			if race {
				args = append(args, "-race")
			}
			args = append(args, "-vet=off", "-overlay", ov, "-o", bin, ".")
			cmd := exec.Command("go", args...)
			cmd.Dir = pdir
			cmd.Env = goEnv(os.Environ())
			var ob bytes.Buffer
			cmd.Stdout, cmd.Stderr = &ob, &ob
			if err := cmd.Run(); err != nil {
				res.out += "building the harness: " + err.Error() + "\n" + ob.String()
				if os.Getenv("GOVC_HARNESS") != "" {
					fmt.Println(res.out)
				}
				return
			}
			scratch := filepath.Join(dir, "scratch")
			os.MkdirAll(scratch, 0755)
			run := exec.Command(bin, "-test.run", "^Test"+p+"$", "-test.v", "-test.timeout", "240s")
			run.Dir = scratch
			tier := tier
			if race {
				tier = "race-" + tier
			}
			run.Env = append(goEnv(os.Environ()), "VERIF_SCRATCH="+scratch, fmt.Sprintf("VERIF_SEED=%d", seed), "VERIF_TIER="+tier, "VERIF_REPO="+*flagRepo, "TMPDIR="+scratch, "HOME="+scratch)
			ob.Reset()
			run.Stdout, run.Stderr = &ob, &ob
			res.cmd = fmt.Sprintf("cd %s && go test -overlay <the files of %s in place of the test files> -run '^Test%s$'", pdir, filepath.Join(*flagVerif, "replay", pkg), p)
			done := make(chan error, 1)
			if err := run.Start(); err != nil {
				return
			}
			go func() { done <- run.Wait() }()
			select {
			case err = <-done:
			case <-time.After(300 * time.Second):
				run.Process.Kill()
				err = <-done
			}
			out := ob.String()
			res.out += out
			if os.Getenv("GOVC_HARNESS") != "" {
				fmt.Println(out)
			}
			n := 0
			for _, l := range strings.Split(out, "\n") {
				l = strings.TrimSpace(l)
				if f, ok := strings.CutPrefix(l, "REPLAY-FAIL "); ok {
					if len(res.fails) < 20 {
						res.fails = append(res.fails, f)
					}
				}
				if f, ok := strings.CutPrefix(l, "REPLAY-CASES "); ok {
					fmt.Sscan(f, &n)
					res.cases += n
				}
				if f, ok := strings.CutPrefix(l, "REPLAY-SCENARIO "); ok {
					res.names = append(res.names, f)
				}
			}
			if err != nil && len(res.fails) == 0 {
				// The scenarios crashed or hung.
				for _, l := range strings.Split(out, "\n") {
					if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "DATA RACE") {
						what := strings.TrimSpace(l)
						if strings.Contains(l, "DATA RACE") {
							w := where(out)
							if w == "" {
								break
							}
							what += " at " + w
						}
						res.fails = append(res.fails, fmt.Sprintf("scenarios of %s: %s", p, what))
						break
					}
				}
			}
		}
		build(false)
		if info.race && !res.failed() {
			build(true)
		}
	}
	return res
}

// goEnv is the environment for running the go command of the version the repository needs.
func goEnv(env []string) []string { return env }

// where lists the lines of the code concerned by the first report of a data race that concerns it.
func where(out string) string {
	for _, rep := range strings.Split(out, "DATA RACE")[1:] {
		var ls []string
		for _, l := range strings.Split(rep, "\n") {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "=====") || len(ls) > 5 {
				break
			}
			if strings.Contains(l, ".go:") && !strings.Contains(l, "_test.go") && strings.HasPrefix(l, *flagRepo+"/") {
				ls = append(ls, strings.Fields(strings.TrimPrefix(l, *flagRepo+"/"))[0])
			}
		}
		if len(ls) > 0 {
			return strings.Join(ls, ", ")
		}
	}
	return ""
}
