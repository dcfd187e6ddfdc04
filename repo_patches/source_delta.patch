From 782149a079addc926f974acba505be9406fd9870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:48 +0000
Subject: [PATCH 01/21] fix: run a target referred to by several names only
 once

Controller.Run recorded the outcome of a by-name (deferred) target reference
under the address of the reference, not of the target it resolves to, so two
references to one target ran it twice.
---
 runner.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/runner.go b/runner.go
index 941228c..33dd14a 100644
--- a/runner.go
+++ b/runner.go
@@ -63,16 +63,13 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 		wg      sync.WaitGroup
 	)
 	for i, target := range targets {
-		addr, err := targetAddr(target)
-		if err != nil {
-			errs[i] = err
-			continue
-		}
-
 		i, target := i, target // Go loop-var pitfall
 
 		if d, ok := target.(*deferredResolutionTarget); ok {
 			// Short-circuit here to avoid some confusing extra output in verbose mode.
+			// This has to happen before targetAddr is called below:
+			// all references to the same target must share one outcome.
+			var err error
 			target, err = d.resolve(con)
 			if err != nil {
 				errs[i] = err
@@ -80,6 +77,12 @@ func (con *Controller) Run(ctx context.Context, targets ...Target) error {
 			}
 		}
 
+		addr, err := targetAddr(target)
+		if err != nil {
+			errs[i] = err
+			continue
+		}
+
 		wg.Add(1)
 		go func() {
 			defer wg.Done()
-- 
2.43.0


From e5d6a2132ef3c11ff815b612dae6ec285eccd438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 02/21] fix: do not mistake one target for another with the
 same address

Controllers identified targets by address as a uintptr. That does not keep the
target alive, so a new target allocated at the address of a collected one was
taken to have run already; and distinct targets with equal addresses (zero-size
types, a struct and its first field) were conflated, up to a deadlock.
---
 controller.go |  8 ++++----
 register.go   | 14 +++++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/controller.go b/controller.go
index 23f35f6..fd5fa59 100644
--- a/controller.go
+++ b/controller.go
@@ -23,12 +23,12 @@ type Controller struct {
 	depth int
 
 	// Records targets that have run or are running.
-	ran map[uintptr]*outcome
+	ran map[Target]*outcome
 
 	// Keys are names related to topdir.
 	targetsByName map[string]targetRegistryTuple
 
-	targetsByAddr map[uintptr]targetRegistryTuple
+	targetsByAddr map[Target]targetRegistryTuple
 }
 
 // NewController creates a new [Controller]
@@ -38,9 +38,9 @@ type Controller struct {
 func NewController(topdir string) *Controller {
 	return &Controller{
 		topdir:        topdir,
-		ran:           make(map[uintptr]*outcome),
+		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
-		targetsByAddr: make(map[uintptr]targetRegistryTuple),
+		targetsByAddr: make(map[Target]targetRegistryTuple),
 	}
 }
 
diff --git a/register.go b/register.go
index 7180e62..1cc5192 100644
--- a/register.go
+++ b/register.go
@@ -25,12 +25,16 @@ func (con *Controller) RegisterTarget(name, doc string, target Target) (Target,
 	return target, nil
 }
 
-func targetAddr(target Target) (uintptr, error) {
-	v := reflect.ValueOf(target)
-	if v.Kind() != reflect.Pointer {
-		return 0, fmt.Errorf("got type %T for target, want a pointer type", target)
+// targetAddr returns the key that identifies target, which must be a pointer.
+// The key is the pointer itself, with its type.
+// (A bare uintptr would not do:
+// it does not keep the target alive, so its value may be reused for another target;
+// and pointers of different types may have the same address.)
+func targetAddr(target Target) (Target, error) {
+	if reflect.ValueOf(target).Kind() != reflect.Pointer {
+		return nil, fmt.Errorf("got type %T for target, want a pointer type", target)
 	}
-	return uintptr(v.UnsafePointer()), nil
+	return target, nil
 }
 
 type targetRegistryTuple struct {
-- 
2.43.0


From 33ff51887ecaf53b0a51709aa1c1531749ba6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:52 +0000
Subject: [PATCH 03/21] fix: make Seq JSON-encodable, as documented

The targets of a Seq were in an unexported field, so they did not take part in
the hash of a Files target with a Seq (or Deps) subtarget: changing them did not
cause a rebuild.
---
 seq.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seq.go b/seq.go
index ef84027..079ea2b 100644
--- a/seq.go
+++ b/seq.go
@@ -20,18 +20,20 @@ import (
 // The elements in the sequence are targets themselves,
 // or target names.
 func Seq(targets ...Target) Target {
-	return &seq{targets: targets}
+	return &seq{Targets: targets}
 }
 
 type seq struct {
-	targets []Target
+	// The JSON name differs from that of the same field in all,
+	// so that a nested Seq and a nested All do not encode alike.
+	Targets []Target `json:"SeqTargets"`
 }
 
 var _ Target = &seq{}
 
 // Run implements Target.Run.
 func (s *seq) Run(ctx context.Context, con *Controller) error {
-	for _, t := range s.targets {
+	for _, t := range s.Targets {
 		if err := con.Run(ctx, t); err != nil {
 			return err
 		}
-- 
2.43.0


From b71005692f147a219119d618121f1b00cf68f79b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 04/21] fix: recognize a Files target as up to date when its
 subtarget is given by name

The hash was computed from the unresolved reference before running the subtarget
and from the resolved one afterwards, so the stored hash was never found.
---
 files.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/files.go b/files.go
index aa9fc57..1d6a7c6 100644
--- a/files.go
+++ b/files.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/sha256"
 	"encoding/hex"
+	"fmt"
 	"io"
 	"io/fs"
 	"os"
@@ -165,6 +166,12 @@ func (*files) Desc() string {
 }
 
 func (ft *files) computeHash(con *Controller) ([]byte, error) {
+	// By-name references must be resolved for the rules they refer to to be included in the hash,
+	// both before and after the subtarget runs.
+	if err := resolveDeferred(con, ft.Target, nil); err != nil {
+		return nil, errors.Wrapf(err, "resolving subtarget of %s", con.Describe(ft))
+	}
+
 	inHashes, err := fileHashes(ft.In)
 	if err != nil {
 		return nil, errors.Wrapf(err, "computing input hash(es) for %s", con.Describe(ft))
@@ -194,6 +201,42 @@ func (ft *files) computeHash(con *Controller) ([]byte, error) {
 	return sum[:], nil
 }
 
+// resolveDeferred resolves the by-name references in target.
+// The path argument contains the references leading to it.
+func resolveDeferred(con *Controller, target Target, path []Target) error {
+	var subtargets []Target
+
+	switch t := target.(type) {
+	case *deferredResolutionTarget:
+		for _, p := range path {
+			if p == target {
+				return fmt.Errorf("target %s refers to itself", t.Name)
+			}
+		}
+		resolved, err := t.resolve(con)
+		if err != nil {
+			return err
+		}
+		return resolveDeferred(con, resolved, append(path[:len(path):len(path)], target))
+
+	case *all:
+		subtargets = t.Targets
+	case *seq:
+		subtargets = t.Targets
+	case *argTarget:
+		subtargets = []Target{t.Target}
+	case *files:
+		subtargets = []Target{t.Target}
+	}
+
+	for _, sub := range subtargets {
+		if err := resolveDeferred(con, sub, path); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
 func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
-- 
2.43.0


From b764a7c55c5505e8fb054a1aef33443af55f08f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 05/21] fix: do not crash when an input or output of a Files
 target cannot be statted

---
 files.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/files.go b/files.go
index 1d6a7c6..57aa4eb 100644
--- a/files.go
+++ b/files.go
@@ -330,6 +330,9 @@ func fileHashesItemHelper(item string, hashes map[string]string) error {
 		hashes[item] = ""
 		return nil
 	}
+	if err != nil {
+		return errors.Wrapf(err, "statting %s", item)
+	}
 
 	if info.IsDir() {
 		entries, err := os.ReadDir(item)
-- 
2.43.0


From fb66e501d806f0dd2cb04a733961fa7dcc4f66f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 06/21] fix: do not deadlock on a Files target that updates one
 of its input files

---
 files.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/files.go b/files.go
index 57aa4eb..f05a2d2 100644
--- a/files.go
+++ b/files.go
@@ -241,7 +241,8 @@ func (ft *files) runPrereqs(ctx context.Context, con *Controller) error {
 	var prereqs []Target
 
 	for _, in := range ft.In {
-		if target := findInFilesRegistry(in); target != nil {
+		// A target that updates one of its inputs is not its own prerequisite.
+		if target := findInFilesRegistry(in); target != nil && target != ft {
 			prereqs = append(prereqs, target)
 		}
 	}
-- 
2.43.0


From b3f9ed196acf62019177278fcd76a1a0123dd003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:01 +0000
Subject: [PATCH 07/21] fix: do not crash on an empty command-line argument

---
 controller.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/controller.go b/controller.go
index fd5fa59..0d1c066 100644
--- a/controller.go
+++ b/controller.go
@@ -85,7 +85,7 @@ func (con *Controller) ParseArgs(args []string) ([]Target, error) {
 		unknown []string
 	)
 
-	if len(args) > 1 && args[1][0] == '-' {
+	if len(args) > 1 && strings.HasPrefix(args[1], "-") {
 		// Just one target, and remaining args are arguments for that target.
 		if target, _ := con.RegistryTarget(args[0]); target != nil {
 			targets = append(targets, ArgTarget(target, args[1:]...))
-- 
2.43.0


From f2c6a241bf760d999c61d757a74db4f14b7013cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:03 +0000
Subject: [PATCH 08/21] fix: honor a file name in the Stdin field of a YAML
 Command

---
 command.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command.go b/command.go
index 238cd26..402ccd0 100644
--- a/command.go
+++ b/command.go
@@ -446,8 +446,15 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		Env:   env,
 	}
 
-	if c.Stdin == "$stdin" {
+	switch c.Stdin {
+	case "$stdin":
 		result.Stdin = os.Stdin
+
+	case "":
+		// do nothing
+
+	default:
+		result.StdinFile = con.JoinPath(dir, c.Stdin)
 	}
 
 	switch c.Stdout {
-- 
2.43.0


From fdc74000704374dab291d7913ca7abf8b0508068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:05 +0000
Subject: [PATCH 09/21] fix: honor the >> prefix in the Stdout and Stderr
 fields of a YAML Command

The prefixed name was joined to the directory as a whole, which produced an
output file named '>>name'.
---
 command.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/command.go b/command.go
index 402ccd0..41ce66e 100644
--- a/command.go
+++ b/command.go
@@ -477,10 +477,7 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StdoutFile = con.JoinPath(dir, c.Stdout)
-		if forceAppend && !strings.HasPrefix(result.StdoutFile, ">>") {
-			result.StdoutFile = ">>" + result.StdoutFile
-		}
+		result.StdoutFile = outputFile(con, dir, c.Stdout, forceAppend)
 	}
 
 	switch c.Stderr {
@@ -503,15 +500,27 @@ func (c commandYAML) toTarget(con *Controller, shell, dir string, args, env []st
 		// do nothing
 
 	default:
-		result.StderrFile = con.JoinPath(dir, c.Stderr)
-		if forceAppend && !strings.HasPrefix(result.StderrFile, ">>") {
-			result.StderrFile = ">>" + result.StderrFile
-		}
+		result.StderrFile = outputFile(con, dir, c.Stderr, forceAppend)
 	}
 
 	return result
 }
 
+// outputFile joins the name of an output file to dir,
+// keeping the >> prefix in front if there is one
+// and adding it if forceAppend is true.
+func outputFile(con *Controller, dir, name string, forceAppend bool) string {
+	if strings.HasPrefix(name, ">>") {
+		name = strings.TrimLeft(name, "> ")
+		forceAppend = true
+	}
+	name = con.JoinPath(dir, name)
+	if forceAppend {
+		name = ">>" + name
+	}
+	return name
+}
+
 func deferredIndent(w io.Writer) func(context.Context, *Controller) io.Writer {
 	return func(_ context.Context, con *Controller) io.Writer {
 		return con.IndentingCopier(w, "    ")
-- 
2.43.0


From e560fc9f87335a261d1d68cec2f6e633048d63d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:37 +0000
Subject: [PATCH 10/21] fix: do not reorder the Files of a Clean target when
 running it

Sorting c.Files in place changed the definition of the target, and so the hash of any Files target containing it.
---
 clean.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/clean.go b/clean.go
index 1cc3cfb..6b70fc9 100644
--- a/clean.go
+++ b/clean.go
@@ -36,7 +36,7 @@ type Clean struct {
 
 // Run implements Target.Run.
 func (c *Clean) Run(ctx context.Context, con *Controller) error {
-	files := c.Files
+	files := append([]string(nil), c.Files...) // Copy the slice, which belongs to c, before sorting it.
 	if c.Autoclean {
 		autocleanMu.Lock()
 		autocleanFiles := autocleanRegistry.Slice()
-- 
2.43.0


From a2ef055a4cd5c4616754ad79d46e0c84c51be21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:39 +0000
Subject: [PATCH 11/21] fix: report an error closing a Command's stdout file

The deferred function assigned to a shadowed variable, so the error was lost.
---
 command.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/command.go b/command.go
index 41ce66e..6b70453 100644
--- a/command.go
+++ b/command.go
@@ -231,9 +231,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 
 	if stdoutFile != "" {
 		if stdoutAppend {
-			f, err := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for appending", stdoutFile)
+			f, openErr := os.OpenFile(stdoutFile, os.O_WRONLY|os.O_APPEND|os.O_CREATE, 0644)
+			if openErr != nil {
+				return errors.Wrapf(openErr, "opening %s for appending", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
@@ -243,9 +243,9 @@ func (c *Command) Run(ctx context.Context, con *Controller) (err error) {
 			}()
 			cmd.Stdout = f
 		} else {
-			f, err := os.Create(stdoutFile)
-			if err != nil {
-				return errors.Wrapf(err, "opening %s for writing", stdoutFile)
+			f, createErr := os.Create(stdoutFile)
+			if createErr != nil {
+				return errors.Wrapf(createErr, "opening %s for writing", stdoutFile)
 			}
 			defer func() {
 				closeErr := f.Close()
-- 
2.43.0


From 3671f581082c8e80e92a957456ca987a27470ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 12/21] fix: keep the driver's recorded hash and version in
 step with the driver

The hash was recorded before the version, and an old hash survived a failed compilation, so that an interruption could leave a driver that looks up to date but is not. Also, a forced compilation did not record the version.
---
 main.go | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/main.go b/main.go
index 6149965..afcec4d 100644
--- a/main.go
+++ b/main.go
@@ -275,28 +275,28 @@ func (m *Main) getDriver(ctx context.Context, skipVersionCheck bool) (_ string,
 		return driver, nil
 	}
 
+	// Remove the old hash before compiling and write the new one as the very last step.
+	// This way, an interruption along the way cannot pair a driver with the wrong hash or version.
+	if err = os.Remove(hashfile); err != nil && !errors.Is(err, fs.ErrNotExist) {
+		return "", errors.Wrapf(err, "removing %s", hashfile)
+	}
 	if err = CompilePackage(ctx, pkg, driver); err != nil {
 		return "", errors.Wrapf(err, "compiling driver %s", driver)
 	}
-	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
-		return "", errors.Wrapf(err, "writing %s", hashfile)
+	if buildInfo == nil {
+		buildInfo, _ = debug.ReadBuildInfo()
 	}
 	if buildInfo != nil {
-		v, err := os.OpenFile(versionfile, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
+		versioninfo, err := json.MarshalIndent(buildInfo, "", "  ")
 		if err != nil {
-			return "", errors.Wrapf(err, "opening %s for writing", versionfile)
-		}
-		defer func() {
-			closeErr := v.Close()
-			if err == nil {
-				err = errors.Wrapf(closeErr, "closing %s", versionfile)
-			}
-		}()
-		enc := json.NewEncoder(v)
-		enc.SetIndent("", "  ")
-		if err = enc.Encode(buildInfo); err != nil {
 			return "", errors.Wrap(err, "encoding build info")
 		}
+		if err = os.WriteFile(versionfile, versioninfo, 0644); err != nil {
+			return "", errors.Wrapf(err, "writing %s", versionfile)
+		}
+	}
+	if err = os.WriteFile(hashfile, []byte(newhash), 0644); err != nil {
+		return "", errors.Wrapf(err, "writing %s", hashfile)
 	}
 
 	return driver, nil
-- 
2.43.0


From 37b28dc81a1984cae4180138c180da57e00e7cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 13/21] fix: do not crash in golang.Deps on a package outside
 of any module

---
 golang/go.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/golang/go.go b/golang/go.go
index ea769e2..c03ed29 100644
--- a/golang/go.go
+++ b/golang/go.go
@@ -1,6 +1,7 @@
 package golang
 
 import (
+	"fmt"
 	"path/filepath"
 	"sort"
 
@@ -120,6 +121,9 @@ func Deps(dir string, recursive, tests bool) ([]string, error) {
 
 	files := set.New[string]()
 	for _, pkg := range pkgs {
+		if pkg.Module == nil {
+			return nil, fmt.Errorf("package %s in %s is not in a module", pkg.PkgPath, dir)
+		}
 		if err = gopkgAdd(pkg, pkg.Module.Path, files); err != nil {
 			return nil, errors.Wrapf(err, "adding files from %s", pkg.PkgPath)
 		}
-- 
2.43.0


From 8defcdb0580d9944e7777d3d43e68a711e988835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 14/21] fix: pass standard input to the driver

Without this, $stdin in a Command works only in driverless mode.
---
 main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main.go b/main.go
index afcec4d..584e9c0 100644
--- a/main.go
+++ b/main.go
@@ -100,7 +100,7 @@ func (m *Main) Run(ctx context.Context) error {
 
 	cmd := exec.CommandContext(ctx, driver, args...)
 	cmd.Dir = m.Topdir
-	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
+	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
 }
-- 
2.43.0


From 0a59f35ff0568a3b7fc83923823b27894499aac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:22 +0000
Subject: [PATCH 15/21] fix: recognize every form of protobuf import

An import may be indented, may be weak, and may use single quotes.
---
 proto/proto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 856d0cc..1ee0a2d 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -110,7 +110,7 @@ func Deps(filename string, includes []string) ([]string, error) {
 	return slice, err
 }
 
-var importRegex = regexp.MustCompile(`^import(\s+public)?\s*"([^"]+)"`)
+var importRegex = regexp.MustCompile(`^\s*import(?:\s+(?:public|weak))?\s*(?:"([^"]+)"|'([^']+)')`)
 
 func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
 	sc := bufio.NewScanner(r)
@@ -119,7 +119,7 @@ func protodeps(r io.Reader, includes []string, result set.Of[string]) error {
 		if len(m) == 0 {
 			continue
 		}
-		if err := protodepsImport(m[2], includes, result); err != nil {
+		if err := protodepsImport(m[1]+m[2], includes, result); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 1043e923b52f28ae778594d8c4b1c67594d383a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 16/21] fix: resolve the Includes of proto.Deps relative to the
 YAML file

This is how the Includes of proto.Proto are already resolved.
---
 proto/proto.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index 1ee0a2d..dc110d8 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -157,7 +157,8 @@ func protodepsDecoder(con *fab.Controller, node *yaml.Node, dir string) ([]strin
 	if err := node.Decode(&pd); err != nil {
 		return nil, errors.Wrap(err, "YAML error in proto.Deps node")
 	}
-	return Deps(con.JoinPath(dir, pd.File), pd.Includes)
+	includes := slices.Map(pd.Includes, func(inc string) string { return con.JoinPath(dir, inc) })
+	return Deps(con.JoinPath(dir, pd.File), includes)
 }
 
 func init() {
-- 
2.43.0


From a5b816d47d32e0df4a8219a5fb1f3dc0f174b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:27 +0000
Subject: [PATCH 17/21] fix: register a target variable that has no doc comment
 or has a local type

Such variables produced a driver that does not compile, as did an exported type or function that looks like a target.
---
 compile.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/compile.go b/compile.go
index fb540d1..504ff1c 100644
--- a/compile.go
+++ b/compile.go
@@ -7,6 +7,7 @@ import (
 	"go/doc"
 	"go/parser"
 	"go/token"
+	"go/types"
 	"io"
 	"os"
 	"os/exec"
@@ -123,14 +124,14 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		if !ast.IsExported(ident) {
 			continue
 		}
-		obj := scope.Lookup(ident)
-		if obj == nil {
+		obj, ok := scope.Lookup(ident).(*types.Var)
+		if !ok {
 			continue
 		}
 		if err := checkImplementsTarget(obj.Type()); err != nil {
 			continue
 		}
-		targets[ident] = &targetPair{Name: ident}
+		targets[ident] = &targetPair{Name: ident, Doc: `""`}
 	}
 
 	var (
@@ -138,7 +139,11 @@ func CompilePackage(ctx context.Context, pkg *packages.Package, binfile string)
 		parser = dpkg.Parser()
 		pr     = dpkg.Printer()
 	)
-	for _, v := range dpkg.Vars {
+	vars := dpkg.Vars
+	for _, typ := range dpkg.Types {
+		vars = append(vars, typ.Vars...) // go/doc groups variables under their type when it is in the same package.
+	}
+	for _, v := range vars {
 		for _, name := range v.Names {
 			if tp, ok := targets[name]; ok {
 				dstr := string(pr.Text(parser.Parse(v.Doc)))
-- 
2.43.0


From 9f05f95646ae3effa828a220071ec475acfb0b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:09 +0000
Subject: [PATCH 18/21] fix: allow YAML files in different directories to refer
 to each other

Such files were read over and over until the process ran out of file descriptors.
---
 controller.go |  4 ++++
 yaml.go       | 17 +++++++++++++++++
 2 files changed, 21 insertions(+)

diff --git a/controller.go b/controller.go
index 0d1c066..ef7b6f6 100644
--- a/controller.go
+++ b/controller.go
@@ -29,6 +29,9 @@ type Controller struct {
 	targetsByName map[string]targetRegistryTuple
 
 	targetsByAddr map[Target]targetRegistryTuple
+
+	// Records directories (relative to topdir) whose YAML files are being read.
+	reading map[string]bool
 }
 
 // NewController creates a new [Controller]
@@ -41,6 +44,7 @@ func NewController(topdir string) *Controller {
 		ran:           make(map[Target]*outcome),
 		targetsByName: make(map[string]targetRegistryTuple),
 		targetsByAddr: make(map[Target]targetRegistryTuple),
+		reading:       make(map[string]bool),
 	}
 }
 
diff --git a/yaml.go b/yaml.go
index 7a1e82a..0a3b607 100644
--- a/yaml.go
+++ b/yaml.go
@@ -72,6 +72,14 @@ func (con *Controller) YAMLTarget(node *yaml.Node, dir string) (Target, error) {
 				return found, nil
 			}
 
+			con.mu.Lock()
+			reading := con.reading[tdir]
+			con.mu.Unlock()
+			if reading {
+				// This is a circular reference between YAML files. Resolve it later.
+				return &deferredResolutionTarget{Name: qname}, nil
+			}
+
 			if err := con.ReadYAMLFile(tdir); err != nil {
 				return nil, errors.Wrapf(err, "resolving target %s", qname)
 			}
@@ -256,7 +264,16 @@ func (con *Controller) ReadYAMLFile(dir string) error {
 		rel = ""
 	}
 
+	con.mu.Lock()
+	con.reading[rel] = true
+	con.mu.Unlock()
+
 	err = con.ReadYAML(f, rel)
+
+	con.mu.Lock()
+	delete(con.reading, rel)
+	con.mu.Unlock()
+
 	return errors.Wrapf(err, "reading YAML file in %s", dir)
 }
 
-- 
2.43.0


From c5d41f8727b0411ada798e570e038e79c34f21ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 19/21] fix: hash names of files that are not valid UTF-8
 distinctly

---
 files.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/files.go b/files.go
index f05a2d2..49b4eb3 100644
--- a/files.go
+++ b/files.go
@@ -11,6 +11,7 @@ import (
 	"path/filepath"
 	"reflect"
 	"sort"
+	"unicode/utf8"
 
 	"github.com/bobg/errors"
 	"github.com/bobg/go-generics/v2/maps"
@@ -289,7 +290,8 @@ func Autoclean(autoclean bool) FilesOpt {
 }
 
 // Returns [filename, hash, filename, hash, ...],
-// with filenames sorted.
+// with filenames sorted
+// (and encoded if they are not valid UTF-8).
 // Input is a list of file or directory names.
 func fileHashes(items []string) ([]string, error) {
 	hashes := make(map[string]string)
@@ -303,7 +305,13 @@ func fileHashes(items []string) ([]string, error) {
 
 	result := make([]string, 0, 2*len(keys))
 	for _, key := range keys {
-		result = append(result, key, hashes[key])
+		name := key
+		if !utf8.ValidString(name) {
+			// JSON encoding does not distinguish invalid bytes.
+			// (No filename contains a NUL.)
+			name = "\x00" + hex.EncodeToString([]byte(name))
+		}
+		result = append(result, name, hashes[key])
 	}
 
 	return result, nil
-- 
2.43.0


From 0a48553de8150f651716af7ee087619b3f16d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:54 +0000
Subject: [PATCH 20/21] fix: an import found already is not searched for in
 later include directories

---
 proto/proto.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/proto.go b/proto/proto.go
index dc110d8..b2b5761 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -131,7 +131,7 @@ func protodepsImport(imp string, includes []string, result set.Of[string]) error
 		full := filepath.Join(inc, imp)
 
 		if result.Has(full) {
-			continue
+			return nil
 		}
 
 		f, err := os.Open(full)
-- 
2.43.0


From 0e2992882abb2adb85b6f36ecaf426a736340a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:21 +0000
Subject: [PATCH 21/21] fix: run the driver with absolute directories

The driver runs in the top directory, so relative names of the cache and top directories were not found there.
---
 main.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 584e9c0..9329c78 100644
--- a/main.go
+++ b/main.go
@@ -83,7 +83,21 @@ func (m *Main) Run(ctx context.Context) error {
 		return errors.Wrap(err, "ensuring driver is up to date")
 	}
 
-	args := []string{"-fab", m.Fabdir, "-top", m.Topdir}
+	// The driver runs in Topdir, where names relative to the current directory mean something else.
+	fabdir, err := filepath.Abs(m.Fabdir)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Fabdir)
+	}
+	topdir, err := filepath.Abs(m.Topdir)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", m.Topdir)
+	}
+	driver, err = filepath.Abs(driver)
+	if err != nil {
+		return errors.Wrapf(err, "making %s absolute", driver)
+	}
+
+	args := []string{"-fab", fabdir, "-top", topdir}
 	if m.Verbose {
 		args = append(args, "-v")
 	}
@@ -99,7 +113,7 @@ func (m *Main) Run(ctx context.Context) error {
 	args = append(args, m.Args...)
 
 	cmd := exec.CommandContext(ctx, driver, args...)
-	cmd.Dir = m.Topdir
+	cmd.Dir = topdir
 	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
 	err = cmd.Run()
 	return errors.Wrapf(err, "running %s %s", driver, strings.Join(args, " "))
-- 
2.43.0

