package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// World is the loaded program.
type World struct {
	Fset  *token.FileSet
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by import path
	Repo  string
	Funcs map[string]*ssa.Function // by contract name, e.g. "fab.(*Controller).Run"
	Body  map[string]bool          // packages whose bodies were loaded

	gmu           sync.Mutex
	globals       map[*ssa.Global]int64
	globalOf      map[int64]*ssa.Global
	globalWritten map[*ssa.Global]bool
	globalError   map[*ssa.Global]bool // initialized with a new error
	loopCache     map[*ssa.Function]map[*ssa.BasicBlock]*loop
	idxOnce       sync.Once
	pkgIdx        map[string][]*types.Package
	sigCache      sync.Map
}

// Packages outside the repository whose real bodies are loaded, so that calls to them can be executed
// rather than assumed.
var bodyPrefixes = []string{"github.com/bobg/go-generics/v2", "github.com/bobg/fab", "golang.org/x/exp/maps", "golang.org/x/exp/slices"}

func wantBody(path string) bool {
	for _, p := range bodyPrefixes {
		if path == p || strings.HasPrefix(path, p+"/") {
			return true
		}
	}
	return false
}

func load(repo string) (*World, error) {
	findInstContracts(*flagSpecs)
	fset := token.NewFileSet()
	gomod := filepath.Join(os.Getenv("GOPATH"), "pkg/mod/github.com/bobg/go-generics/")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  repo,
		Fset: fset,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			body := strings.HasPrefix(filename, repo+"/") || strings.HasPrefix(filename, gomod) || strings.Contains(filename, "/golang.org/x/exp@") && (strings.Contains(filename, "/maps/") || strings.Contains(filename, "/slices/"))
			mode := parser.SkipObjectResolution
			f, err := parser.ParseFile(fset, filename, src, mode)
			if err != nil {
				return f, err
			}
			if !body {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name != "_" {
						fd.Body = nil
					}
				}
			}
			return f, nil
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !wantBody(p.PkgPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog := ssa.NewProgram(fset, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w := &World{Fset: fset, Prog: prog, Pkgs: map[string]*ssa.Package{}, Repo: repo, Funcs: map[string]*ssa.Function{}, Body: map[string]bool{}}
	var all []*packages.Package
	packages.Visit(pkgs, nil, func(p *packages.Package) { all = append(all, p) })
	for _, p := range all {
		if p.Types == nil {
			continue
		}
		if wantBody(p.PkgPath) {
			w.Pkgs[p.PkgPath] = prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
			w.Body[p.PkgPath] = true
		} else {
			w.Pkgs[p.PkgPath] = prog.CreatePackage(p.Types, nil, nil, true)
		}
	}
	prog.Build()
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.TypeArgs()) > 0 {
			if n := funcName(fn); instContracts[n] {
				w.Funcs[n] = fn
			}
			continue
		}
		if fn.Pkg == nil || !w.Body[fn.Pkg.Pkg.Path()] {
			continue
		}
		w.Funcs[funcName(fn)] = fn
	}
	w.globals = map[*ssa.Global]int64{}
	w.globalOf = map[int64]*ssa.Global{}
	w.loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*loop{}
	w.globalWritten = map[*ssa.Global]bool{}
	w.globalError = map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Name() == "init" && fn.Synthetic != "" {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					st, ok := in.(*ssa.Store)
					if !ok {
						continue
					}
					g, ok := st.Addr.(*ssa.Global)
					c, ok2 := st.Val.(*ssa.Call)
					if ok && ok2 && c.Call.StaticCallee() != nil {
						switch c.Call.StaticCallee().String() {
						case "errors.New", "github.com/bobg/errors.New", "fmt.Errorf":
							w.globalError[g] = true
						}
					}
				}
			}
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// A part of it may be written.
						w.globalWritten[g] = true
					case *ssa.Store:
						_ = in
						w.globalWritten[g] = true
					default:
						w.globalWritten[g] = true
					}
				}
			}
		}
	}
	return w, nil
}

// funcName gives the name by which contracts refer to a function:
// "fab.Files", "fab.(*Controller).Run", "fab.(*Controller).Run$1", "sqlite.(*DB).Has".
func funcName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		p := funcName(fn.Parent())
		n := fn.Name()
		if i := strings.Index(n, "["); i > 0 {
			// The instance of a generic function.
			n = n[:i] + n[strings.LastIndex(n, "]")+1:]
		}
		if i := strings.LastIndex(n, "$"); i >= 0 {
			return p + n[i:]
		}
		return p + "." + n
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		pkg = o.Pkg.Pkg.Name()
	}
	if recv := fn.Signature.Recv(); recv != nil {
		return instName(fn, pkg+"."+recvName(recv.Type())+"."+fn.Name())
	}
	n := fn.Name()
	if i := strings.Index(n, "["); i > 0 {
		n = n[:i]
	}
	return instName(fn, pkg+"."+n)
}

// Instances of generic functions that have contracts of their own, under names such as "set.New[string]".
var instContracts = map[string]bool{}

func instName(fn *ssa.Function, name string) string {
	if len(fn.TypeArgs()) == 0 {
		return name
	}
	var args []string
	for _, t := range fn.TypeArgs() {
		args = append(args, types.TypeString(t, func(p *types.Package) string { return p.Name() }))
	}
	if n := name + "[" + strings.Join(args, ",") + "]"; instContracts[n] {
		return n
	}
	return name
}

var instRegexp = regexp.MustCompile(`(?m)^func (\S+\[\S+\])$`)

// findInstContracts finds the instances that the specifications in a directory name.
func findInstContracts(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.gospec"))
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, m := range instRegexp.FindAllSubmatch(b, -1) {
			instContracts[string(m[1])] = true
		}
	}
}

func recvName(t types.Type) string {
	ptr := ""
	if p, ok := t.(*types.Pointer); ok {
		ptr = "*"
		t = p.Elem()
	}
	name := t.String()
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	if ptr != "" {
		return "(*" + name + ")"
	}
	return "(" + name + ")"
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
