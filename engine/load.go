package main

// Loading /repo's current source (plus harness overlay) into SSA form.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// repoDir is the tree to check. Only the development of the checks sets
// GOSYM_REPO, to try planted bugs on a copy.
var repoDir = func() string {
	if d := os.Getenv("GOSYM_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

const modPath = "github.com/anivanovic/gotit"

type hookDecl struct {
	target string // ssa function string
	local  string // function in the harness package
	pkg    string // harness package path
	fn     *ssa.Function
	tgt    *ssa.Function
}

type Loaded struct {
	prog        *ssa.Program
	module      string
	sizes       types.Sizes
	runtimeErrT types.Type
	pkgs        map[string]*ssa.Package
	hooks       map[string]*hookDecl
	harnesses   []*Harness
	overlay     map[string]string // repo path -> real path
	harnessPkgs []string
	byPath      map[string]*packages.Package
	fset        *token.FileSet
	mu          sync.Mutex
	hookCache   sync.Map
}

var hookRe = regexp.MustCompile(`(?m)^//verif:hook\s+(.+?)\s+([A-Za-z_][A-Za-z0-9_]*)\s*$`)

// A harness names with //verif:real a package whose code is to be executed
// although it is a no-op for the other properties.
var realRe = regexp.MustCompile(`(?m)^//verif:real\s+(\S+)\s*$`)

// overlayFor collects the harness files of one property.
func overlayFor(verifDir, prop string) (map[string]string, []string, error) {
	ov := map[string]string{}
	pk := map[string]bool{}
	low := strings.ToLower(prop)
	root := filepath.Join(verifDir, "harness")
	// library packages
	libs, _ := filepath.Glob(filepath.Join(root, "lib", "*", "*.go"))
	for _, f := range libs {
		d := filepath.Base(filepath.Dir(f))
		ov[filepath.Join(repoDir, "internal", "verif", d, filepath.Base(f))] = f
	}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		if strings.HasPrefix(rel, "lib/") {
			return nil
		}
		b := filepath.Base(p)
		if strings.HasPrefix(b, low+"_") || b == low+".go" {
			dir := filepath.Dir(rel)
			if dir == "root" {
				dir = "."
			}
			ov[filepath.Join(repoDir, dir, "zz_verif_"+b)] = p
			pk[dir] = true
			// helpers next to it that it asks for
			src, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			for _, m := range regexp.MustCompile(`(?m)^//verif:use\s+(\S+)`).FindAllStringSubmatch(string(src), -1) {
				hp := filepath.Join(filepath.Dir(p), m[1])
				ov[filepath.Join(repoDir, dir, "zz_verif_"+m[1])] = hp
			}
		}
		return nil
	})
	var dirs []string
	for d := range pk {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	return ov, dirs, err
}

func Load(verifDir, prop string) (*Loaded, error) {
	ov, dirs, err := overlayFor(verifDir, prop)
	if err != nil {
		return nil, err
	}
	for _, src := range ov {
		b, _ := os.ReadFile(src)
		for _, m := range realRe.FindAllStringSubmatch(string(b), -1) {
			delete(noopPkgs, m[1])
		}
	}
	ld, bad, err := load1(prop, ov, dirs)
	if err == nil || len(bad) == 0 {
		return ld, err
	}
	// harness files marked optional use names that a refactoring may change:
	// leave out those that no longer compile
	drop := false
	for dst, src := range ov {
		b, _ := os.ReadFile(src)
		if strings.Contains(string(b), "//verif:optional") && bad[dst] {
			fmt.Printf("WARNING: %s left out: does not compile against the current tree\n", filepath.Base(src))
			delete(ov, dst)
			drop = true
		}
	}
	if !drop {
		return nil, err
	}
	ld, _, err = load1(prop, ov, dirs)
	return ld, err
}

func load1(prop string, ov map[string]string, dirs []string) (*Loaded, map[string]bool, error) {
	var err error
	bad := map[string]bool{}
	if len(dirs) == 0 {
		return nil, bad, fmt.Errorf("no harness files for %s", prop)
	}
	ovb := map[string][]byte{}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, bad, err
		}
		ovb[k] = b
	}
	var pats []string
	for _, d := range dirs {
		pats = append(pats, "./"+d)
	}
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Overlay: ovb,
		Fset:    fset,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod -tags=netgo,osusergo", "GOPROXY=off", "GOWORK=off"),
	}
	cfg.Env = append(cfg.Env, "GOFLAGS=-mod=readonly")
	pats = append(pats, "runtime", "unicode/utf8", "errors", "fmt", "strconv", "sort")
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, bad, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
				bad[strings.SplitN(e.Pos, ":", 2)[0]] = true
			}
		}
	})
	if len(errs) > 0 {
		return nil, bad, fmt.Errorf("harness or repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	ld := &Loaded{prog: prog, module: modPath, pkgs: map[string]*ssa.Package{}, hooks: map[string]*hookDecl{},
		overlay: ov, byPath: map[string]*packages.Package{}, fset: fset}
	ld.sizes = types.SizesFor("gc", "amd64")
	prog.Build()
	for _, p := range prog.AllPackages() {
		ld.pkgs[p.Pkg.Path()] = p
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) { ld.byPath[p.PkgPath] = p })
	rt := ld.pkgs["runtime"]
	ld.runtimeErrT = rt.Type("errorString").Type()
	for _, p := range pkgs {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			continue
		}
		sp := ld.pkgs[p.PkgPath]
		ld.harnessPkgs = append(ld.harnessPkgs, p.PkgPath)
		var names []string
		for n, m := range sp.Members {
			if _, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "Verif"+prop+"_") {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			ld.harnesses = append(ld.harnesses, &Harness{Name: n, Fn: sp.Func(n)})
		}
	}
	// hooks: directives in any overlaid file
	for dst, src := range ov {
		b, _ := os.ReadFile(src)
		ms := hookRe.FindAllStringSubmatch(string(b), -1)
		if len(ms) == 0 {
			continue
		}
		rel, _ := filepath.Rel(repoDir, filepath.Dir(dst))
		pp := modPath
		if rel != "." {
			pp += "/" + rel
		}
		sp := ld.pkgs[pp]
		if sp == nil {
			continue // library package not imported by this property
		}
		for _, m := range ms {
			fn := sp.Func(m[2])
			if fn == nil {
				return nil, bad, fmt.Errorf("hook %s: no function %s in %s", m[1], m[2], pp)
			}
			ld.hooks[m[1]] = &hookDecl{target: m[1], local: m[2], pkg: pp, fn: fn}
		}
	}
	return ld, bad, nil
}

func (ld *Loaded) build(p *ssa.Package) {}

func (ld *Loaded) buildFn(fn *ssa.Function) {}

func (ld *Loaded) fn(pkg, name string) *ssa.Function {
	p := ld.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("no function " + pkg + "." + name))
	}
	return f
}

func (ld *Loaded) typ(pkg, name string) types.Type {
	p := ld.pkgs[pkg]
	if p == nil {
		panic(unsupported("package " + pkg + " not loaded"))
	}
	t := p.Type(name)
	if t == nil {
		panic(unsupported("no type " + pkg + "." + name))
	}
	return t.Type()
}

func (ld *Loaded) hookFor(fn *ssa.Function) *ssa.Function {
	if len(ld.hooks) == 0 {
		return nil
	}
	if x, ok := ld.hookCache.Load(fn); ok {
		f, _ := x.(*ssa.Function)
		return f
	}
	var r *ssa.Function
	if h, ok := ld.hooks[fn.String()]; ok {
		r = h.fn
	}
	ld.hookCache.Store(fn, r)
	return r
}

// funcDecl finds the declaration of a hook target for source injection.
func (ld *Loaded) funcDecl(target string) (*packages.Package, *ast.File, *ast.FuncDecl) {
	for _, p := range ld.byPath {
		if !strings.Contains(target, p.PkgPath+".") {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				o, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if o == nil {
					continue
				}
				if sf := ld.prog.FuncValue(o); sf != nil && sf.String() == target {
					return p, f, fd
				}
			}
		}
	}
	return nil, nil, nil
}
