package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "code.cloudfoundry.org/log-cache"

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// bodyDirs are the directories whose function bodies are verified (everything else is used through its types only).
func hasBodies(file string) bool {
	for _, p := range []string{repoDir + "/", verifDir + "/spec/", verifDir + "/stubs/gods/", verifDir + "/stubs/go-loggregator/rpc/", verifDir + "/stubs/go-batching/"} {
		if strings.HasPrefix(file, p) {
			return true
		}
	}
	file = modVersion.ReplaceAllString(file, "")
	for _, p := range libraryBodies {
		if strings.Contains(file, p) {
			return true
		}
	}
	return false
}

var modVersion = regexp.MustCompile(`@[^/]+`)

// libraryBodies are dependencies verified code may call whose source is executed instead of assumed.
var libraryBodies = []string{
	"/blang/semver",
	"/google.golang.org/grpc/status/",
	"/google.golang.org/grpc/codes/codes.go",
	"/google.golang.org/grpc/rpc_util.go",
	"/grpc-gateway/runtime/errors.go",
	"/grpc-gateway/runtime/convert.go",
	"/grpc-gateway/runtime/pattern.go",
	"/grpc-gateway/utilities/",
}

func (x *Engine) opaquePkg(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false // synthetic wrappers
	}
	return !x.built[f.Pkg.Pkg.Path()]
}

func (x *Engine) buildOnDemand(fn *ssa.Function) {}

type Contract struct {
	Prop string
	Name string
	Pkg  string // import path
	Fn   *ssa.Function
	File string
}

// overlayFor maps contract files of a property into the repository's packages.
func overlayFor(prop string) (map[string]string, []string, error) {
	ov := map[string]string{}
	pk := map[string]bool{}
	root := filepath.Join(verifDir, "contracts", prop)
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		ov[filepath.Join(repoDir, rel, filepath.Base(p))] = p
		pk[rel] = true
		return nil
	})
	if err != nil {
		return nil, nil, err
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
		cm, _ := filepath.Glob(filepath.Join(verifDir, "contracts", "common", p, "*.go"))
		for _, f := range cm {
			ov[filepath.Join(repoDir, p, filepath.Base(f))] = f
		}
	}
	sort.Strings(pkgs)
	return ov, pkgs, nil
}

func copyMod(dir string) (string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(verifDir, "mod", f))
		if err != nil {
			return "", err
		}
		if verifDir != "/verif" {
			b = []byte(strings.ReplaceAll(string(b), "/verif/", verifDir+"/"))
		}
		if err := os.WriteFile(filepath.Join(dir, "verif"+filepath.Ext(f)), b, 0644); err != nil {
			return "", err
		}
	}
	return filepath.Join(dir, "verif.mod"), nil
}

func (x *Engine) loadProgram(prop, tmp string) ([]*Contract, error) {
	ov, rel, err := overlayFor(prop)
	if err != nil {
		return nil, err
	}
	if len(ov) == 0 {
		return nil, fmt.Errorf("no contracts for %s", prop)
	}
	mod, err := copyMod(tmp)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for d, s := range ov {
		b, err := os.ReadFile(s)
		if err != nil {
			return nil, err
		}
		overlay[d] = b
	}
	x.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        repoDir,
		BuildFlags: []string{"-modfile=" + mod, "-mod=mod"},
		Env:        os.Environ(),
		Fset:       x.fset,
		Overlay:    overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			mode := parser.SkipObjectResolution
			if strings.Contains(filename, "/spec/model/") {
				mode |= parser.ParseComments
			}
			f, err := parser.ParseFile(fset, filename, src, mode)
			if f != nil && !hasBodies(filename) {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok && fd.Type.TypeParams == nil {
						if fd.Recv != nil && genericRecv(fd) {
							continue
						}
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
	var pats []string
	for _, r := range rel {
		pats = append(pats, "./"+r)
	}
	pats = append(pats, specPath+"/model")
	roots, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(roots, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) || strings.HasPrefix(p.PkgPath, specPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the contracts or the code do not type-check:\n%s", strings.Join(errs, "\n"))
	}
	x.prog = ssa.NewProgram(x.fset, ssa.InstantiateGenerics)
	x.pkgs = map[string]*ssa.Package{}
	x.built = map[string]bool{}
	var build []*ssa.Package
	packages.Visit(roots, nil, func(p *packages.Package) {
		if p.Types == nil || x.pkgs[p.PkgPath] != nil {
			return
		}
		sp := x.prog.CreatePackage(p.Types, p.Syntax, p.TypesInfo, true)
		x.pkgs[p.PkgPath] = sp
		bodies := false
		for _, f := range p.GoFiles {
			bodies = bodies || hasBodies(f)
		}
		if bodies {
			x.built[p.PkgPath] = true
			build = append(build, sp)
		}
	})
	for _, sp := range build {
		sp.Build()
	}
	x.models = map[string]*ssa.Function{}
	packages.Visit(roots, nil, func(p *packages.Package) {
		if p.PkgPath != specPath+"/model" {
			return
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t := strings.TrimPrefix(strings.Replace(c.Text, "// ", "//", 1), "//model "); t != strings.Replace(c.Text, "// ", "//", 1) {
						x.models[strings.TrimSpace(t)] = x.pkgs[p.PkgPath].Func(fd.Name.Name)
					}
				}
			}
		}
	})
	x.registerJSONTypes()
	if ep := x.pkgs["errors"]; ep != nil {
		if o := ep.Pkg.Scope().Lookup("errorString"); o != nil {
			errStrT = types.NewPointer(o.Type())
		}
	}
	if errStrT == nil {
		errStrT = types.NewPointer(types.NewNamed(types.NewTypeName(0, types.NewPackage("errors", "errors"), "errorString", nil), types.NewStruct(nil, nil), nil))
	}
	var out []*Contract
	for d := range ov {
		pkg := modPath + "/" + strings.TrimPrefix(filepath.Dir(d), repoDir+"/")
		sp := x.pkgs[pkg]
		if sp == nil {
			return nil, fmt.Errorf("package %s not loaded", pkg)
		}
		for n, m := range sp.Members {
			fn, ok := m.(*ssa.Function)
			if !ok || !strings.HasPrefix(n, "Contract") || x.fset.Position(fn.Pos()).Filename != d {
				continue
			}
			out = append(out, &Contract{Prop: prop, Name: n, Pkg: pkg, Fn: fn, File: d})
		}
	}
	sort.Slice(out, func(i, j int) bool {
		// positions depend on the order in which files happen to be parsed, and the workers must agree
		a, b := x.fset.Position(out[i].Fn.Pos()), x.fset.Position(out[j].Fn.Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return out, nil
}

func genericRecv(fd *ast.FuncDecl) bool {
	t := fd.Recv.List[0].Type
	if s, ok := t.(*ast.StarExpr); ok {
		t = s.X
	}
	switch t.(type) {
	case *ast.IndexExpr, *ast.IndexListExpr:
		return true
	}
	return false
}

// runInit evaluates package variable initialisers (best effort: what cannot be evaluated stays arbitrary).
func (x *Engine) runInit(st *State, sp *ssa.Package) {
	fn := sp.Func("init")
	if fn == nil || len(fn.Blocks) < 2 {
		return
	}
	ps := &pstate{st: st, env: map[ssa.Value]Val{}}
	x.dry++
	x.stack = append(x.stack, fn)
	defer func() { x.dry--; x.stack = x.stack[:len(x.stack)-1] }()
	skip := map[ssa.Value]bool{} // long byte tables (file descriptors)
	for _, b := range fn.Blocks[1:] {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Alloc:
				if a, ok := deref(in.Type()).Underlying().(*types.Array); ok && a.Len() >= 64 {
					skip[in] = true
				}
			case *ssa.IndexAddr:
				if skip[in.X] {
					skip[in] = true
				}
			case *ssa.Slice:
				if skip[in.X] {
					skip[in] = true
				}
			case *ssa.Store:
				if skip[in.Addr] || skip[in.Val] {
					continue
				}
			}
			if v, ok := in.(ssa.Value); ok && skip[v] {
				continue
			}
			x.tryInit(ps, in, sp)
		}
	}
	*st = *ps.st
}

func (x *Engine) tryInit(ps *pstate, in ssa.Instruction, sp *ssa.Package) {
	v, isV := in.(ssa.Value)
	saved := ps.st.clone()
	depth, stack, spec := x.depth, len(x.stack), x.spec
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
			if os.Getenv("VERIF_DEBUG") == "init" {
				fmt.Println("init of", sp.Pkg.Path(), in, r)
			}
			x.depth, x.stack, x.spec = depth, x.stack[:stack], spec
			ps.st = saved
			if isV {
				func() {
					defer func() {
						if r := recover(); r != nil {
							delete(ps.env, v)
						}
					}()
					if tup, ok := v.Type().(*types.Tuple); ok {
						var t Tuple
						for i := 0; i < tup.Len(); i++ {
							t = append(t, x.fresh("init", tup.At(i).Type(), ps.st))
						}
						ps.env[v] = t
						return
					}
					ps.env[v] = x.fresh("init", v.Type(), ps.st)
				}()
			} else if s, ok := in.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					_ = g
				}
			}
		}
	}()
	switch in := in.(type) {
	case *ssa.Jump, *ssa.If, *ssa.Return:
		return
	case *ssa.Call:
		if f, ok := in.Call.Value.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != sp {
			return
		}
		res := x.call(ps, &in.Call, in.Pos(), in)
		if len(res) != 1 {
			x.fail("init call")
		}
		ps.st = res[0].st
		ps.env[in] = res[0].res
	default:
		x.instr(ps, in)
	}
}

// initGlobals zeroes the globals of a package and runs its initialisers.
func (x *Engine) initGlobals(st *State, sp *ssa.Package) {
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if g, ok := sp.Members[n].(*ssa.Global); ok {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				t := deref(g.Type())
				x.store(st, x.globalRef(g), t, x.zero(t))
			}()
		}
	}
	x.runInit(st, sp)
}
