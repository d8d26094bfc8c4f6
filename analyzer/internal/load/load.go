// Package load parses and type-checks the analysed module and builds SSA for it.
package load

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"

	"rsrcheck/internal/absint"
)

const Module = "github.com/yangl1996/rateless-set-reconcile"

type Prog struct {
	Dir   string
	Fset  *token.FileSet
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // by path relative to the module
	PP    map[string]*packages.Package
	Files int
	Errs  []string
	// names taken for the ones the rules use
	Renamed []string
}

// Load loads the given module-relative package patterns ("riblt", "newsim", ...).
func Load(dir string, rel ...string) (*Prog, error) {
	dir, _ = filepath.Abs(dir)
	p := &Prog{Dir: dir, Pkgs: map[string]*ssa.Package{}, PP: map[string]*packages.Package{}}
	cfg := config(dir)
	pkgs, err := packages.Load(cfg, patterns(rel)...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	if ren := renames(pkgs); len(ren) > 0 {
		cfg2 := config(dir)
		cfg2.Overlay = rewritten(pkgs, ren)
		again, err := packages.Load(cfg2, patterns(rel)...)
		if err == nil && len(cfg2.Overlay) > 0 && len(modulePkgs(again)) == len(modulePkgs(pkgs)) {
			pkgs = again
			for o, n := range ren {
				p.Renamed = append(p.Renamed, o.Name()+" as "+n)
			}
			sort.Strings(p.Renamed)
		}
	}
	p.Fset = pkgs[0].Fset
	prog := ssa.NewProgram(p.Fset, 0)
	p.SSA = prog
	absint.MainModule = func(tp *types.Package) bool { return tp.Path() == Module || strings.HasPrefix(tp.Path(), Module+"/") }
	var mine []*ssa.Package
	packages.Visit(pkgs, nil, func(pp *packages.Package) {
		if pp.Types == nil {
			return
		}
		if pp.Module != nil && pp.Module.Main {
			if len(pp.Errors) > 0 {
				for _, e := range pp.Errors {
					p.Errs = append(p.Errs, e.Error())
				}
				return
			}
			sp := prog.CreatePackage(pp.Types, pp.Syntax, pp.TypesInfo, false)
			mine = append(mine, sp)
			r := strings.TrimPrefix(strings.TrimPrefix(pp.PkgPath, Module), "/")
			p.Pkgs[r] = sp
			p.PP[r] = pp
			p.Files += len(pp.CompiledGoFiles)
		} else {
			prog.CreatePackage(pp.Types, nil, nil, true)
		}
	})
	for _, sp := range mine {
		sp.Build()
	}
	for _, r := range rel {
		if strings.Contains(r, "...") {
			continue
		}
		if p.Pkgs[r] == nil {
			return p, fmt.Errorf("package %s did not load: %v", r, p.Errs)
		}
	}
	return p, nil
}

func patterns(rel []string) []string {
	var pats []string
	for _, r := range rel {
		pats = append(pats, "./"+r)
	}
	return pats
}

func config(dir string) *packages.Config {
	dir, _ = filepath.Abs(dir)
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GO111MODULE=") || strings.HasPrefix(e, "GOWORK=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	return &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:  dir, Env: env,
		ParseFile: func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
			if err == nil && !strings.HasPrefix(fn, dir+"/") {
				for _, d := range f.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						fd.Body = nil
					}
				}
			}
			return f, err
		},
	}
}

// Funcs lists all functions with bodies declared in a package (methods and
// closures included), sorted by position.
func (p *Prog) Funcs(rel string) []*ssa.Function {
	pp := p.PP[rel]
	if pp == nil {
		return nil
	}
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, obj := range pp.TypesInfo.Defs {
		if fo, ok := obj.(*types.Func); ok && fo != nil {
			add(p.SSA.FuncValue(fo))
		}
	}
	if in := p.Pkgs[rel].Func("init"); in != nil {
		add(in)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// Method finds a method (or function, when recv is "") of a package.
func (p *Prog) Method(rel, recv, name string) *ssa.Function {
	for _, f := range p.Funcs(rel) {
		if f.Name() != name {
			continue
		}
		r := f.Signature.Recv()
		if recv == "" {
			if r == nil && f.Parent() == nil {
				return f
			}
			continue
		}
		if r == nil {
			continue
		}
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Name() == recv {
			return f
		}
	}
	return nil
}
