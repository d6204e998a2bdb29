package main

// Loading of /repo's current working tree: parse, type-check, build SSA.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/iand/starbow"

var repoDir = "/repo"
var verifDir = "/verif"

type Program struct {
	Fset     *token.FileSet
	Pkgs     map[string]*packages.Package
	SSA      map[string]*ssa.Package
	Prog     *ssa.Program
	Overlay  map[string][]byte
	LemmaErr map[string]string // package -> why its lemma overlay could not be used
	repoFns  map[*ssa.Function]bool
	conc     []types.Type
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOCACHE", "GOMODCACHE", "GOROOT", "HOME", "GOWORK":
			continue
		}
		env = append(env, e)
	}
	return append(env,
		"HOME=/root",
		"PATH=/opt/veriftools/go1.24.13/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod", "GOWORK=off",
		"GOCACHE=/root/.cache/go-build", "GOMODCACHE=/root/go/pkg/mod")
}

// bodies of these standard packages are kept: their functions are executed symbolically like repo code.
var keepStdBodies = map[string]bool{
	"math/bits": true,
}

func loadProgram(overlay map[string][]byte) (*Program, error) {
	p := &Program{Fset: token.NewFileSet(), Pkgs: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Overlay: overlay, LemmaErr: map[string]string{}}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     repoDir,
		Env:     append(goEnv(), "CGO_ENABLED=0"),
		Fset:    p.Fset,
		Overlay: overlay,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.ParseComments|parser.SkipObjectResolution)
			if f != nil && !strings.HasPrefix(filename, repoDir+"/") {
				keep := false
				d := filepath.Dir(filename)
				for k := range keepStdBodies {
					if strings.HasSuffix(d, "/src/"+k) {
						keep = true
					}
				}
				if !keep {
					for _, d := range f.Decls {
						if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
							// generic and named-result functions alike type-check without a body
							fd.Body = nil
						}
					}
				}
			}
			return f, err
		},
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if strings.HasPrefix(q.PkgPath, modPath) {
			p.Pkgs[q.PkgPath] = q
			for _, e := range q.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		sort.Strings(errs)
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	// Standard-library files are parsed without function bodies, which leaves unused imports behind; that is
	// harmless, so packages are created by hand instead of with ssautil (which skips ill-typed ones).
	prog := ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		if q.Types == nil {
			return
		}
		if strings.HasPrefix(q.PkgPath, modPath) || keepStdBodies[q.PkgPath] {
			prog.CreatePackage(q.Types, q.Syntax, q.TypesInfo, true)
		} else {
			prog.CreatePackage(q.Types, nil, nil, true)
		}
	})
	p.Prog = prog
	for path, q := range p.Pkgs {
		sp := prog.Package(q.Types)
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", path)
		}
		sp.Build()
		p.SSA[path] = sp
	}
	for _, sp := range prog.AllPackages() {
		if keepStdBodies[sp.Pkg.Path()] {
			sp.Build()
		}
	}
	return p, nil
}

// findFunc resolves "Name", "(T).M" or "(*T).M" in a package.
func (p *Program) findFunc(pkg, name string) *ssa.Function {
	sp := p.SSA[pkg]
	if sp == nil {
		return nil
	}
	if !strings.HasPrefix(name, "(") {
		return sp.Func(name)
	}
	i := strings.Index(name, ")")
	recv, m := name[1:i], name[i+2:]
	ptr := strings.HasPrefix(recv, "*")
	recv = strings.TrimPrefix(recv, "*")
	o := sp.Pkg.Scope().Lookup(recv)
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	var t types.Type = tn.Type()
	if ptr {
		t = types.NewPointer(t)
	}
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(sp.Pkg, m)
	if sel == nil {
		return nil
	}
	f := p.Prog.MethodValue(sel)
	if f != nil && f.Synthetic != "" && !ptr {
		return f
	}
	return f
}

func isRepoFn(f *ssa.Function) bool {
	pk := f.Pkg
	if pk == nil && f.Origin() != nil {
		pk = f.Origin().Pkg
	}
	if pk == nil && f.Parent() != nil {
		return isRepoFn(f.Parent())
	}
	return pk != nil && strings.HasPrefix(pk.Pkg.Path(), modPath)
}
