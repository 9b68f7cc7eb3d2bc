package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog        *ssa.Program
	fset        *token.FileSet
	mu          sync.Mutex
	sizes       types.Sizes
	runtimeErrT types.Type
	errStringT  types.Type
	snapT       types.Type
	vrfAbstract bool
	pkgs        map[string]*ssa.Package
	files       map[string]bool // repository source files in the program
}

type RunConfig struct {
	SolverMs     int
	MaxDecisions int
	MaxSteps     int
	Verbose      bool
	Debug        bool
	NoMerge      bool
	Tier         string
}

type ReplayInput struct {
	Name string
	Kind string
	N    int
	Vals []string
}

type ReplayApp struct {
	Name string
	Arg  string
	Out  string
}

var groupNatives = map[string]nativeFn{}

const goRoot123 = "/opt/veriftools/go1.23.12"

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		switch k := strings.SplitN(e, "=", 2)[0]; k {
		case "PATH", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK", "GO111MODULE", "GOROOT", "HOME", "GOMODCACHE", "GOPATH", "GOCACHE", "CGO_ENABLED":
		default:
			env = append(env, e)
		}
	}
	return append(env, "HOME=/root", "PATH="+goRoot123+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOCACHE=/root/.cache/go-build",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GO111MODULE=on", "CGO_ENABLED=0")
}

func ensureMod(repo string) error {
	for _, f := range []string{"go.mod", "go.sum"} {
		p := filepath.Join(repo, f)
		if _, err := os.Stat(p); err == nil {
			continue
		}
		b, err := os.ReadFile("/opt/vp/mod/" + f)
		if err != nil {
			return err
		}
		if err := os.WriteFile(p, b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func loadProgram(repo string, o *Overlay, patterns []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: o.files,
		Fset:    token.NewFileSet(),
	}
	pats := append(append([]string(nil), patterns...), symPkg)
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 12 {
			errs = errs[:12]
		}
		return nil, fmt.Errorf("load:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, files: map[string]bool{}}
	p.sizes = types.SizesFor("gc", "amd64")
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.runtimeErrT = types.Typ[types.String]
	if r, ok := p.pkgs["runtime"]; ok {
		if t := r.Type("errorString"); t != nil {
			p.runtimeErrT = t.Type()
		}
	}
	if e, ok := p.pkgs["errors"]; ok {
		p.errStringT = types.NewPointer(e.Type("errorString").Type())
	}
	if s, ok := p.pkgs[symPkg]; ok {
		p.snapT = types.NewPointer(s.Type("Mark").Type())
	}
	if p.errStringT == nil || p.snapT == nil {
		return nil, fmt.Errorf("base packages missing")
	}
	return p, nil
}

func (p *Program) inRepo(path string) bool {
	return strings.HasPrefix(path, modPath) && !strings.HasPrefix(path, symPkg) && !strings.HasPrefix(path, modPath+"/internal/verifh")
}

func (p *Program) strictInit(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return true
	}
	return false
}

func (p *Program) lookup(t types.Type, method string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == method {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

func (p *Program) namedType(pkg, name string) types.Type {
	if sp, ok := p.pkgs[pkg]; ok {
		if t := sp.Type(name); t != nil {
			return t.Type()
		}
	}
	panic(engErr("type %s.%s not in the program", pkg, name))
}

func (p *Program) function(pkg, name string) *ssa.Function {
	sp, ok := p.pkgs[pkg]
	if !ok {
		return nil
	}
	return sp.Func(name)
}
