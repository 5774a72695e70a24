package main

import (
	"fmt"
	"os"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/MatProGo-dev/SymbolicMath.go"

// Program is the SSA form of the current source of the repository.
type Program struct {
	Prog  *ssa.Program
	Pkgs  map[string]*ssa.Package // by short name: symbolic, smErrors, ...
	Sym   *ssa.Package
	mu    sync.Mutex
	loops map[*ssa.Function]*loopInfo

	written map[*ssa.Global]bool
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes |
			packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedTypesSizes,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load %s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	out := &Program{Prog: prog, Pkgs: map[string]*ssa.Package{}, loops: map[*ssa.Function]*loopInfo{}}
	for i, p := range spkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		out.Pkgs[pkgs[i].PkgPath] = p
	}
	out.Sym = out.Pkgs[modPath+"/symbolic"]
	if out.Sym == nil {
		return nil, fmt.Errorf("package symbolic not found")
	}
	return out, nil
}
