package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var detCase = &Case{Name: "deterministic", Domain: map[string][]string{}, Given: &Sx{A: "true"}, Det: true}

// nondet gives a reason why the result of fn may depend on more than its arguments, "" if there is
// none: it scans everything fn can call for iterations over maps, for global variables that are
// ever assigned outside of initialisation, for concurrency and for unknown external functions.
func (p *Program) nondet(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	local := fn.Pkg == nil || strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	if fn.Blocks == nil || !local {
		pk := ""
		if fn.Pkg != nil {
			pk = fn.Pkg.Pkg.Path()
		}
		switch pk {
		case "gonum.org/v1/gonum/mat", "fmt", "errors", "strings", "strconv", "math", "sort", "slices":
			return ""
		}
		return "calls " + fn.String()
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Range:
				if _, ok := x.X.Type().Underlying().(*types.Map); ok {
					return "ranges over a map in " + fn.String()
				}
			case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.Defer:
				return "concurrency or defer in " + fn.String()
			}
			var ops [16]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				switch g := (*o).(type) {
				case *ssa.Global:
					if p.globalAssigned(g) {
						return "uses the variable " + g.String() + " in " + fn.String()
					}
				case *ssa.Function:
					if why := p.nondet(g, seen); why != "" {
						return why
					}
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				it, _ := c.Common().Value.Type().Underlying().(*types.Interface)
				for _, ti := range implementers(it) {
					if f := p.methodOf(ti.Type, m.Name()); f != nil {
						if why := p.nondet(f, seen); why != "" {
							return why
						}
					}
				}
			}
		}
	}
	return ""
}

// globalAssigned: the variable is written somewhere other than in initialisation.
func (p *Program) globalAssigned(g *ssa.Global) bool {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), modPath) {
		return true
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.written == nil {
		p.written = map[*ssa.Global]bool{}
		for _, pkg := range p.Pkgs {
			for fn := range p.funcsOf(pkg) {
				if fn.Name() == "init" && fn.Synthetic != "" {
					continue
				}
				for _, b := range fn.Blocks {
					for _, in := range b.Instrs {
						if u, ok := in.(*ssa.UnOp); ok {
							if gl, ok := u.X.(*ssa.Global); ok {
								if _, ref := gl.Type().(*types.Pointer).Elem().Underlying().(*types.Basic); ref {
									continue // a plain read
								}
							}
						}
						var ops [16]*ssa.Value
						for _, o := range in.Operands(ops[:0]) {
							if gl, ok := (*o).(*ssa.Global); ok {
								p.written[gl] = true
							}
						}
					}
				}
			}
		}
	}
	return p.written[g]
}

// funcsOf lists the functions and methods of a package, with their anonymous functions.
func (p *Program) funcsOf(pkg *ssa.Package) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, m := range pkg.Members {
		switch x := m.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
				ms := p.Prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					add(p.Prog.MethodValue(ms.At(i)))
				}
			}
		}
	}
	return out
}
