package main

import (
	"fmt"
	"math"

	kmatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	kvector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

var allKinds = cat(scalarKinds, vectorKinds, matrixKinds)
var argKinds = cat(allKinds, numScalarKinds, numArrayKinds)

// ---------------------------------------------------------------- C10 frames
func (g *Gen) fitted(op, ka, kb string) (any, any) {
	r, c := g.dim(), g.dim()
	ra, ca, rb, cb := r, c, r, c
	if op == "Multiply" {
		rb = c
		if isVectorKind(ka) {
			rb = 1
		}
	}
	if isVectorKind(kb) && op != "Multiply" {
		ca = 1
	}
	a, b := g.kind(ka, ra, ca), g.kind(kb, rb, cb)
	if ma, ok := a.(sym.Monomial); ok {
		if _, ok := b.(sym.Monomial); ok && g.p(1, 3) {
			b = g.near(ma)
		}
	}
	return a, b
}

func framed(name string, ops []any, f func()) (res *Fail) {
	before := make([]string, len(ops))
	txt := make([]any, len(ops))
	for i, o := range ops {
		before[i] = snap(o)
		txt[i] = show(o)
	}
	_, _, _ = call(func() any { f(); return nil })
	for i, o := range ops {
		if snap(o) != before[i] {
			return fail(name, txt, "operands unchanged", fmt.Sprintf("operand %d became %s (or memory behind it changed)", i, show(o)))
		}
	}
	return nil
}

func buildFrames(cs *[]kase) {
	for _, a := range allKinds {
		for _, b := range argKinds {
			for _, op := range []string{"Plus", "Minus", "Multiply", "Comparison<"} {
				a, b, op := a, b, op
				add(cs, a+"."+op+"("+b+")", func(g *Gen) *Fail {
					x, y := g.fitted(op, a, b)
					return framed(a+"."+op+"("+b+")", []any{x, y}, func() { binop(op, x.(sym.Expression), y)() })
				})
			}
		}
		a := a
		unary := func(n string, f func(g *Gen, e sym.Expression)) {
			add(cs, a+"."+n, func(g *Gen) *Fail {
				d := g.dim()
				e := g.kind(a, d, g.dim()).(sym.Expression)
				if n == "Power" {
					lowExps(e)
					if !isScalarKind(a) {
						e = g.kind(a, 1, 1).(sym.Expression)
					}
				}
				return framed(a+"."+n, []any{e}, func() { f(g, e) })
			})
		}
		unary("DerivativeWrt", func(g *Gen, e sym.Expression) { e.DerivativeWrt(g.variable()) })
		unary("Transpose", func(g *Gen, e sym.Expression) { e.Transpose() })
		unary("AsSimplifiedExpression", func(g *Gen, e sym.Expression) { e.AsSimplifiedExpression() })
		unary("Variables", func(g *Gen, e sym.Expression) { e.Variables() })
		unary("Power", func(g *Gen, e sym.Expression) { e.Power(g.r.Intn(4)) })
		unary("Check", func(g *Gen, e sym.Expression) { e.Check() })
		unary("String", func(g *Gen, e sym.Expression) { _ = e.String() })
		unary("At", func(g *Gen, e sym.Expression) { e.At(0, 0) })
		unary("Degree", func(g *Gen, e sym.Expression) {
			if d, ok := e.(interface{ Degree() int }); ok {
				d.Degree()
			}
		})
		unary("LinearCoeff", func(g *Gen, e sym.Expression) {
			switch x := e.(type) {
			case sym.ScalarExpression:
				x.LinearCoeff(g.vars)
				x.Constant()
			case sym.VectorExpression:
				x.LinearCoeff(g.vars)
				x.Constant()
			case sym.MatrixExpression:
				x.Constant()
			}
		})
		unary("conversions", func(g *Gen, e sym.Expression) {
			for _, cv := range convs(e) {
				cv := cv
				call(func() any { return cv.f() })
			}
		})
		add(cs, a+".Substitute", func(g *Gen) *Fail {
			e := g.kind(a, g.dim(), 1).(sym.Expression)
			lowExps(e)
			s := g.replacement()
			v := g.variable()
			return framed(a+".Substitute", []any{e, s}, func() { e.Substitute(v, s) })
		})
		add(cs, a+".SubstituteAccordingTo", func(g *Gen) *Fail {
			e := g.kind(a, g.dim(), 1).(sym.Expression)
			lowExps(e)
			m := g.subMap()
			return framed(a+".SubstituteAccordingTo", []any{e, m}, func() { e.SubstituteAccordingTo(m) })
		})
	}
	for _, k := range []string{"s", "v", "m"} {
		k := k
		cu := func(n string, f func(g *Gen, c sym.Constraint)) {
			add(cs, "constraint "+k+"."+n, func(g *Gen) *Fail {
				c := g.constraint(k, g.p(1, 2))
				return framed("constraint "+n, []any{c}, func() { f(g, c) })
			})
		}
		cu("AsSimplifiedConstraint", func(g *Gen, c sym.Constraint) { c.AsSimplifiedConstraint() })
		cu("Variables", func(g *Gen, c sym.Constraint) { c.Variables() })
		cu("Substitute", func(g *Gen, c sym.Constraint) { c.Substitute(g.variable(), g.replacement()) })
		cu("Compile", func(g *Gen, c sym.Constraint) {
			sym.CompileConstraintsIntoScalarConstraints([]sym.Constraint{c})
		})
		cu("ImpliesThisIsAlsoSatisfied", func(g *Gen, c sym.Constraint) { c.ImpliesThisIsAlsoSatisfied(g.constraint("s", true)) })
		cu("linear representation", func(g *Gen, c sym.Constraint) {
			vs := append([]sym.Variable{}, g.vars...)
			switch x := c.(type) {
			case sym.ScalarConstraint:
				call(func() any { x.LinearInequalityConstraintRepresentation(vs); return nil })
				call(func() any { x.LinearEqualityConstraintRepresentation(vs); return nil })
				call(func() any { x.ScaleBy(-2); return nil })
				call(func() any { x.IsNonnegativityConstraint(); return nil })
			case sym.VectorConstraint:
				call(func() any { x.LinearInequalityConstraintRepresentation(vs); return nil })
				call(func() any { x.LinearEqualityConstraintRepresentation(vs); return nil })
			}
		})
	}
	add(cs, "UniqueVars", func(g *Gen) *Fail {
		vs := spareVars(g, g.varList())
		return framed("UniqueVars", []any{vs}, func() { sym.UniqueVars(vs); sym.UnionOfVariables(vs, g.vars[:1]) })
	})
	add(cs, "UnionOfVariables", func(g *Gen) *Fail {
		vs, ws := spareVars(g, g.varList()), spareVars(g, g.varList())
		return framed("UnionOfVariables", []any{vs, ws}, func() { sym.UnionOfVariables(vs, ws) })
	})
	for _, st := range []string{"HStack", "VStack"} {
		st := st
		add(cs, st, func(g *Gen) *Fail {
			es, _, _ := g.blocks(st == "HStack")
			var ops []any
			for _, e := range es {
				ops = append(ops, e)
			}
			return framed(st, ops, func() {
				if st == "HStack" {
					sym.HStack(es...)
				} else {
					sym.VStack(es...)
				}
			})
		})
	}
	for _, k := range numArrayKinds {
		k := k
		add(cs, "conversion from "+k, func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim())
			return framed("conversion from "+k, []any{e}, func() {
				for _, cv := range convs(e) {
					cv := cv
					call(func() any { return cv.f() })
				}
			})
		})
	}
	add(cs, "results do not share memory that later operations write", func(g *Gen) *Fail {
		// a chain of operations on shared sub-expressions: every earlier value must survive
		var pool []any
		for i := 0; i < 3; i++ {
			pool = append(pool, g.kind(scalarKinds[g.r.Intn(4)], 1, 1))
		}
		var snaps []string
		for _, x := range pool {
			snaps = append(snaps, snapNoSpare(x))
		}
		var hist []string
		for step := 0; step < 5; step++ {
			a := pool[g.r.Intn(len(pool))].(sym.Expression)
			b := pool[g.r.Intn(len(pool))]
			if degreeOf(a)+degreeOf(b) > 12 {
				continue
			}
			op := []string{"Plus", "Minus", "Multiply", "D", "S"}[g.r.Intn(5)]
			hist = append(hist, fmt.Sprintf("%s %s %s", show(a), op, show(b)))
			res, pan, _ := call(func() any {
				switch op {
				case "D":
					return a.DerivativeWrt(g.variable())
				case "S":
					return a.AsSimplifiedExpression()
				}
				return binop(op, a, b)()
			})
			if !pan && res != nil {
				pool = append(pool, res)
				snaps = append(snaps, snapNoSpare(res))
			}
			for i, x := range pool {
				if snapNoSpare(x) != snaps[i] {
					var in []any
					for _, h := range hist {
						in = append(in, h)
					}
					return fail("sequence of operations", in, "earlier values unchanged", "value "+fmt.Sprint(i)+" became "+show(x))
				}
			}
		}
		return nil
	})
}

func snapNoSpare(x any) string { return show(x) }

func (g *Gen) varList() []sym.Variable {
	n := g.r.Intn(6)
	var o []sym.Variable
	for i := 0; i < n; i++ {
		o = append(o, g.variable())
	}
	return o
}

// ---------------------------------------------------------------- C11
func buildLinear(cs *[]kase) {
	for _, k := range allKinds {
		k := k
		add(cs, k+".Constant", func(g *Gen) *Fail {
			e := g.kindC(k, g.dim(), g.dim(), true)
			zero := map[uint64]int{}
			r, c := shape(e)
			switch x := e.(type) {
			case sym.ScalarExpression:
				got, pan, why := call(func() any { return x.Constant() })
				if pan {
					return fail(k+".Constant", []any{e}, "a number", "panic: "+why)
				}
				if w := trueCoef(e, zero); !same(got.(float64), w) {
					return fail(k+".Constant", []any{e}, fmt.Sprint(w), fmt.Sprint(got))
				}
			case sym.VectorExpression:
				got, pan, why := call(func() any { return x.Constant() })
				if pan {
					return fail(k+".Constant", []any{e}, "a vector", "panic: "+why)
				}
				return checkNum(k+".Constant", []any{e}, got, r, 1, func(i, j int) float64 { return trueCoef(at(e, i, 0), zero) })
			case sym.MatrixExpression:
				got, pan, why := call(func() any { return x.Constant() })
				if pan {
					return fail(k+".Constant", []any{e}, "a matrix", "panic: "+why)
				}
				return checkNum(k+".Constant", []any{e}, got, r, c, func(i, j int) float64 { return trueCoef(at(e, i, j), zero) })
			}
			return nil
		})
		if isMatrixKind(k) {
			continue
		}
		add(cs, k+".LinearCoeff", func(g *Gen) *Fail {
			e := g.kindC(k, g.dim(), 1, true)
			if g.p(1, 3) && k == "Poly" {
				e = g.linearPoly()
			}
			r, _ := shape(e)
			var wrt []sym.Variable
			for _, ix := range g.r.Perm(len(g.vars))[:1+g.r.Intn(len(g.vars))] {
				wrt = append(wrt, g.vars[ix])
			}
			implicit := g.p(1, 4)
			var args [][]sym.Variable
			if !implicit {
				args = append(args, wrt)
			}
			var got any
			var pan bool
			var why string
			if s, ok := e.(sym.ScalarExpression); ok {
				if implicit {
					wrt = s.Variables()
				}
				got, pan, why = call(func() any { return s.LinearCoeff(args...) })
			} else {
				v := e.(sym.VectorExpression)
				if implicit {
					wrt = v.Variables()
				}
				got, pan, why = call(func() any { return v.LinearCoeff(args...) })
			}
			in := []any{e, wrt}
			if len(wrt) == 0 {
				if !pan {
					return fail(k+".LinearCoeff", in, "a panic (no variables)", fmt.Sprint(got))
				}
				return nil
			}
			if pan {
				return fail(k+".LinearCoeff", in, "coefficients", "panic: "+why)
			}
			if isScalarKind(k) {
				return checkNum(k+".LinearCoeff", in, got, len(wrt), 1, func(i, j int) float64 {
					return trueCoef(e, map[uint64]int{wrt[i].ID: 1})
				})
			}
			return checkNum(k+".LinearCoeff", in, got, r, len(wrt), func(i, j int) float64 {
				return trueCoef(at(e, i, 0), map[uint64]int{wrt[j].ID: 1})
			})
		})
	}
	// results of operations keep reporting true coefficients
	for _, a := range allKinds {
		for _, b := range allKinds {
			for _, op := range []string{"Plus", "Minus", "Multiply"} {
				a, b, op := a, b, op
				if op == "Multiply" && !isScalarKind(b) {
					continue
				}
				add(cs, "constant of "+a+"."+op+"("+b+")", func(g *Gen) *Fail {
					canonicalOnly = true
					defer func() { canonicalOnly = false }()
					x, y := g.fitted(op, a, b)
					res, pan, _ := call(binop(op, x.(sym.Expression), y))
					if pan || kindOf(res) == "" {
						return nil
					}
					zero := map[uint64]int{}
					r, c := shape(res)
					one := map[uint64]int{g.vars[0].ID: 1}
					for i := 0; i < r; i++ {
						for j := 0; j < c; j++ {
							s := at(res, i, j).(sym.ScalarExpression)
							got, p2, why := call(func() any { return s.Constant() })
							if p2 {
								return fail("Constant of "+op, []any{x, y}, "a number", why)
							}
							if w := trueCoef(s, zero); !same(w, got.(float64)) {
								return fail("Constant of a result of "+a+"."+op+"("+b+")", []any{x, y}, fmt.Sprint(w), fmt.Sprintf("%v: %s", got, show(res)))
							}
							got, p2, why = call(func() any { v := s.LinearCoeff(g.vars[:1]); return v.AtVec(0) })
							if p2 {
								return fail("LinearCoeff of "+op, []any{x, y}, "a number", why)
							}
							if w := trueCoef(s, one); !same(w, got.(float64)) {
								return fail("LinearCoeff of a result of "+a+"."+op+"("+b+")", []any{x, y}, fmt.Sprint(w), fmt.Sprintf("%v: %s", got, show(res)))
							}
						}
					}
					return nil
				})
			}
		}
	}
}

func checkNum(name string, in []any, got any, r, c int, want func(i, j int) float64) *Fail {
	var d mat.Matrix
	switch x := got.(type) {
	case mat.VecDense:
		d = &x
	case mat.Dense:
		d = &x
	default:
		return fail(name, in, "numbers", fmt.Sprintf("%T", got))
	}
	rr, cc := d.Dims()
	if rr != r || cc != c {
		return fail(name, in, fmt.Sprintf("%dx%d", r, c), fmt.Sprintf("%dx%d", rr, cc))
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if !same(d.At(i, j), want(i, j)) {
				return fail(name, in, fmt.Sprintf("[%d,%d]=%v", i, j, want(i, j)), fmt.Sprint(d.At(i, j)))
			}
		}
	}
	return nil
}

// ---------------------------------------------------------------- C12
func buildRepr(cs *[]kase) {
	for _, k := range []string{"s", "v"} {
		for _, eq := range []bool{false, true} {
			k, eq := k, eq
			name := map[bool]string{false: "LinearInequalityConstraintRepresentation", true: "LinearEqualityConstraintRepresentation"}[eq]
			add(cs, k+" "+name, func(g *Gen) *Fail {
				lin := g.p(5, 6)
				c := g.constraint(k, lin)
				l, r, s := sides(c)
				isLin := degreeOf(l) <= 1 && degreeOf(r) <= 1
				implicit := g.p(1, 5)
				var wrt [][]sym.Variable
				ws := []sym.Variable{}
				for _, ix := range g.r.Perm(len(g.vars)) {
					ws = append(ws, g.vars[ix])
				}
				if !implicit {
					wrt = append(wrt, ws)
				}
				in := []any{c, ws}
				type rep struct {
					A mat.Matrix
					b func(i int) float64
				}
				res, pan, why := call(func() any {
					switch x := c.(type) {
					case sym.ScalarConstraint:
						f := x.LinearInequalityConstraintRepresentation
						if eq {
							f = x.LinearEqualityConstraintRepresentation
						}
						a, b := f(wrt...)
						return rep{a.T(), func(int) float64 { return b }}
					case sym.VectorConstraint:
						f := x.LinearInequalityConstraintRepresentation
						if eq {
							f = x.LinearEqualityConstraintRepresentation
						}
						a, b := f(wrt...)
						return rep{&a, func(i int) float64 { return b.AtVec(i) }}
					}
					return nil
				})
				wrong := !isLin || (eq && s != sym.SenseEqual) || (!eq && s == sym.SenseEqual)
				if wrong {
					if !pan {
						return fail(name, in, "a panic (wrong sense or non-linear)", "a result")
					}
					return nil
				}
				// expected rows
				n, _ := shape(l)
				noVars := true
				for i := 0; i < n; i++ {
					for _, v := range g.vars {
						one := map[uint64]int{v.ID: 1}
						if trueCoef(at(l, i, 0), one)-trueCoef(at(r, i, 0), one) != 0 {
							noVars = false
						}
					}
				}
				if pan {
					if implicit && noVars {
						return nil
					}
					return fail(name, in, "a representation", "panic: "+why)
				}
				p := res.(rep)
				m, nv := p.A.Dims()
				if m != n {
					return fail(name, in, fmt.Sprintf("%d rows", n), fmt.Sprint(m))
				}
				if implicit {
					return nil
				}
				if nv != len(ws) {
					return fail(name, in, fmt.Sprintf("%d columns", len(ws)), fmt.Sprint(nv))
				}
				sg := 1.0
				if s == sym.SenseGreaterThanEqual {
					sg = -1
				}
				for i := 0; i < n; i++ {
					for j, v := range ws {
						one := map[uint64]int{v.ID: 1}
						w := sg * (trueCoef(at(l, i, 0), one) - trueCoef(at(r, i, 0), one))
						if !same(p.A.At(i, j), w) {
							return fail(name, in, fmt.Sprintf("A[%d,%d]=%v", i, j, w), fmt.Sprint(p.A.At(i, j)))
						}
					}
					z := map[uint64]int{}
					w := sg * (trueCoef(at(r, i, 0), z) - trueCoef(at(l, i, 0), z))
					if !same(p.b(i), w) {
						return fail(name, in, fmt.Sprintf("b[%d]=%v", i, w), fmt.Sprint(p.b(i)))
					}
				}
				return nil
			})
		}
	}
}

// ---------------------------------------------------------------- C14
func buildConstrSimpl(cs *[]kase) {
	chk := func(name string, c sym.Constraint, f func() any, flip func(float64) float64, needK bool) trial {
		return nil
	}
	_ = chk
	for _, k := range []string{"s", "v", "m"} {
		k := k
		run := func(name string, g *Gen, c sym.Constraint, f func() any, factor float64, needK bool) *Fail {
			in := []any{c}
			if factor != 1 {
				in = append(in, factor)
			}
			res, pan, why := call(f)
			if pan && k == "m" {
				return nil // not every pair of matrix kinds can be subtracted
			}
			if pan {
				return fail(name, in, "a constraint", "panic: "+why)
			}
			_, _, s := sides(c)
			l2, r2, s2 := sides(res)
			wantS := s
			if factor < 0 {
				if s == sym.SenseLessThanEqual {
					wantS = sym.SenseGreaterThanEqual
				} else if s == sym.SenseGreaterThanEqual {
					wantS = sym.SenseLessThanEqual
				}
			}
			if s2 != wantS {
				return fail(name, in, "sense "+string(rune(wantS)), show(res))
			}
			if needK {
				switch r2.(type) {
				case sym.K, sym.KVector, sym.KMatrix:
				default:
					return fail(name, in, "a constant right-hand side", show(res))
				}
			}
			l, r, _ := sides(c)
			for t := 0; t < 2; t++ {
				rho := g.rho()
				n, m := shape(l)
				n2, m2 := shape(l2)
				if n2 != n || m2 != m {
					return fail(name, in, "same shape", show(res))
				}
				for i := 0; i < n; i++ {
					for j := 0; j < m; j++ {
						a, b := evb(l, i, j, rho), evb(r, i, j, rho)
						d := factor * (a - b)
						x, y := evb(l2, i, j, rho), evb(r2, i, j, rho)
						if !sameScale(d, x-y, math.Abs(a)+math.Abs(b)+math.Abs(y)) {
							return fail(name, in, fmt.Sprintf("left-right of entry (%d,%d) equal to %v at %s", i, j, d, show(rho)), fmt.Sprintf("%v: %s", x-y, show(res)))
						}
					}
				}
			}
			return nil
		}
		add(cs, k+".AsSimplifiedConstraint", func(g *Gen) *Fail {
			c := g.constraint(k, g.p(1, 2))
			return run("AsSimplifiedConstraint", g, c, func() any { return c.AsSimplifiedConstraint() }, 1, true)
		})
		if k == "s" {
			add(cs, "Simplify", func(g *Gen) *Fail {
				c := g.constraint("s", g.p(1, 2)).(sym.ScalarConstraint)
				return run("Simplify", g, c, func() any { return c.Simplify() }, 1, true)
			})
			add(cs, "ScaleBy", func(g *Gen) *Fail {
				c := g.constraint("s", g.p(1, 2)).(sym.ScalarConstraint)
				f := g.nz()
				return run("ScaleBy", g, c, func() any { return c.ScaleBy(f) }, f, false)
			})
		}
	}
}

// ---------------------------------------------------------------- C15, C16
func (g *Gen) oneVarSide(v sym.Variable) sym.ScalarExpression {
	c := []float64{1, 1, -1, 2, -2, 0.5, 3, g.nz()}[g.r.Intn(8)]
	lin := sym.Monomial{Coefficient: c, VariableFactors: []sym.Variable{v}, Exponents: []int{1}}
	k := sym.Monomial{Coefficient: float64(g.r.Intn(9) - 4), VariableFactors: []sym.Variable{}, Exponents: []int{}}
	sq := sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{v}, Exponents: []int{g.exp()}}
	switch g.r.Intn(8) {
	case 0, 1:
		return sym.K(float64(g.r.Intn(9) - 4))
	case 2:
		return v
	case 3:
		return lin
	case 4, 5:
		if g.p(1, 2) {
			return sym.Polynomial{Monomials: []sym.Monomial{lin, k}}
		}
		return sym.Polynomial{Monomials: []sym.Monomial{k, lin}}
	case 6:
		return sq
	}
	if sq.Exponents[0] == 1 {
		return lin
	}
	return sym.Polynomial{Monomials: []sym.Monomial{lin, sq}}
}

func (g *Gen) sense() sym.ConstrSense {
	return []sym.ConstrSense{sym.SenseEqual, sym.SenseLessThanEqual, sym.SenseGreaterThanEqual}[g.r.Intn(3)]
}

func implCheck(g *Gen, a, b sym.Constraint) *Fail {
	got, pan, _ := call(func() any { return a.ImpliesThisIsAlsoSatisfied(b) })
	if pan || !got.(bool) {
		return nil
	}
	// look for an assignment satisfying a but not b
	vals := []float64{}
	for x := -6.0; x <= 6; x += 0.5 {
		vals = append(vals, x)
	}
	vals = append(vals, -100, 100, 1000, -1000)
	// boundary points of a and b for one-variable linear constraints
	for t := 0; t < 400; t++ {
		rho := map[uint64]float64{}
		for _, v := range g.vars {
			rho[v.ID] = vals[g.r.Intn(len(vals))]
		}
		if t < len(vals) {
			for _, v := range g.vars {
				rho[v.ID] = vals[t]
			}
		}
		ha, d1 := holds(a, rho)
		hb, d2 := holds(b, rho)
		if ha && !hb && d1 && d2 {
			return fail("ImpliesThisIsAlsoSatisfied", []any{a, b}, "no (at "+show(rho)+" the first holds and the second does not)", "yes")
		}
	}
	// exact boundary probing for equalities
	for _, v := range g.vars {
		for _, x := range boundary(a, v) {
			for _, dx := range []float64{0, 0.125, -0.125, 1, -1} {
				rho := map[uint64]float64{}
				for _, w := range g.vars {
					rho[w.ID] = 0
				}
				rho[v.ID] = x + dx
				ha, d1 := holds(a, rho)
				hb, d2 := holds(b, rho)
				if ha && !hb && d1 && d2 {
					return fail("ImpliesThisIsAlsoSatisfied", []any{a, b}, "no (at "+show(rho)+" the first holds and the second does not)", "yes")
				}
			}
		}
	}
	return nil
}

func boundary(c sym.Constraint, v sym.Variable) (o []float64) {
	l, r, _ := sides(c)
	if kindOf(l) != "s" || kindOf(r) != "s" {
		return nil
	}
	one := map[uint64]int{v.ID: 1}
	z := map[uint64]int{}
	a := trueCoef(l, one) - trueCoef(r, one)
	b := trueCoef(r, z) - trueCoef(l, z)
	if a != 0 {
		o = append(o, b/a)
	}
	return
}

func implTrial(g *Gen) *Fail {
	v := g.vars[0]
	w := v
	if g.p(1, 8) {
		w = g.variable()
	}
	mk := func(v sym.Variable) sym.Constraint {
		return sym.ScalarConstraint{LeftHandSide: g.oneVarSide(v), RightHandSide: g.oneVarSide(v), Sense: g.sense()}
	}
	a, b := mk(v), mk(w)
	if g.p(1, 10) {
		a = g.constraint([]string{"s", "v", "m"}[g.r.Intn(3)], true)
	}
	if g.p(1, 10) {
		b = g.constraint([]string{"s", "v", "m"}[g.r.Intn(3)], true)
	}
	return implCheck(g, a, b)
}

func implLinTrial(g *Gen) *Fail {
	v := g.vars[0]
	mk := func() sym.Constraint {
		c := []float64{1, 1, -1, 2, -2, 0.5, 4}[g.r.Intn(7)]
		l := sym.Monomial{Coefficient: c, VariableFactors: []sym.Variable{v}, Exponents: []int{1}}
		k := sym.K(float64(g.r.Intn(7) - 3))
		if g.p(1, 4) {
			return sym.ScalarConstraint{LeftHandSide: k, RightHandSide: l, Sense: g.sense()}
		}
		return sym.ScalarConstraint{LeftHandSide: l, RightHandSide: k, Sense: g.sense()}
	}
	return implCheck(g, mk(), mk())
}

func nonnegTrial(g *Gen) *Fail {
	v := g.vars[0]
	var c sym.ScalarConstraint
	switch g.r.Intn(4) {
	case 0:
		c = g.constraint("s", g.p(3, 4)).(sym.ScalarConstraint)
	case 1:
		l := sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{v}, Exponents: []int{1}}
		c = sym.ScalarConstraint{LeftHandSide: l, RightHandSide: sym.K(g.coef()), Sense: g.sense()}
		if g.p(1, 2) {
			c.RightHandSide = sym.K(0)
		}
		if g.p(1, 3) {
			c.LeftHandSide, c.RightHandSide = c.RightHandSide, c.LeftHandSide
		}
	default:
		c = sym.ScalarConstraint{LeftHandSide: g.oneVarSide(v), RightHandSide: g.oneVarSide(v), Sense: g.sense()}
	}
	got, pan, _ := call(func() any { return c.IsNonnegativityConstraint() })
	if pan || !got.(bool) {
		return nil
	}
	// there must be a variable x with (c holds iff x >= 0)
	for _, w := range g.vars {
		ok := true
		for t := 0; t < 60 && ok; t++ {
			rho := map[uint64]float64{}
			for _, u := range g.vars {
				rho[u.ID] = float64(g.r.Intn(25)-12) / 4
			}
			if t%3 == 0 {
				rho[w.ID] = 0
			}
			if t%7 == 1 {
				rho[w.ID] *= 100
			}
			h, d := holds(c, rho)
			if d && h != (rho[w.ID] >= 0) {
				ok = false
			}
		}
		if ok {
			return nil
		}
	}
	return fail("IsNonnegativityConstraint", []any{c}, "no (its solutions are not those of x >= 0 for any variable x)", "yes")
}

// ---------------------------------------------------------------- C17
func (g *Gen) blocks(h bool) ([]sym.Expression, int, int) {
	n := 1 + g.r.Intn(4)
	fixed := g.dim()
	var es []sym.Expression
	tot := 0
	for i := 0; i < n; i++ {
		o := g.dim()
		r, c := fixed, o
		if !h {
			r, c = o, fixed
		}
		var ks []string
		if r == 1 && c == 1 {
			ks = append(ks, scalarKinds...)
		}
		if c == 1 && r > 1 {
			ks = append(ks, vectorKinds...)
		}
		ks = append(ks, matrixKinds...)
		e := g.kindC(ks[g.r.Intn(len(ks))], r, c, true).(sym.Expression)
		es = append(es, e)
		tot += o
	}
	if h {
		return es, fixed, tot
	}
	return es, tot, fixed
}

func buildDims(cs *[]kase) {
	for _, a := range allKinds {
		for _, b := range argKinds {
			for _, op := range []string{"Plus", "Minus", "Multiply", "LessEq", "GreaterEq", "Eq"} {
				a, b, op := a, b, op
				add(cs, a+"."+op+"("+b+")", func(g *Gen) *Fail {
					ra, ca, rb, cb := g.dim(), g.dim(), g.dim(), g.dim()
					if g.p(1, 3) {
						rb, cb = ra, ca
					}
					if g.p(1, 4) {
						ra, ca = ca, ra
					}
					if g.p(1, 5) {
						rb = ca
					}
					x, y := g.kind(a, ra, ca), g.kind(b, rb, cb)
					r, c, fits := expShape(op, x, y)
					name := a + "." + op + "(" + b + ")"
					in := []any{x, y}
					res, pan, _ := call(binop(op, x.(sym.Expression), y))
					if pan {
						return nil
					}
					if !fits {
						return fail(name, in, "a panic (dimensions do not fit)", show(res))
					}
					if _, ok := res.(sym.Constraint); ok {
						l, rh, _ := sides(res)
						for _, s := range []any{l, rh} {
							rr, cc := shape(s)
							if (rr != r || cc != c) && !(rr == 1 && cc == 1) {
								return fail(name, in, fmt.Sprintf("sides of dimensions (%d,%d)", r, c), show(res))
							}
						}
						return nil
					}
					return dimsAgree(name, in, res, r, c)
				})
			}
		}
		a := a
		add(cs, a+".Dims", func(g *Gen) *Fail {
			e := g.kind(a, g.dim(), g.dim())
			r, c := shape(e)
			return dimsAgree(a+".Dims", []any{e}, e, r, c)
		})
		add(cs, a+".Transpose dims", func(g *Gen) *Fail {
			e := g.kind(a, g.dim(), g.dim()).(sym.Expression)
			r, c := shape(e)
			res, pan, why := call(func() any { return e.Transpose() })
			if pan {
				return fail(a+".Transpose", []any{e}, "a result", "panic: "+why)
			}
			return dimsAgree(a+".Transpose", []any{e}, res, c, r)
		})
	}
	for _, h := range []bool{true, false} {
		h := h
		name := map[bool]string{true: "HStack", false: "VStack"}[h]
		add(cs, name, func(g *Gen) *Fail {
			es, r, c := g.blocks(h)
			fits := true
			if g.p(1, 2) {
				// one block of another height/width
				i := g.r.Intn(len(es))
				es[i] = g.kindC(matrixKinds[g.r.Intn(4)], g.dim(), g.dim(), true).(sym.Expression)
				r, c = 0, 0
				r0, c0 := shape(es[0])
				for _, e := range es {
					a, b := shape(e)
					if h {
						fits = fits && a == r0
						c += b
						r = r0
					} else {
						fits = fits && b == c0
						r += a
						c = c0
					}
				}
			}
			var in []any
			for _, e := range es {
				in = append(in, e)
			}
			res, pan, why := call(func() any {
				if h {
					return sym.HStack(es...)
				}
				return sym.VStack(es...)
			})
			if !fits {
				if !pan {
					return fail(name, in, "a panic (dimensions do not fit)", show(res))
				}
				return nil
			}
			if pan {
				return fail(name, in, "a result", "panic: "+why)
			}
			return dimsAgree(name, in, res, r, c)
		})
	}
	for _, k := range []string{"v", "m"} {
		k := k
		add(cs, "constraint "+k+" Check", func(g *Gen) *Fail {
			r1, c1, r2, c2 := g.dim(), g.dim(), g.dim(), g.dim()
			if g.p(1, 2) {
				r2, c2 = r1, c1
			}
			var c sym.Constraint
			if k == "v" {
				c1, c2 = 1, 1
				c = sym.VectorConstraint{LeftHandSide: g.kind(vectorKinds[g.r.Intn(4)], r1, 1).(sym.VectorExpression), RightHandSide: g.kind(vectorKinds[g.r.Intn(4)], r2, 1).(sym.VectorExpression), Sense: g.sense()}
			} else {
				c = sym.MatrixConstraint{LeftHandSide: g.kind(matrixKinds[g.r.Intn(4)], r1, c1).(sym.MatrixExpression), RightHandSide: g.kind(matrixKinds[g.r.Intn(4)], r2, c2).(sym.MatrixExpression), Sense: g.sense()}
			}
			got, pan, why := call(func() any { return c.Check() == nil })
			if pan {
				return fail("Check", []any{c}, "an answer", "panic: "+why)
			}
			fits := r1 == r2 && c1 == c2
			if got.(bool) && !fits {
				return fail("Check", []any{c}, "an error (sides of different dimensions)", "no error")
			}
			if !got.(bool) && fits {
				return fail("Check", []any{c}, "no error", "an error")
			}
			return nil
		})
	}
}

func dimsAgree(name string, in []any, res any, r, c int) *Fail {
	rr, cc := shape(res)
	if rr != r || cc != c || ragged(res) != "" {
		return fail(name, in, fmt.Sprintf("dimensions (%d,%d)", r, c), show(res))
	}
	d, pan, why := call(func() any { return res.(interface{ Dims() []int }).Dims() })
	if pan {
		return fail(name, in, "dimensions", "panic: "+why)
	}
	ds := d.([]int)
	if len(ds) != 2 || ds[0] != r || ds[1] != c {
		return fail(name, in, fmt.Sprintf("Dims() = [%d %d]", r, c), fmt.Sprintf("%v for %s", ds, show(res)))
	}
	return nil
}

// ---------------------------------------------------------------- C18, C24
func buildEntries(cs *[]kase) {
	for _, k := range allKinds {
		k := k
		add(cs, k+".Transpose", func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim()).(sym.Expression)
			r, c := shape(e)
			res, pan, why := call(func() any { return e.Transpose() })
			if pan {
				return fail(k+".Transpose", []any{e}, "a result", "panic: "+why)
			}
			return checkResult(k+".Transpose", []any{e}, res, c, r, func(i, j int, rho map[uint64]float64) (float64, float64) { return ev(e, j, i, rho), 1 }, g)
		})
		add(cs, k+".At", func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim()).(sym.Expression)
			r, c := shape(e)
			i, j := g.r.Intn(r), g.r.Intn(c)
			name := fmt.Sprintf("%s.At(%d,%d)", k, i, j)
			res, pan, why := call(func() any { return e.At(i, j) })
			if pan {
				return fail(name, []any{e}, "an entry", "panic: "+why)
			}
			if x := checkResult(name, []any{e}, res, 1, 1, func(_, _ int, rho map[uint64]float64) (float64, float64) { return ev(e, i, j, rho), 1 }, g); x != nil {
				return x
			}
			if v, ok := e.(sym.VectorExpression); ok {
				res, pan, why := call(func() any { return v.AtVec(i) })
				if pan {
					return fail(k+".AtVec", []any{e, i}, "an entry", "panic: "+why)
				}
				if x := checkResult(fmt.Sprintf("%s.AtVec(%d)", k, i), []any{e}, res, 1, 1, func(_, _ int, rho map[uint64]float64) (float64, float64) { return ev(e, i, 0, rho), 1 }, g); x != nil {
					return x
				}
				if v.Len() != r {
					return fail(k+".Len", []any{e}, fmt.Sprint(r), fmt.Sprint(v.Len()))
				}
			}
			return nil
		})
	}
	for _, h := range []bool{true, false} {
		h := h
		name := map[bool]string{true: "HStack", false: "VStack"}[h]
		add(cs, name, func(g *Gen) *Fail {
			es, r, c := g.blocks(h)
			var in []any
			for _, e := range es {
				in = append(in, e)
			}
			res, pan, why := call(func() any {
				if h {
					return sym.HStack(es...)
				}
				return sym.VStack(es...)
			})
			if pan {
				return fail(name, in, "a result", "panic: "+why)
			}
			return checkResult(name, in, res, r, c, func(i, j int, rho map[uint64]float64) (float64, float64) {
				for _, e := range es {
					a, b := shape(e)
					if h {
						if j < b {
							return ev(e, i, j, rho), 1
						}
						j -= b
					} else {
						if i < a {
							return ev(e, i, j, rho), 1
						}
						i -= a
					}
				}
				return math.NaN(), 0
			}, g)
		})
	}
}

func buildIndex(cs *[]kase) {
	idx := func(g *Gen, n int) int {
		switch g.r.Intn(6) {
		case 0:
			return -1 - g.r.Intn(2)
		case 1:
			return n
		case 2:
			return n + 1 + g.r.Intn(3)
		}
		return g.r.Intn(n)
	}
	for _, k := range allKinds {
		k := k
		add(cs, k+".At", func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim()).(sym.Expression)
			r, c := shape(e)
			i, j := idx(g, r), idx(g, c)
			in := i >= 0 && i < r && j >= 0 && j < c
			return idxCheck(fmt.Sprintf("%s.At(%d,%d)", k, i, j), e, in, func() any { return e.At(i, j) })
		})
		if isVectorKind(k) {
			add(cs, k+".AtVec", func(g *Gen) *Fail {
				e := g.kind(k, g.dim(), 1).(sym.VectorExpression)
				r, _ := shape(e)
				i := idx(g, r)
				return idxCheck(fmt.Sprintf("%s.AtVec(%d)", k, i), e, i >= 0 && i < r, func() any { return e.AtVec(i) })
			})
		}
	}
	add(cs, "VectorConstraint.AtVec", func(g *Gen) *Fail {
		c := g.constraint("v", true).(sym.VectorConstraint)
		r, _ := shape(c.LeftHandSide)
		i := idx(g, r)
		return idxCheck(fmt.Sprintf("VectorConstraint.AtVec(%d)", i), c, i >= 0 && i < r, func() any { return c.AtVec(i) })
	})
	add(cs, "MatrixConstraint.At", func(g *Gen) *Fail {
		c := g.constraint("m", true).(sym.MatrixConstraint)
		r, cc := shape(c.LeftHandSide)
		i, j := idx(g, r), idx(g, cc)
		return idxCheck(fmt.Sprintf("MatrixConstraint.At(%d,%d)", i, j), c, i >= 0 && i < r && j >= 0 && j < cc, func() any { return c.At(i, j) })
	})
}

func idxCheck(name string, e any, in bool, f func() any) *Fail {
	res, pan, why := call(f)
	if in && pan {
		return fail(name, []any{e}, "an entry", "panic: "+why)
	}
	if !in && !pan {
		return fail(name, []any{e}, "a panic (index out of range)", show(res))
	}
	return nil
}

// ---------------------------------------------------------------- C19
func sameIDs(name string, in []any, got []sym.Variable, want map[uint64]bool) *Fail {
	seen := map[uint64]bool{}
	for _, v := range got {
		if seen[v.ID] {
			return fail(name, in, "no duplicates", show(got))
		}
		seen[v.ID] = true
		if !want[v.ID] {
			return fail(name, in, "only occurring variables", show(got))
		}
	}
	if len(seen) != len(want) {
		return fail(name, in, fmt.Sprintf("%d variables", len(want)), show(got))
	}
	return nil
}

func buildVars(cs *[]kase) {
	vars := func(name string, x any, f func() []sym.Variable) *Fail {
		res, pan, why := call(func() any { return f() })
		if pan {
			return fail(name, []any{x}, "a list", "panic: "+why)
		}
		return sameIDs(name, []any{x}, res.([]sym.Variable), varIDs(x))
	}
	for _, k := range allKinds {
		k := k
		add(cs, k+".Variables", func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim()).(sym.Expression)
			if f := vars(k+".Variables", e, e.Variables); f != nil {
				return f
			}
			n, pan, why := call(func() any { return sym.NumVariables(e) })
			if pan || n.(int) != len(varIDs(e)) {
				return fail("NumVariables", []any{e}, fmt.Sprint(len(varIDs(e))), fmt.Sprint(n, why))
			}
			ids, pan, why := call(func() any { return sym.VariableIDs(e) })
			if pan {
				return fail("VariableIDs", []any{e}, "a list", why)
			}
			var vs []sym.Variable
			for _, id := range ids.([]uint64) {
				vs = append(vs, sym.Variable{ID: id})
			}
			return sameIDs("VariableIDs", []any{e}, vs, varIDs(e))
		})
	}
	for _, k := range []string{"s", "v", "m"} {
		k := k
		add(cs, "constraint "+k+" Variables", func(g *Gen) *Fail {
			c := g.constraint(k, g.p(1, 2))
			if f := vars("constraint Variables", c, c.Variables); f != nil {
				return f
			}
			return vars("VariablesInThisConstraint", c, func() []sym.Variable { return sym.VariablesInThisConstraint(c) })
		})
	}
	add(cs, "UniqueVars", func(g *Gen) *Fail {
		vs := g.varList()
		want := map[uint64]bool{}
		for _, v := range vs {
			want[v.ID] = true
		}
		return sameIDs("UniqueVars", []any{vs}, sym.UniqueVars(vs), want)
	})
	add(cs, "UnionOfVariables", func(g *Gen) *Fail {
		var ls [][]sym.Variable
		want := map[uint64]bool{}
		var in []any
		for i := 0; i < g.r.Intn(4); i++ {
			l := g.varList()
			ls = append(ls, l)
			in = append(in, l)
			for _, v := range l {
				want[v.ID] = true
			}
		}
		return sameIDs("UnionOfVariables", in, sym.UnionOfVariables(ls...), want)
	})
	add(cs, "Unique", func(g *Gen) *Fail {
		n := g.r.Intn(7)
		var l []uint64
		want := map[uint64]bool{}
		for i := 0; i < n; i++ {
			x := uint64(g.r.Intn(4))
			l = append(l, x)
			want[x] = true
		}
		var vs []sym.Variable
		for _, id := range sym.Unique(l) {
			vs = append(vs, sym.Variable{ID: id})
		}
		return sameIDs("Unique", []any{fmt.Sprint(l)}, vs, want)
	})
}

// ---------------------------------------------------------------- C20
func envTrial(g *Gen) *Fail {
	env := sym.MakeBasicEnvironment("e")
	useDefault := g.p(1, 6)
	envs := []sym.Environment{&env}
	e := sym.Environment(&env)
	if useDefault {
		envs = nil
		e = &sym.DefaultEnvironment
	}
	var hist []any
	var model []sym.Variable
	model = append(model, e.AllTrackedVariables()...)
	eq := func(a, b []sym.Variable) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i].ID != b[i].ID || a[i].Lower != b[i].Lower || a[i].Upper != b[i].Upper || a[i].Name != b[i].Name || a[i].Type != b[i].Type {
				return false
			}
		}
		return true
	}
	fresh := func(op string, vs ...sym.Variable) *Fail {
		for _, v := range vs {
			for _, o := range model {
				if o.ID == v.ID {
					return fail(op, hist, "an identifier different from every tracked variable's", show(v))
				}
			}
			model = append(model, v)
		}
		if got := e.AllTrackedVariables(); !eq(got, model) {
			return fail(op, hist, "tracked: "+show(model), show(got))
		}
		return nil
	}
	for s := 0; s < 1+g.r.Intn(7); s++ {
		var f *Fail
		switch g.r.Intn(6) {
		case 0:
			hist = append(hist, "NewVariable")
			f = fresh("NewVariable", sym.NewVariable(envs...))
		case 1:
			hist = append(hist, "NewBinaryVariable")
			f = fresh("NewBinaryVariable", sym.NewBinaryVariable(envs...))
		case 2:
			n := g.r.Intn(4)
			hist = append(hist, fmt.Sprintf("NewVariableVector(%d)", n))
			vv := sym.NewVariableVector(n, envs...)
			if len(vv) != n {
				return fail("NewVariableVector", hist, fmt.Sprint(n, " entries"), show(vv))
			}
			f = fresh("NewVariableVector", vv...)
		case 3:
			r, c := 1+g.r.Intn(3), 1+g.r.Intn(3)
			hist = append(hist, fmt.Sprintf("NewVariableMatrix(%d,%d)", r, c))
			vm := sym.NewVariableMatrix(r, c, envs...)
			var l []sym.Variable
			for _, row := range vm {
				l = append(l, row...)
			}
			if len(l) != r*c {
				return fail("NewVariableMatrix", hist, fmt.Sprint(r*c, " entries"), show(vm))
			}
			f = fresh("NewVariableMatrix", l...)
		case 4:
			hist = append(hist, "NewContinuousVariable")
			f = fresh("NewContinuousVariable", sym.NewContinuousVariable(envs...))
		case 5:
			if useDefault {
				continue
			}
			v := sym.Variable{ID: uint64(g.r.Intn(9)), Lower: -1, Upper: 1, Name: "t", Environment: e}
			hist = append(hist, "TrackVariable "+show(v))
			known := false
			for _, o := range model {
				known = known || o.ID == v.ID
			}
			got := e.TrackVariable(v)
			if got == known {
				return fail("TrackVariable", hist, fmt.Sprint(!known), fmt.Sprint(got))
			}
			if !known {
				model = append(model, v)
			}
			if l := e.AllTrackedVariables(); !eq(l, model) {
				return fail("TrackVariable", hist, "tracked: "+show(model), show(l))
			}
		}
		if f != nil {
			return f
		}
	}
	return nil
}

// ---------------------------------------------------------------- C22
type conv struct {
	name string
	f    func() any
}

func convs(e any) []conv {
	var o []conv
	a := func(n string, f func() any) { o = append(o, conv{n, f}) }
	if x, ok := e.(interface{ ToMonomial() sym.Monomial }); ok {
		a("ToMonomial", func() any { return x.ToMonomial() })
	}
	if x, ok := e.(interface{ ToPolynomial() sym.Polynomial }); ok {
		a("ToPolynomial", func() any { return x.ToPolynomial() })
	}
	if x, ok := e.(interface{ ToMonomialVector() sym.MonomialVector }); ok {
		a("ToMonomialVector", func() any { return x.ToMonomialVector() })
	}
	if x, ok := e.(interface{ ToPolynomialVector() sym.PolynomialVector }); ok {
		a("ToPolynomialVector", func() any { return x.ToPolynomialVector() })
	}
	if x, ok := e.(interface{ ToMonomialMatrix() sym.MonomialMatrix }); ok {
		a("ToMonomialMatrix", func() any { return x.ToMonomialMatrix() })
	}
	if x, ok := e.(interface {
		ToPolynomialMatrix() sym.PolynomialMatrix
	}); ok {
		a("ToPolynomialMatrix", func() any { return x.ToPolynomialMatrix() })
	}
	if x, ok := e.(interface{ ToVecDense() mat.VecDense }); ok {
		a("ToVecDense", func() any { return x.ToVecDense() })
	}
	if x, ok := e.(interface{ ToDense() mat.Dense }); ok {
		a("ToDense", func() any { return x.ToDense() })
	}
	if x, ok := e.(interface{ Copy() sym.Monomial }); ok {
		a("Copy", func() any { return x.Copy() })
	}
	if x, ok := e.(interface{ Copy() sym.Polynomial }); ok {
		a("Copy", func() any { return x.Copy() })
	}
	if x, ok := e.(interface{ Copy() sym.VariableVector }); ok {
		a("Copy", func() any { return x.Copy() })
	}
	switch x := e.(type) {
	case mat.VecDense:
		a("VecDenseToKVector", func() any { return sym.VecDenseToKVector(x) })
		a("KVector.From", func() any { return kvector.From(x) })
		a("ToVectorExpression", func() any { r, err := sym.ToVectorExpression(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case *mat.VecDense:
		a("KVector.From", func() any { return kvector.From(x) })
		a("ToVectorExpression", func() any { r, err := sym.ToVectorExpression(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case mat.Dense:
		a("DenseToKMatrix", func() any { return sym.DenseToKMatrix(x) })
		a("KMatrix.From", func() any { return kmatrix.From(x) })
		a("ToMatrixExpression", func() any { r, err := sym.ToMatrixExpression(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case *mat.Dense:
		a("KMatrix.From", func() any { return kmatrix.From(x) })
		a("ToMatrixExpression", func() any { r, err := sym.ToMatrixExpression(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case sym.KVector:
		a("KVector.From", func() any { return kvector.From(x) })
		a("ToScalarExpressions", func() any { return x.ToScalarExpressions() })
	case sym.VariableVector:
		a("ToScalarExpressions", func() any { return x.ToScalarExpressions() })
	case sym.MonomialVector:
		a("ToScalarExpressions", func() any { return x.ToScalarExpressions() })
	case sym.PolynomialVector:
		a("ToScalarExpressions", func() any { return x.ToScalarExpressions() })
	case sym.KMatrix:
		a("KMatrix.From", func() any { return kmatrix.From(x) })
	}
	switch x := e.(type) {
	case sym.ScalarExpression, float64:
		a("ToScalarExpression", func() any { r, err := sym.ToScalarExpression(x); perr(err); return r })
		a("ToPolynomialLikeScalar", func() any { r, err := sym.ToPolynomialLikeScalar(x); perr(err); return r })
		a("ToPolynomialLike", func() any { r, err := sym.ToPolynomialLike(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case sym.VectorExpression:
		a("ToVectorExpression", func() any { r, err := sym.ToVectorExpression(x); perr(err); return r })
		a("ToPolynomialLikeVector", func() any { r, err := sym.ToPolynomialLikeVector(x); perr(err); return r })
		a("ToPolynomialLike", func() any { r, err := sym.ToPolynomialLike(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	case sym.MatrixExpression:
		a("ToMatrixExpression", func() any { r, err := sym.ToMatrixExpression(x); perr(err); return r })
		a("ToPolynomialLikeMatrix", func() any { r, err := sym.ToPolynomialLikeMatrix(x); perr(err); return r })
		a("ToPolynomialLike", func() any { r, err := sym.ToPolynomialLike(x); perr(err); return r })
		a("ToExpression", func() any { r, err := sym.ToExpression(x); perr(err); return r })
	}
	return o
}

func perr(err error) {
	if err != nil {
		panic(err)
	}
}

func buildConv(cs *[]kase) {
	for _, k := range cat(allKinds, numArrayKinds, []string{"float64"}) {
		k := k
		add(cs, "conversions of "+k, func(g *Gen) *Fail {
			e := g.kind(k, g.dim(), g.dim())
			r, c := shape(e)
			for _, cv := range convs(e) {
				cv := cv
				res, pan, why := call(func() any { return cv.f() })
				name := k + " " + cv.name
				if pan {
					return fail(name, []any{e}, "a result", "panic: "+why)
				}
				if l, ok := res.([]sym.ScalarExpression); ok {
					if len(l) != r {
						return fail(name, []any{e}, fmt.Sprint(r, " entries"), fmt.Sprint(len(l)))
					}
					for i := range l {
						if f := checkResult(name, []any{e}, l[i], 1, 1, func(_, _ int, rho map[uint64]float64) (float64, float64) { return ev(e, i, 0, rho), 1 }, g); f != nil {
							return f
						}
					}
					continue
				}
				if f := checkResult(name, []any{e}, res, r, c, func(i, j int, rho map[uint64]float64) (float64, float64) { return ev(e, i, j, rho), 1 }, g); f != nil {
					return f
				}
			}
			return nil
		})
	}
	add(cs, "Monomial.ToVariable", func(g *Gen) *Fail {
		m := g.monomial()
		if g.p(1, 2) {
			m = sym.Monomial{Coefficient: g.coef(), VariableFactors: []sym.Variable{g.variable()}, Exponents: []int{1 + g.r.Intn(2)}}
			if g.p(1, 2) {
				m.Coefficient = 1
			}
		}
		res, pan, _ := call(func() any { return m.ToVariable() })
		if pan {
			return nil
		}
		if m.Coefficient != 1 || len(m.VariableFactors) != 1 || m.Exponents[0] != 1 || m.VariableFactors[0].ID != res.(sym.Variable).ID {
			return fail("Monomial.ToVariable", []any{m}, "a panic", show(res))
		}
		return nil
	})
	num := func(name string, want [][]float64, f func() any) *Fail {
		res, pan, why := call(f)
		in := []any{fmt.Sprint(want)}
		if pan {
			return fail(name, in, "a result", "panic: "+why)
		}
		r, c := shape(res)
		if r != len(want) || c != len(want[0]) {
			return fail(name, in, "same shape", show(res))
		}
		for i := range want {
			for j := range want[i] {
				if evs(at(res, i, j), nil) != want[i][j] {
					return fail(name, in, "same entries", show(res))
				}
			}
		}
		return nil
	}
	add(cs, "From(slices)", func(g *Gen) *Fail {
		n, m := g.dim(), g.dim()
		var fl [][]float64
		var col [][]float64
		var v []float64
		var iv []int
		var ic [][]float64
		for i := 0; i < n; i++ {
			var row []float64
			for j := 0; j < m; j++ {
				row = append(row, g.coef())
			}
			fl = append(fl, row)
			v = append(v, row[0])
			col = append(col, []float64{row[0]})
			iv = append(iv, g.r.Intn(9)-4)
			ic = append(ic, []float64{float64(iv[i])})
		}
		if f := num("KMatrix.From([][]float64)", fl, func() any { return kmatrix.From(fl) }); f != nil {
			return f
		}
		if f := num("KVector.From([]float64)", col, func() any { return kvector.From(v) }); f != nil {
			return f
		}
		return num("KVector.From([]int)", ic, func() any { return kvector.From(iv) })
	})
	add(cs, "From(ragged)", func(g *Gen) *Fail {
		n := 2 + g.r.Intn(3)
		var fl [][]float64
		for i := 0; i < n; i++ {
			fl = append(fl, make([]float64, 2))
		}
		i := g.r.Intn(n)
		fl[i] = make([]float64, []int{1, 3}[g.r.Intn(2)])
		res, pan, _ := call(func() any { return kmatrix.From(fl) })
		if !pan {
			return fail("KMatrix.From", []any{fmt.Sprint(fl)}, "a panic (ragged rows)", show(res))
		}
		return nil
	})
	add(cs, "constant arrays", func(g *Gen) *Fail {
		r, c := g.dim(), g.dim()
		fill := func(r, c int, f func(i, j int) float64) [][]float64 {
			o := make([][]float64, r)
			for i := range o {
				o[i] = make([]float64, c)
				for j := range o[i] {
					o[i][j] = f(i, j)
				}
			}
			return o
		}
		one := func(i, j int) float64 { return 1 }
		zero := func(i, j int) float64 { return 0 }
		id := func(i, j int) float64 {
			if i == j {
				return 1
			}
			return 0
		}
		for _, q := range []struct {
			n string
			w [][]float64
			f func() any
		}{
			{"OnesVector", fill(r, 1, one), func() any { return sym.OnesVector(r) }},
			{"ZerosVector", fill(r, 1, zero), func() any { return sym.ZerosVector(r) }},
			{"OnesMatrix", fill(r, c, one), func() any { return sym.OnesMatrix(r, c) }},
			{"ZerosMatrix", fill(r, c, zero), func() any { return sym.ZerosMatrix(r, c) }},
			{"Identity", fill(r, r, id), func() any { return sym.Identity(r) }},
		} {
			if f := num(q.n, q.w, q.f); f != nil {
				return f
			}
		}
		return nil
	})
	for _, k := range []string{"vector", "matrix"} {
		k := k
		add(cs, "Concretize "+k, func(g *Gen) *Fail {
			n, m := g.dim(), g.dim()
			if k == "vector" {
				m = 1
			}
			ks := scalarKinds[g.r.Intn(4):]
			var s [][]sym.ScalarExpression
			var col []sym.ScalarExpression
			for i := 0; i < n; i++ {
				var row []sym.ScalarExpression
				for j := 0; j < m; j++ {
					row = append(row, g.kindC(ks[g.r.Intn(len(ks))], 1, 1, true).(sym.ScalarExpression))
				}
				s = append(s, row)
				col = append(col, row[0])
			}
			res, pan, why := call(func() any {
				if k == "vector" {
					return sym.ConcretizeVectorExpression(col)
				}
				return sym.ConcretizeMatrixExpression(s)
			})
			if pan {
				return fail("Concretize "+k, []any{s}, "a result", "panic: "+why)
			}
			return checkResult("Concretize "+k, []any{s}, res, n, m, func(i, j int, rho map[uint64]float64) (float64, float64) { return evs(s[i][j], rho), 1 }, g)
		})
	}
}

// ---------------------------------------------------------------- C23
func buildCompile(cs *[]kase) {
	entry := func(name string, in []any, got sym.ScalarConstraint, c sym.Constraint, i, j int, g *Gen) *Fail {
		l, r, s := sides(c)
		if got.Sense != s {
			return fail(name, in, "sense "+string(rune(s)), show(got))
		}
		for _, q := range []struct{ o, n any }{{l, got.LeftHandSide}, {r, got.RightHandSide}} {
			if f := checkResult(name, in, q.n, 1, 1, func(_, _ int, rho map[uint64]float64) (float64, float64) { return evb(q.o, i, j, rho), 1 }, g); f != nil {
				return f
			}
		}
		return nil
	}
	add(cs, "CompileConstraintsIntoScalarConstraints", func(g *Gen) *Fail {
		var l []sym.Constraint
		for i := 0; i < g.r.Intn(5); i++ {
			l = append(l, g.constraint([]string{"s", "v", "m"}[g.r.Intn(3)], g.p(1, 2)))
		}
		in := []any{l}
		res, pan, why := call(func() any { return sym.CompileConstraintsIntoScalarConstraints(l) })
		name := "CompileConstraintsIntoScalarConstraints"
		if pan {
			return fail(name, in, "a list", "panic: "+why)
		}
		out := res.([]sym.ScalarConstraint)
		k := 0
		for _, c := range l {
			s, _, _ := sides(c)
			r, cc := shape(s)
			for i := 0; i < r; i++ {
				for j := 0; j < cc; j++ {
					if k >= len(out) {
						return fail(name, in, "one constraint per entry", show(out))
					}
					if f := entry(name, in, out[k], c, i, j, g); f != nil {
						return f
					}
					k++
				}
			}
		}
		if k != len(out) {
			return fail(name, in, fmt.Sprint(k, " constraints"), show(out))
		}
		return nil
	})
	add(cs, "VectorConstraint.AtVec", func(g *Gen) *Fail {
		c := g.constraint("v", g.p(1, 2)).(sym.VectorConstraint)
		n, _ := shape(c.LeftHandSide)
		i := g.r.Intn(n)
		res, pan, why := call(func() any { return c.AtVec(i) })
		if pan {
			return fail("VectorConstraint.AtVec", []any{c, i}, "an entry", "panic: "+why)
		}
		if c.Len() != n {
			return fail("VectorConstraint.Len", []any{c}, fmt.Sprint(n), fmt.Sprint(c.Len()))
		}
		return entry(fmt.Sprintf("VectorConstraint.AtVec(%d)", i), []any{c}, res.(sym.ScalarConstraint), c, i, 0, g)
	})
	add(cs, "MatrixConstraint.At", func(g *Gen) *Fail {
		c := g.constraint("m", g.p(1, 2)).(sym.MatrixConstraint)
		n, m := shape(c.LeftHandSide)
		i, j := g.r.Intn(n), g.r.Intn(m)
		res, pan, why := call(func() any { return c.At(i, j) })
		if pan {
			return fail("MatrixConstraint.At", []any{c, i, j}, "an entry", "panic: "+why)
		}
		return entry(fmt.Sprintf("MatrixConstraint.At(%d,%d)", i, j), []any{c}, res.(sym.ScalarConstraint), c, i, j, g)
	})
	for _, k := range []string{"s", "v", "m"} {
		k := k
		add(cs, "sides of constraint "+k, func(g *Gen) *Fail {
			c := g.constraint(k, g.p(1, 2))
			l, r, s := sides(c)
			if show(c.Left()) != show(l) || show(c.Right()) != show(r) || c.ConstrSense() != s {
				return fail("Left/Right/ConstrSense", []any{c}, "the sides and sense of the constraint", show(c.Left())+show(c.Right()))
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------- C25
func (g *Gen) malform(k string, r, c int) any {
	e := g.kind(k, r, c)
	badM := func() sym.Monomial {
		m := g.monomial()
		if g.p(1, 2) {
			m.Exponents = append(m.Exponents[:len(m.Exponents):len(m.Exponents)], 1)
		} else {
			m.VariableFactors = append(m.VariableFactors[:len(m.VariableFactors):len(m.VariableFactors)], g.variable())
		}
		return m
	}
	badP := func() sym.Polynomial {
		if g.p(1, 3) {
			return sym.Polynomial{}
		}
		p := g.polynomial(false)
		i := g.r.Intn(len(p.Monomials))
		p.Monomials[i] = badM()
		return p
	}
	badV := func() sym.Variable {
		v := g.variable()
		v.Lower, v.Upper = 3, 1+2*float64(g.r.Intn(2))
		return v
	}
	switch x := e.(type) {
	case sym.Variable:
		return badV()
	case sym.Monomial:
		return badM()
	case sym.Polynomial:
		return badP()
	case sym.VariableVector:
		x[g.r.Intn(len(x))] = badV()
	case sym.MonomialVector:
		x[g.r.Intn(len(x))] = badM()
	case sym.PolynomialVector:
		x[g.r.Intn(len(x))] = badP()
	case sym.MonomialMatrix:
		i := g.r.Intn(len(x))
		if g.p(1, 2) && len(x) > 1 {
			x[i] = append(x[i][:len(x[i]):len(x[i])], g.monomial())
		} else {
			x[i][g.r.Intn(len(x[i]))] = badM()
		}
	case sym.PolynomialMatrix:
		i := g.r.Intn(len(x))
		if g.p(1, 2) && len(x) > 1 {
			x[i] = append(x[i][:len(x[i]):len(x[i])], g.polynomial(true))
		} else {
			x[i][g.r.Intn(len(x[i]))] = badP()
		}
	case sym.VariableMatrix:
		i := g.r.Intn(len(x))
		if g.p(1, 2) && len(x) > 1 {
			x[i] = append(x[i][:len(x[i]):len(x[i])], g.variable())
		} else {
			x[i][g.r.Intn(len(x[i]))] = badV()
		}
	case sym.KMatrix:
		if len(x) > 1 {
			i := g.r.Intn(len(x))
			x[i] = append(x[i][:len(x[i]):len(x[i])], 1)
		} else {
			return nil
		}
	default:
		return nil
	}
	return e
}

func buildMalformed(cs *[]kase) {
	rej := func(name string, in []any, f func() any) *Fail {
		res, pan, _ := call(f)
		if !pan {
			return fail(name, in, "a panic (malformed operand)", show(res))
		}
		return nil
	}
	for _, a := range allKinds {
		a := a
		for _, b := range argKinds {
			for _, op := range []string{"Plus", "Minus", "Multiply", "Comparison<"} {
				b, op := b, op
				add(cs, a+"."+op+"("+b+")", func(g *Gen) *Fail {
					x, y := g.fitted(op, a, b)
					r1, c1 := shape(x)
					r2, c2 := shape(y)
					if g.p(1, 2) {
						x = g.malform(a, r1, c1)
					} else {
						y = g.malform(b, r2, c2)
					}
					if x == nil || y == nil {
						return nil
					}
					if numToExpr(y) != nil && numToExpr(y).Check() == nil && x.(sym.Expression).Check() == nil {
						return fail("Check", []any{x, y}, "an error for the malformed operand", "no error")
					}
					return rej(a+"."+op+"("+b+")", []any{x, y}, binop(op, x.(sym.Expression), y))
				})
			}
		}
		add(cs, a+".DerivativeWrt", func(g *Gen) *Fail {
			x := g.malform(a, g.dim(), g.dim())
			if x == nil {
				return nil
			}
			v := g.variable()
			return rej(a+".DerivativeWrt", []any{x, v}, func() any { return x.(sym.Expression).DerivativeWrt(v) })
		})
		add(cs, a+".Check", func(g *Gen) *Fail {
			x := g.malform(a, g.dim(), g.dim())
			if x != nil {
				err, pan, _ := call(func() any { return x.(sym.Expression).Check() == nil })
				if !pan && err.(bool) {
					return fail(a+".Check", []any{x}, "an error", "no error")
				}
			}
			y := g.kind(a, g.dim(), g.dim()).(sym.Expression)
			err, pan, why := call(func() any { return y.Check() == nil })
			if pan || !err.(bool) {
				return fail(a+".Check", []any{y}, "no error", "an error "+why)
			}
			return nil
		})
	}
}

// ---------------------------------------------------------------- C26
func buildClosure(cs *[]kase) {
	well := func(name string, in []any, f func() any) *Fail {
		res, pan, _ := call(f)
		if pan {
			return nil
		}
		ex, ok := res.(sym.Expression)
		if !ok {
			return fail(name, in, "an expression", fmt.Sprintf("%T", res))
		}
		if w := wf(res); w != "" {
			return fail(name, in, "a well-formed result", w+": "+show(res))
		}
		got, pan, why := call(func() any { return ex.Check() == nil })
		if pan || !got.(bool) {
			return fail(name, in, "a result that passes its validity check", show(res)+why)
		}
		return nil
	}
	for _, a := range allKinds {
		a := a
		for _, b := range argKinds {
			for _, op := range []string{"Plus", "Minus", "Multiply"} {
				b, op := b, op
				add(cs, a+"."+op+"("+b+")", func(g *Gen) *Fail {
					x, y := g.fitted(op, a, b)
					return well(a+"."+op+"("+b+")", []any{x, y}, binop(op, x.(sym.Expression), y))
				})
			}
		}
		un := func(n string, f func(g *Gen, e sym.Expression) func() any) {
			add(cs, a+"."+n, func(g *Gen) *Fail {
				e := g.kind(a, g.dim(), g.dim()).(sym.Expression)
				if n == "Power" {
					lowExps(e)
					if !isScalarKind(a) {
						e = g.kind(a, 1+g.r.Intn(2), 1).(sym.Expression)
					}
				}
				if n == "Substitute" || n == "SubstituteAccordingTo" {
					lowExps(e)
				}
				return well(a+"."+n, []any{e}, f(g, e))
			})
		}
		un("DerivativeWrt", func(g *Gen, e sym.Expression) func() any {
			v := g.variable()
			return func() any { return e.DerivativeWrt(v) }
		})
		un("Transpose", func(g *Gen, e sym.Expression) func() any { return func() any { return e.Transpose() } })
		un("AsSimplifiedExpression", func(g *Gen, e sym.Expression) func() any { return func() any { return e.AsSimplifiedExpression() } })
		un("Power", func(g *Gen, e sym.Expression) func() any {
			n := g.r.Intn(4)
			return func() any { return e.Power(n) }
		})
		un("Substitute", func(g *Gen, e sym.Expression) func() any {
			v, s := g.variable(), g.replacement()
			return func() any { return e.Substitute(v, s) }
		})
		un("SubstituteAccordingTo", func(g *Gen, e sym.Expression) func() any {
			m := g.subMap()
			return func() any { return e.SubstituteAccordingTo(m) }
		})
	}
	for _, h := range []bool{true, false} {
		h := h
		name := map[bool]string{true: "HStack", false: "VStack"}[h]
		add(cs, name, func(g *Gen) *Fail {
			es, _, _ := g.blocks(h)
			var in []any
			for _, e := range es {
				in = append(in, e)
			}
			return well(name, in, func() any {
				if h {
					return sym.HStack(es...)
				}
				return sym.VStack(es...)
			})
		})
	}
}
