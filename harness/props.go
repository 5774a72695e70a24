package main

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"

	kmatrix "github.com/MatProGo-dev/SymbolicMath.go/get/KMatrix"
	kvector "github.com/MatProGo-dev/SymbolicMath.go/get/KVector"
	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// Fail is one violation of an executable contract.
type Fail struct{ Op, In, Want, Got string }

type trial func(g *Gen) *Fail

type kase struct {
	name string
	run  trial
	fns  []string // functions of the repository this case exercises (for bounded stand-ins)
}

func fail(op string, in []any, want, got string) *Fail {
	var s []string
	for _, x := range in {
		s = append(s, show(x))
	}
	return &Fail{op, strings.Join(s, "  ;  "), want, got}
}

// call runs f and reports how it ended.
func call(f func() any) (res any, panicked bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			if b, ok := r.(bad); ok {
				panic(b)
			}
			res, panicked = nil, true
			why = fmt.Sprint(safeStr(r))
			if re, ok := r.(runtime.Error); ok {
				why = "runtime error: " + re.Error()
			}
		}
	}()
	return f(), false, ""
}

func safeStr(r any) (s string) {
	defer func() {
		if recover() != nil {
			s = fmt.Sprintf("panic value of type %T", r)
		}
	}()
	if e, ok := r.(error); ok {
		return e.Error()
	}
	return fmt.Sprint(r)
}

func numToExpr(x any) sym.Expression {
	switch v := x.(type) {
	case float64:
		return sym.K(v)
	case int:
		return sym.K(float64(v))
	case sym.Expression:
		return v
	}
	return nil
}

func binop(op string, a sym.Expression, b any) func() any {
	return func() any {
		switch op {
		case "Plus":
			return a.Plus(b)
		case "Minus":
			return a.Minus(b)
		case "Multiply":
			return a.Multiply(b)
		case "LessEq":
			return a.LessEq(b)
		case "GreaterEq":
			return a.GreaterEq(b)
		case "Eq":
			return a.Eq(b)
		case "Comparison<":
			return a.Comparison(b, sym.SenseLessThanEqual)
		case "Comparison>":
			return a.Comparison(b, sym.SenseGreaterThanEqual)
		case "Comparison=":
			return a.Comparison(b, sym.SenseEqual)
		}
		panic("op")
	}
}

func senseOf(op string) sym.ConstrSense {
	switch op {
	case "LessEq", "Comparison<":
		return sym.SenseLessThanEqual
	case "GreaterEq", "Comparison>":
		return sym.SenseGreaterThanEqual
	}
	return sym.SenseEqual
}

// expected shape of a result, ok=false if the dimensions do not fit
func expShape(op string, a, b any) (int, int, bool) {
	ra, ca := shape(a)
	rb, cb := shape(b)
	switch op {
	case "Plus", "Minus":
		if isUnit(a) {
			return rb, cb, true
		}
		if isUnit(b) || (ra == rb && ca == cb) {
			return ra, ca, true
		}
		return 0, 0, false
	case "Multiply":
		if isUnit(a) {
			return rb, cb, true
		}
		if isUnit(b) {
			return ra, ca, true
		}
		if ca == rb {
			return ra, cb, true
		}
		return 0, 0, false
	}
	if isUnit(a) {
		return rb, cb, true
	}
	if isUnit(b) || (ra == rb && ca == cb) {
		return ra, ca, true
	}
	return 0, 0, false
}

// expected value of entry (i,j) and a magnitude for the tolerance
func expVal(op string, a, b any, i, j int, rho map[uint64]float64) (float64, float64) {
	switch op {
	case "Plus":
		x, y := evb(a, i, j, rho), evb(b, i, j, rho)
		return x + y, math.Abs(x) + math.Abs(y)
	case "Minus":
		x, y := evb(a, i, j, rho), evb(b, i, j, rho)
		return x - y, math.Abs(x) + math.Abs(y)
	}
	if isUnit(a) || isUnit(b) {
		x, y := evb(a, i, j, rho), evb(b, i, j, rho)
		return x * y, math.Abs(x * y)
	}
	_, n := shape(a)
	s, m := 0.0, 0.0
	for k := 0; k < n; k++ {
		t := ev(a, i, k, rho) * ev(b, k, j, rho)
		s += t
		m += math.Abs(t)
	}
	return s, m
}

// checkResult compares a returned expression with expected shape and values.
func checkResult(op string, in []any, res any, r, c int, want func(i, j int, rho map[uint64]float64) (float64, float64), g *Gen) (f *Fail) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(bad); ok {
				f = fail(op, in, "a well-formed result", b.msg+" in "+show(res))
				return
			}
			f = fail(op, in, "a readable result", fmt.Sprint("reading the result panicked: ", safeStr(x), " in ", show(res)))
		}
	}()
	if res == nil {
		return fail(op, in, "a result", "nil")
	}
	rr, cc := shape(res)
	if rr != r || cc != c {
		return fail(op, in, fmt.Sprintf("dimensions (%d,%d)", r, c), fmt.Sprintf("(%d,%d): %s", rr, cc, show(res)))
	}
	for t := 0; t < 2; t++ {
		rho := g.rho()
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				w, m := want(i, j, rho)
				x := ev(res, i, j, rho)
				if !sameScale(x, w, m+mag(res, i, j, rho)) {
					return fail(op, in, fmt.Sprintf("entry (%d,%d) evaluates to %v at %s", i, j, w, show(rho)),
						fmt.Sprintf("%v: %s", x, show(res)))
				}
			}
		}
	}
	return nil
}

func valueCase(op, ka, kb string, mustReturn bool) trial {
	return func(g *Gen) *Fail {
		r, c := g.dim(), g.dim()
		ra, ca, rb, cb := r, c, r, c
		if op == "Multiply" && !isScalarKind(ka) && !isScalarKind(kb) {
			rb = ca
			if isVectorKind(ka) {
				rb = 1
				if isVectorKind(kb) {
					cb = 1
				}
			} else if g.p(1, 2) {
				cb = g.dim()
			}
		}
		if g.p(1, 10) {
			ra, ca = 1, 1
		} else if g.p(1, 10) {
			rb, cb = 1, 1
		}
		if isVectorKind(ka) && isMatrixKind(kb) && op != "Multiply" {
			cb, ca = 1, 1
		}
		if isMatrixKind(ka) && isVectorKind(kb) && op != "Multiply" {
			ca = 1
		}
		a := g.kind(ka, ra, ca)
		b := g.kind(kb, rb, cb)
		if m, ok := a.(sym.Monomial); ok && g.p(1, 2) {
			if _, ok := b.(sym.Monomial); ok {
				b = g.near(m)
			}
			if p, ok := b.(sym.Polynomial); ok {
				p.Monomials = append(p.Monomials[:len(p.Monomials):len(p.Monomials)], g.near(m))
				b = p
			}
		}
		if p, ok := a.(sym.Polynomial); ok && g.p(1, 2) {
			if _, ok := b.(sym.Monomial); ok {
				b = g.near(p.Monomials[g.r.Intn(len(p.Monomials))])
			}
			if q, ok := b.(sym.Polynomial); ok {
				q.Monomials = append(q.Monomials[:len(q.Monomials):len(q.Monomials)], g.near(p.Monomials[g.r.Intn(len(p.Monomials))]))
				b = q
			}
		}
		name := fmt.Sprintf("%s.%s(%s)", ka, op, kb)
		rr, cc, fits := expShape(op, a, b)
		in := []any{a, b}
		if !fits {
			return nil
		}
		ae := numToExpr(a)
		// the expected values are computed from the operands before the call
		rho := g.rho()
		type wv struct{ w, m float64 }
		want := make([]wv, rr*cc)
		for i := 0; i < rr; i++ {
			for j := 0; j < cc; j++ {
				w, m := expVal(op, a, b, i, j, rho)
				want[i*cc+j] = wv{w, m}
			}
		}
		instr := []any{show(a), show(b)}
		_ = instr
		res, pan, why := call(binop(op, ae, b))
		if pan {
			if mustReturn {
				return fail(name, in, "a result", "panic: "+why)
			}
			return nil
		}
		f := checkResult(name, in, res, rr, cc, func(i, j int, _ map[uint64]float64) (float64, float64) {
			return want[i*cc+j].w, want[i*cc+j].m
		}, &Gen{r: g.r, vars: g.vars, size: g.size, log: nil, fixedRho: rho})
		return f
	}
}

func add(cs *[]kase, name string, t trial, fns ...string) { *cs = append(*cs, kase{name, t, fns}) }

func build(prop string) []kase {
	var cs []kase
	all := cat(scalarKinds, vectorKinds, matrixKinds)
	switch prop {
	case "C01", "C02", "C03":
		op := map[string]string{"C01": "Plus", "C02": "Minus", "C03": "Multiply"}[prop]
		for _, a := range scalarKinds {
			for _, b := range cat(scalarKinds, numScalarKinds) {
				add(&cs, a+"."+op+"("+b+")", valueCase(op, a, b, b != "int"))
			}
		}
	case "C05":
		for _, a := range all {
			for _, b := range cat(all, numScalarKinds, numArrayKinds) {
				if isMatrixKind(a) || isMatrixKind(b) || (isScalarKind(a) && isScalarKind(b)) {
					continue
				}
				for _, op := range []string{"Plus", "Minus", "Multiply"} {
					add(&cs, a+"."+op+"("+b+")", valueCase(op, a, b, false))
				}
			}
		}
	case "C06":
		for _, a := range all {
			for _, b := range cat(all, numScalarKinds, numArrayKinds) {
				if !isMatrixKind(a) && !isMatrixKind(b) {
					continue
				}
				for _, op := range []string{"Plus", "Minus", "Multiply"} {
					add(&cs, a+"."+op+"("+b+")", valueCase(op, a, b, false))
				}
			}
		}
	case "C04":
		add(&cs, "Polynomial.Simplify", func(g *Gen) *Fail {
			p := g.polynomial(g.p(1, 4))
			return simpl(g, "Polynomial.Simplify", p, func() any { return p.Simplify() }, true)
		})
		for _, k := range all {
			k := k
			add(&cs, k+".AsSimplifiedExpression", func(g *Gen) *Fail {
				e := g.kindC(k, g.dim(), g.dim(), g.p(1, 2)).(sym.Expression)
				return simpl(g, k+".AsSimplifiedExpression", e, func() any { return e.AsSimplifiedExpression() }, true)
			})
		}
		add(&cs, "PolynomialVector.Simplify", func(g *Gen) *Fail {
			e := g.kindC("PV", g.dim(), 1, false).(sym.PolynomialVector)
			return simpl(g, "PolynomialVector.Simplify", e, func() any { return e.Simplify() }, true)
		})
		add(&cs, "PolynomialMatrix.Simplify", func(g *Gen) *Fail {
			e := g.kindC("PM", g.dim(), g.dim(), false).(sym.PolynomialMatrix)
			return simpl(g, "PolynomialMatrix.Simplify", e, func() any { return e.Simplify() }, true)
		})
		add(&cs, "ConcretizeExpression(slice)", func(g *Gen) *Fail {
			n := g.dim()
			var s []sym.ScalarExpression
			for i := 0; i < n; i++ {
				s = append(s, g.kindC(scalarKinds[g.r.Intn(4)], 1, 1, true).(sym.ScalarExpression))
			}
			res, pan, why := call(func() any { return sym.ConcretizeExpression(s) })
			if pan {
				return fail("ConcretizeExpression", []any{s}, "a result", "panic: "+why)
			}
			return checkResult("ConcretizeExpression", []any{s}, res, n, 1, func(i, j int, rho map[uint64]float64) (float64, float64) {
				return evs(s[i], rho), 1
			}, g)
		})
		add(&cs, "ConcretizeExpression(matrix)", func(g *Gen) *Fail {
			n, m := g.dim(), g.dim()
			var s [][]sym.ScalarExpression
			for i := 0; i < n; i++ {
				var row []sym.ScalarExpression
				for j := 0; j < m; j++ {
					row = append(row, g.kindC(scalarKinds[g.r.Intn(4)], 1, 1, true).(sym.ScalarExpression))
				}
				s = append(s, row)
			}
			res, pan, why := call(func() any { return sym.ConcretizeExpression(s) })
			if pan {
				return fail("ConcretizeExpression", []any{s}, "a result", "panic: "+why)
			}
			return checkResult("ConcretizeExpression", []any{s}, res, n, m, func(i, j int, rho map[uint64]float64) (float64, float64) {
				return evs(s[i][j], rho), 1
			}, g)
		})
		// results of operations on simplified operands are simplified
		for _, a := range scalarKinds {
			for _, b := range scalarKinds {
				a, b := a, b
				for _, op := range []string{"Plus", "Minus"} {
					op := op
					add(&cs, "simplified result of "+a+"."+op+"("+b+")", func(g *Gen) *Fail {
						x := g.kindC(a, 1, 1, true).(sym.Expression)
						y := g.kindC(b, 1, 1, true)
						res, pan, _ := call(binop(op, x, y))
						if pan {
							return nil
						}
						if p, ok := res.(sym.Polynomial); ok {
							if w := canonical(p); w != "" {
								return fail(a+"."+op+"("+b+")", []any{x, y}, "a result without like or zero terms", w+" in "+show(p))
							}
						}
						return nil
					})
				}
			}
		}
	case "C07":
		for _, k := range all {
			k := k
			add(&cs, k+".Power", func(g *Gen) *Fail {
				n := g.r.Intn(5)
				if g.p(1, 10) {
					n = 5 + g.r.Intn(4)
				}
				if g.p(1, 10) {
					n = -1 - g.r.Intn(3)
				}
				d := 1 + g.r.Intn(2)
				if g.p(1, 6) {
					d = 3
				}
				if n > 4 && !isScalarKind(k) {
					n = 3
				}
				if isVectorKind(k) || isScalarKind(k) {
					d = 1
				}
				e := g.kindC(k, d, d, true).(sym.Expression)
				if p, ok := e.(sym.Polynomial); ok && n > 3 && len(p.Monomials) > 3 {
					p.Monomials = p.Monomials[:2]
					e = p
				}
				name := fmt.Sprintf("%s.Power(%d)", k, n)
				rho := g.rho()
				want := powVal(e, n, d, rho)
				res, pan, why := call(func() any { return e.Power(n) })
				if n < 0 {
					if !pan {
						return fail(name, []any{e}, "a panic (negative exponent)", show(res))
					}
					return nil
				}
				if pan {
					return fail(name, []any{e}, "a result", "panic: "+why)
				}
				return checkResult(name, []any{e}, res, d, d, func(i, j int, _ map[uint64]float64) (float64, float64) {
					return want[i][j], 1e3*math.Abs(want[i][j]) + math.Pow(mag(e, 0, 0, rho), float64(n))
				}, &Gen{r: g.r, vars: g.vars, fixedRho: rho})
			})
		}
	case "C08":
		for _, k := range all {
			k := k
			add(&cs, k+".DerivativeWrt", func(g *Gen) *Fail {
				r, c := g.dim(), g.dim()
				e := g.kind(k, r, c).(sym.Expression)
				r, c = shape(e)
				v := g.variable()
				in := []any{show(e), v}
				rho := g.rho()
				want := make([]float64, r*c)
				for i := 0; i < r; i++ {
					for j := 0; j < c; j++ {
						want[i*c+j] = dval(at(e, i, j), v.ID, rho)
					}
				}
				res, pan, why := call(func() any { return e.DerivativeWrt(v) })
				if pan {
					return fail(k+".DerivativeWrt", in, "a result", "panic: "+why)
				}
				return checkResult(k+".DerivativeWrt", in, res, r, c, func(i, j int, _ map[uint64]float64) (float64, float64) {
					return want[i*c+j], math.Abs(want[i*c+j])
				}, &Gen{r: g.r, vars: g.vars, fixedRho: rho})
			})
		}
	case "C09":
		for _, k := range all {
			k := k
			add(&cs, k+".Substitute", func(g *Gen) *Fail { return substTrial(g, k, false) })
			add(&cs, k+".SubstituteAccordingTo", func(g *Gen) *Fail { return substTrial(g, k, true) })
		}
		for _, k := range []string{"s", "v", "m"} {
			k := k
			add(&cs, "constraint "+k+" Substitute", func(g *Gen) *Fail { return substConstr(g, k, false) })
			add(&cs, "constraint "+k+" SubstituteAccordingTo", func(g *Gen) *Fail { return substConstr(g, k, true) })
		}
	case "C10":
		buildFrames(&cs)
	case "C11":
		buildLinear(&cs)
	case "C12":
		buildRepr(&cs)
	case "C13":
		for _, a := range all {
			for _, b := range cat(all, numScalarKinds, numArrayKinds) {
				for _, op := range []string{"LessEq", "GreaterEq", "Eq", "Comparison<", "Comparison>", "Comparison="} {
					add(&cs, a+"."+op+"("+b+")", cmpCase(op, a, b))
				}
			}
		}
	case "C14":
		buildConstrSimpl(&cs)
	case "C15":
		add(&cs, "implication", implTrial)
		add(&cs, "implication of linear bounds", implLinTrial)
	case "C16":
		add(&cs, "nonnegativity", nonnegTrial)
	case "C17":
		buildDims(&cs)
	case "C18":
		buildEntries(&cs)
	case "C19":
		buildVars(&cs)
	case "C20":
		add(&cs, "creation history", envTrial)
	case "C21":
		for _, k := range cat(all, []string{"float64"}) {
			k := k
			add(&cs, k+".Degree", func(g *Gen) *Fail {
				e := g.kind(k, g.dim(), g.dim())
				want := degreeOf(e)
				if d, ok := e.(interface{ Degree() int }); ok {
					got, pan, why := call(func() any { return d.Degree() })
					if pan {
						return fail(k+".Degree", []any{e}, fmt.Sprint(want), "panic: "+why)
					}
					if got.(int) != want {
						return fail(k+".Degree", []any{e}, fmt.Sprint(want), fmt.Sprint(got))
					}
				}
				ex, ok := e.(sym.Expression)
				if !ok {
					return nil
				}
				for _, q := range []struct {
					n string
					d int
					f func(sym.Expression) bool
				}{{"IsLinear", 1, sym.IsLinear}, {"IsQuadratic", 2, sym.IsQuadratic}} {
					got, pan, why := call(func() any { return q.f(ex) })
					if pan {
						return fail(q.n, []any{e}, fmt.Sprint(want <= q.d), "panic: "+why)
					}
					if got.(bool) != (want <= q.d) {
						return fail(q.n, []any{e}, fmt.Sprint(want <= q.d), fmt.Sprint(got))
					}
				}
				return nil
			})
		}
		for _, k := range []string{"s", "v", "m"} {
			k := k
			add(&cs, "IsLinear of constraint "+k, func(g *Gen) *Fail {
				c := g.constraint(k, g.p(1, 2))
				want := degreeOf(c.Left()) <= 1 && degreeOf(c.Right()) <= 1
				got, pan, why := call(func() any { return c.IsLinear() })
				if pan {
					return fail("IsLinear", []any{c}, fmt.Sprint(want), "panic: "+why)
				}
				if got.(bool) != want {
					return fail("IsLinear", []any{c}, fmt.Sprint(want), fmt.Sprint(got))
				}
				return nil
			})
		}
	case "C22":
		buildConv(&cs)
	case "C23":
		buildCompile(&cs)
	case "C24":
		buildIndex(&cs)
	case "C25":
		buildMalformed(&cs)
	case "C26":
		buildClosure(&cs)
	}
	return cs
}

func simpl(g *Gen, name string, e any, f func() any, canon bool) *Fail {
	r, c := shape(e)
	res, pan, why := call(f)
	if pan {
		return fail(name, []any{e}, "a result", "panic: "+why)
	}
	if x := checkResult(name, []any{e}, res, r, c, func(i, j int, rho map[uint64]float64) (float64, float64) {
		return ev(e, i, j, rho), mag(e, i, j, rho)
	}, g); x != nil {
		return x
	}
	if canon {
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				if p, ok := at(res, i, j).(sym.Polynomial); ok {
					if w := canonical(p); w != "" {
						return fail(name, []any{e}, "no like or zero terms", w+" in "+show(res))
					}
				}
			}
		}
	}
	return nil
}

func powVal(e any, n, d int, rho map[uint64]float64) [][]float64 {
	o := make([][]float64, d)
	for i := range o {
		o[i] = make([]float64, d)
		o[i][i] = 1
	}
	for t := 0; t < n; t++ {
		q := make([][]float64, d)
		for i := range q {
			q[i] = make([]float64, d)
			for j := range q[i] {
				for k := 0; k < d; k++ {
					q[i][j] += o[i][k] * ev(e, k, j, rho)
				}
			}
		}
		o = q
	}
	return o
}

// small scalar used as a replacement
func (g *Gen) replacement() sym.ScalarExpression {
	switch g.r.Intn(6) {
	case 0:
		return sym.K(g.coef())
	case 1, 2:
		return g.variable()
	case 3:
		m := g.monomial()
		for i := range m.Exponents {
			m.Exponents[i] = 1
		}
		return m
	}
	p := g.linearPoly()
	if len(p.Monomials) > 2 {
		p.Monomials = p.Monomials[:2]
	}
	return p
}

func (g *Gen) subMap() map[sym.Variable]sym.Expression {
	o := map[sym.Variable]sym.Expression{}
	n := g.r.Intn(len(g.vars) + 1)
	for _, ix := range g.r.Perm(len(g.vars))[:n] {
		o[g.vars[ix]] = g.replacement()
	}
	if g.p(1, 3) && len(g.vars) > 1 {
		o[g.vars[0]], o[g.vars[1]] = g.vars[1], g.vars[0]
	}
	return o
}

func lowExps(e any) {
	f := func(m sym.Monomial) {
		for i := range m.Exponents {
			if m.Exponents[i] > 3 {
				m.Exponents[i] = 3
			}
		}
	}
	switch x := e.(type) {
	case sym.Monomial:
		f(x)
	case sym.Polynomial:
		for _, m := range x.Monomials {
			f(m)
		}
	case float64, int, sym.K, sym.Variable:
	default:
		r, c := shape(e)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				lowExps(at(e, i, j))
			}
		}
	}
}

func substRho(m map[sym.Variable]sym.Expression, rho map[uint64]float64) map[uint64]float64 {
	o := map[uint64]float64{}
	for k, v := range rho {
		o[k] = v
	}
	for v, e := range m {
		o[v.ID] = evs(e, rho)
	}
	return o
}

func substTrial(g *Gen, k string, useMap bool) *Fail {
	e := g.kind(k, 1+g.r.Intn(3), 1+g.r.Intn(2)).(sym.Expression)
	lowExps(e)
	r, c := shape(e)
	m := map[sym.Variable]sym.Expression{}
	var v sym.Variable
	var s sym.ScalarExpression
	name := k + ".Substitute"
	var f func() any
	if useMap {
		m = g.subMap()
		name = k + ".SubstituteAccordingTo"
		f = func() any { return e.SubstituteAccordingTo(m) }
	} else {
		v, s = g.variable(), g.replacement()
		m[v] = s
		f = func() any { return e.Substitute(v, s) }
	}
	rho := g.rho()
	rho1 := substRho(m, rho)
	res, pan, why := call(f)
	in := []any{e, m}
	if pan {
		return fail(name, in, "a result", "panic: "+why)
	}
	return checkResult(name, in, res, r, c, func(i, j int, _ map[uint64]float64) (float64, float64) {
		w := ev(e, i, j, rho1)
		return w, 1e3*math.Abs(w) + 1e3
	}, &Gen{r: g.r, vars: g.vars, fixedRho: rho})
}

// constraint of a shape class; lin: both sides of degree at most one
func (g *Gen) constraint(k string, lin bool) sym.Constraint {
	sense := []sym.ConstrSense{sym.SenseEqual, sym.SenseLessThanEqual, sym.SenseGreaterThanEqual}[g.r.Intn(3)]
	switch k {
	case "s":
		sd := func() sym.ScalarExpression {
			if lin {
				return g.linearScalar()
			}
			return g.kind(scalarKinds[g.r.Intn(4)], 1, 1).(sym.ScalarExpression)
		}
		return sym.ScalarConstraint{LeftHandSide: sd(), RightHandSide: sd(), Sense: sense}
	case "v":
		n := g.dim()
		sd := func() sym.VectorExpression {
			if lin {
				return g.linearVector(n)
			}
			return g.kind(vectorKinds[g.r.Intn(4)], n, 1).(sym.VectorExpression)
		}
		return sym.VectorConstraint{LeftHandSide: sd(), RightHandSide: sd(), Sense: sense}
	}
	n, c := g.dim(), g.dim()
	sd := func() sym.MatrixExpression {
		if lin {
			if g.p(1, 2) {
				return g.kind("VM", n, c).(sym.MatrixExpression)
			}
			return g.kind("KM", n, c).(sym.MatrixExpression)
		}
		return g.kind(matrixKinds[g.r.Intn(4)], n, c).(sym.MatrixExpression)
	}
	return sym.MatrixConstraint{LeftHandSide: sd(), RightHandSide: sd(), Sense: sense}
}

func (g *Gen) linearVector(n int) sym.VectorExpression {
	switch g.r.Intn(4) {
	case 0:
		return g.kind("KV", n, 1).(sym.VectorExpression)
	case 1:
		return g.kind("VV", n, 1).(sym.VectorExpression)
	case 2:
		o := make(sym.MonomialVector, n)
		for i := range o {
			o[i] = sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{g.variable()}, Exponents: []int{1}}
			if g.p(1, 4) {
				o[i] = sym.Monomial{Coefficient: g.coef(), VariableFactors: []sym.Variable{}, Exponents: []int{}}
			}
		}
		return o
	}
	o := make(sym.PolynomialVector, n)
	for i := range o {
		o[i] = g.linearPoly()
	}
	return o
}

func sides(c any) (any, any, sym.ConstrSense) {
	switch x := c.(type) {
	case sym.ScalarConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	case sym.VectorConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	case sym.MatrixConstraint:
		return x.LeftHandSide, x.RightHandSide, x.Sense
	}
	panic(bad{fmt.Sprintf("not a constraint: %T", c)})
}

func substConstr(g *Gen, k string, useMap bool) *Fail {
	c := g.constraint(k, g.p(1, 2))
	l, r, s := sides(c)
	lowExps(l)
	lowExps(r)
	m := map[sym.Variable]sym.Expression{}
	var f func() any
	name := "constraint.Substitute"
	if useMap {
		m = g.subMap()
		name = "constraint.SubstituteAccordingTo"
		f = func() any { return c.SubstituteAccordingTo(m) }
	} else {
		v, se := g.variable(), g.replacement()
		m[v] = se
		f = func() any { return c.Substitute(v, se) }
	}
	rho := g.rho()
	rho1 := substRho(m, rho)
	in := []any{c, m}
	res, pan, why := call(f)
	if pan {
		return fail(name, in, "a result", "panic: "+why)
	}
	l2, r2, s2 := sides(res)
	if s2 != s {
		return fail(name, in, "the same sense", show(res))
	}
	gg := &Gen{r: g.r, vars: g.vars, fixedRho: rho}
	for _, q := range []struct{ o, n any }{{l, l2}, {r, r2}} {
		a, b := shape(q.o)
		if x := checkResult(name, in, q.n, a, b, func(i, j int, _ map[uint64]float64) (float64, float64) {
			w := ev(q.o, i, j, rho1)
			return w, 1e3*math.Abs(w) + 1e3
		}, gg); x != nil {
			return x
		}
	}
	return nil
}

func cmpCase(op, ka, kb string) trial {
	return func(g *Gen) *Fail {
		r, c := g.dim(), g.dim()
		ra, ca, rb, cb := r, c, r, c
		if g.p(1, 10) {
			ra, ca = 1, 1
		} else if g.p(1, 10) {
			rb, cb = 1, 1
		}
		a, b := g.kind(ka, ra, ca), g.kind(kb, rb, cb)
		name := ka + "." + op + "(" + kb + ")"
		rr, cc, fits := expShape(op, a, b)
		if !fits {
			return nil
		}
		in := []any{a, b}
		res, pan, _ := call(binop(op, a.(sym.Expression), b))
		if pan {
			return nil
		}
		l, rh, s := sides(res)
		if s != senseOf(op) {
			return fail(name, in, "sense "+string(rune(senseOf(op))), show(res))
		}
		for _, q := range []struct{ o, n any }{{a, l}, {b, rh}} {
			er, ec := rr, cc
			if isUnit(q.n) && isUnit(q.o) {
				er, ec = 1, 1
			}
			if x := checkResult(name, in, q.n, er, ec, func(i, j int, rho map[uint64]float64) (float64, float64) {
				return evb(q.o, i, j, rho), 1e3
			}, g); x != nil {
				return x
			}
		}
		// both sides of a constraint have the same shape unless a side is a single scalar
		return nil
	}
}

func holds(c any, rho map[uint64]float64) (bool, bool) { // value, decisive
	l, r, s := sides(c)
	rr, cc := shape(l)
	r2, c2 := shape(r)
	if rr*cc < r2*c2 {
		rr, cc = r2, c2
	}
	ok, dec := true, true
	for i := 0; i < rr; i++ {
		for j := 0; j < cc; j++ {
			x, y := evb(l, i, j, rho), evb(r, i, j, rho)
			if x != y && same(x, y) {
				dec = false
			}
			switch s {
			case sym.SenseEqual:
				ok = ok && x == y
			case sym.SenseLessThanEqual:
				ok = ok && x <= y
			case sym.SenseGreaterThanEqual:
				ok = ok && x >= y
			default:
				panic(bad{"sense"})
			}
		}
	}
	return ok, dec
}

var _ = errors.New
var _ = reflect.DeepEqual
var _ = kmatrix.From
var _ = kvector.From
var _ = mat.NewDense
