package main

import (
	"fmt"
	"math/rand"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// Gen builds the inputs of one trial. Every choice comes from one seeded source, so
// a trial is reproduced from (case, seed, trial index) alone.
type Gen struct {
	r    *rand.Rand
	size int // grows with the trial index: 0..6
	vars []sym.Variable
	log  []string
	fixedRho map[uint64]float64
	unit     float64 // a power of two that all coefficients are multiplied with
}

var litFloats []float64 // numeric literals harvested from the repository source
var litInts []int

// oneUnit keeps all coefficients near 1.
var oneUnit bool

func newGen(seed int64, trial int) *Gen {
	g := &Gen{r: rand.New(rand.NewSource(seed*1000003 + int64(trial)*7919 + 17))}
	switch {
	case trial < 100:
		g.size = 1
	case trial < 400:
		g.size = 1 + g.r.Intn(3)
	default:
		g.size = 1 + g.r.Intn(5)
	}
	g.unit, floorTol = 1, 1
	switch g.r.Intn(24) {
	case 0, 1:
		g.unit = 1.0 / (1 << 20)
	case 2:
		g.unit = 1.0 / (1 << 44)
	}
	if oneUnit {
		g.unit = 1 // sums of terms of very different size do not cancel exactly
	}
	if g.unit < 1 {
		floorTol = g.unit
	}
	env := sym.MakeBasicEnvironment("harness")
	n := 2 + g.r.Intn(4)
	for i := 0; i < n; i++ {
		var v sym.Variable
		if g.r.Intn(6) == 0 {
			v = sym.NewBinaryVariable(&env)
		} else {
			v = sym.NewVariable(&env)
		}
		switch g.r.Intn(6) {
		case 0:
			v.Lower, v.Upper = -3, 11
		case 1:
			v.Name = "y"
		}
		g.vars = append(g.vars, v)
	}
	// order and identifiers not aligned with the position
	g.r.Shuffle(n, func(a, b int) { g.vars[a], g.vars[b] = g.vars[b], g.vars[a] })
	return g
}

func (g *Gen) p(num, den int) bool { return g.r.Intn(den) < num }

var baseCoefs = []float64{1, 1, 1, -1, -1, 2, 2, -2, 3, -3, 0.5, -0.5, 0.25, 4, 5, -7, 1.5, 10, -1.25, 6}

func (g *Gen) coef() float64 { return g.unit * g.coef1() }

func (g *Gen) coef1() float64 {
	switch {
	case g.p(1, 14):
		return 0
	case len(litFloats) > 0 && g.p(1, 12):
		f := litFloats[g.r.Intn(len(litFloats))]
		if f > 1e6 || f < -1e6 {
			return 8
		}
		switch g.r.Intn(4) {
		case 0:
			return -f
		case 1:
			return f + 1
		}
		return f
	case g.p(1, 8):
		return float64(g.r.Intn(41)-20) / 4
	}
	return baseCoefs[g.r.Intn(len(baseCoefs))]
}

func (g *Gen) nz() float64 {
	for {
		if c := g.coef(); c != 0 {
			return c
		}
	}
}

func (g *Gen) exp() int {
	switch {
	case g.p(1, 12):
		return 1 + g.r.Intn(9)
	case len(litInts) > 0 && g.p(1, 20):
		k := litInts[g.r.Intn(len(litInts))]
		if k >= 1 && k <= 12 {
			return k
		}
		return 2
	case g.p(1, 3):
		return 2
	case g.p(1, 5):
		return 3
	}
	return 1
}

func (g *Gen) variable() sym.Variable { return g.vars[g.r.Intn(len(g.vars))] }

// spare: give the slice memory beyond its length, filled with live values.
func spareInts(g *Gen, s []int) []int {
	if g.p(1, 2) {
		t := make([]int, len(s), len(s)+3)
		copy(t, s)
		for i := len(s); i < cap(t); i++ {
			t[:cap(t)][i] = 77
		}
		return t
	}
	return s
}
func spareVars(g *Gen, s []sym.Variable) []sym.Variable {
	if g.p(1, 2) {
		t := make([]sym.Variable, len(s), len(s)+3)
		copy(t, s)
		for i := len(s); i < cap(t); i++ {
			t[:cap(t)][i] = g.vars[0]
		}
		return t
	}
	return s
}
func spareMons(g *Gen, s []sym.Monomial) []sym.Monomial {
	if g.p(1, 2) {
		t := make([]sym.Monomial, len(s), len(s)+3)
		copy(t, s)
		for i := len(s); i < cap(t); i++ {
			t[:cap(t)][i] = sym.Monomial{Coefficient: 99, VariableFactors: []sym.Variable{g.vars[0]}, Exponents: []int{5}}
		}
		return t
	}
	return s
}

func (g *Gen) monomial() sym.Monomial {
	maxf := 1 + g.size
	if maxf > len(g.vars) {
		maxf = len(g.vars)
	}
	nf := g.r.Intn(maxf + 1)
	perm := g.r.Perm(len(g.vars))[:nf]
	m := sym.Monomial{Coefficient: g.coef()}
	for _, ix := range perm {
		m.VariableFactors = append(m.VariableFactors, g.vars[ix])
		m.Exponents = append(m.Exponents, g.exp())
	}
	m.Exponents = spareInts(g, m.Exponents)
	m.VariableFactors = spareVars(g, m.VariableFactors)
	return m
}

// reorder: the same term with its factors listed in another order.
func (g *Gen) reorder(m sym.Monomial) sym.Monomial {
	perm := g.r.Perm(len(m.VariableFactors))
	out := sym.Monomial{Coefficient: m.Coefficient}
	for _, ix := range perm {
		out.VariableFactors = append(out.VariableFactors, m.VariableFactors[ix])
		out.Exponents = append(out.Exponents, m.Exponents[ix])
	}
	return out
}

// near: a term that differs from m only a little (exponents permuted, one exponent or factor changed).
func (g *Gen) near(m sym.Monomial) sym.Monomial {
	out := g.reorder(m)
	n := len(out.Exponents)
	switch g.r.Intn(5) {
	case 0:
		g.r.Shuffle(n, func(a, b int) { out.Exponents[a], out.Exponents[b] = out.Exponents[b], out.Exponents[a] })
	case 1:
		if n > 0 {
			out.Exponents[g.r.Intn(n)] = g.exp()
		}
	case 2:
		if n > 1 {
			out.Exponents = out.Exponents[:n-1]
			out.VariableFactors = out.VariableFactors[:n-1]
		}
	case 3:
		out.Coefficient = g.coef()
	case 4:
		out.Coefficient = -m.Coefficient
	}
	return out
}

func (g *Gen) polynomial(canonical bool) sym.Polynomial {
	n := 1 + g.r.Intn(1+g.size)
	var p sym.Polynomial
	for i := 0; i < n; i++ {
		m := g.monomial()
		if len(p.Monomials) > 0 && g.p(1, 2) {
			m = g.near(p.Monomials[g.r.Intn(len(p.Monomials))])
		}
		if canonical {
			if m.Coefficient == 0 {
				m.Coefficient = 1
			}
			dup := false
			for _, o := range p.Monomials {
				if sameForm(o, m) {
					dup = true
				}
			}
			if dup {
				continue
			}
		}
		p.Monomials = append(p.Monomials, m)
	}
	p.Monomials = spareMons(g, p.Monomials)
	return p
}

// linear scalar expression of a chosen kind
func (g *Gen) linearPoly() sym.Polynomial {
	var p sym.Polynomial
	perm := g.r.Perm(len(g.vars))
	n := 1 + g.r.Intn(len(g.vars))
	for _, ix := range perm[:n] {
		p.Monomials = append(p.Monomials, sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{g.vars[ix]}, Exponents: []int{1}})
	}
	if g.p(2, 3) {
		k := sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{}, Exponents: []int{}}
		at := g.r.Intn(len(p.Monomials) + 1)
		p.Monomials = append(p.Monomials[:at:at], append([]sym.Monomial{k}, p.Monomials[at:]...)...)
	}
	return p
}

func (g *Gen) linearScalar() sym.ScalarExpression {
	switch g.r.Intn(5) {
	case 0:
		return sym.K(g.coef())
	case 1:
		return g.variable()
	case 2:
		return sym.Monomial{Coefficient: g.nz(), VariableFactors: []sym.Variable{g.variable()}, Exponents: []int{1}}
	}
	return g.linearPoly()
}

var scalarKinds = []string{"K", "Var", "Mono", "Poly"}
var vectorKinds = []string{"KV", "VV", "MV", "PV"}
var matrixKinds = []string{"KM", "VM", "MM", "PM"}
var numScalarKinds = []string{"float64", "int"}
var numArrayKinds = []string{"VecDense", "*VecDense", "Dense", "*Dense"}

func cat(ls ...[]string) []string {
	var o []string
	for _, l := range ls {
		o = append(o, l...)
	}
	return o
}

func isScalarKind(k string) bool {
	return k == "float64" || k == "int" || k == "K" || k == "Var" || k == "Mono" || k == "Poly"
}
func isVectorKind(k string) bool {
	return k == "KV" || k == "VV" || k == "MV" || k == "PV" || k == "VecDense" || k == "*VecDense"
}
func isMatrixKind(k string) bool { return !isScalarKind(k) && !isVectorKind(k) }

var canonicalOnly = false

func (g *Gen) kind(k string, r, c int) any {
	canon := canonicalOnly || g.p(3, 4)
	return g.kindC(k, r, c, canon)
}

func (g *Gen) kindC(k string, r, c int, canon bool) any {
	switch k {
	case "float64":
		return g.coef()
	case "int":
		return g.r.Intn(9) - 4
	case "K":
		return sym.K(g.coef())
	case "Var":
		return g.variable()
	case "Mono":
		return g.monomial()
	case "Poly":
		return g.polynomial(canon)
	case "KV":
		o := make(sym.KVector, r, r+g.r.Intn(3))
		for i := range o {
			o[i] = sym.K(g.coef())
		}
		return o
	case "VV":
		o := make(sym.VariableVector, r, r+g.r.Intn(3))
		for i := range o {
			o[i] = g.variable()
		}
		return o
	case "MV":
		o := make(sym.MonomialVector, r, r+g.r.Intn(3))
		for i := range o {
			o[i] = g.monomial()
		}
		return o
	case "PV":
		o := make(sym.PolynomialVector, r, r+g.r.Intn(3))
		for i := range o {
			o[i] = g.polynomial(canon)
		}
		return o
	case "KM":
		o := make(sym.KMatrix, r)
		for i := range o {
			o[i] = make([]sym.K, c, c+g.r.Intn(3))
			for j := range o[i] {
				o[i][j] = sym.K(g.coef())
			}
		}
		return o
	case "VM":
		o := make(sym.VariableMatrix, r)
		for i := range o {
			o[i] = make([]sym.Variable, c, c+g.r.Intn(3))
			for j := range o[i] {
				o[i][j] = g.variable()
			}
		}
		return o
	case "MM":
		o := make(sym.MonomialMatrix, r)
		for i := range o {
			o[i] = make([]sym.Monomial, c, c+g.r.Intn(3))
			for j := range o[i] {
				o[i][j] = g.monomial()
			}
		}
		return o
	case "PM":
		o := make(sym.PolynomialMatrix, r)
		for i := range o {
			o[i] = make([]sym.Polynomial, c, c+g.r.Intn(3))
			for j := range o[i] {
				o[i][j] = g.polynomial(canon)
			}
		}
		return o
	case "VecDense", "*VecDense":
		d := make([]float64, r)
		for i := range d {
			d[i] = g.coef()
		}
		v := mat.NewVecDense(r, d)
		if k == "VecDense" {
			return *v
		}
		return v
	case "Dense", "*Dense":
		d := make([]float64, r*c)
		for i := range d {
			d[i] = g.coef()
		}
		v := mat.NewDense(r, c, d)
		if k == "Dense" {
			return *v
		}
		return v
	}
	panic("gen: kind " + k)
}

func (g *Gen) dim() int {
	switch {
	case g.p(1, 5):
		return 1
	case g.p(1, 15):
		return 1 + g.r.Intn(9)
	}
	return 2 + g.r.Intn(1+g.size/2)
}

// rho: assignments of small dyadic values.
func (g *Gen) rho() map[uint64]float64 {
	if g.fixedRho != nil {
		return g.fixedRho
	}
	o := map[uint64]float64{}
	for _, v := range g.vars {
		x := []float64{2, 3, -1, 0.5, -2, 1, 0, 5, -3, 1.5}[g.r.Intn(10)]
		o[v.ID] = x
	}
	return o
}

// ---- text of an input, for the replay file
func show(e any) string {
	switch x := e.(type) {
	case nil:
		return "nil"
	case sym.Variable:
		s := fmt.Sprintf("v%d", x.ID)
		if x.Lower >= x.Upper {
			s += fmt.Sprintf("{bounds %v..%v}", x.Lower, x.Upper)
		}
		return s
	case sym.K:
		return fmt.Sprintf("K(%v)", float64(x))
	case sym.Monomial:
		s := fmt.Sprintf("Monomial{%v", x.Coefficient)
		for i, v := range x.VariableFactors {
			ex := "?"
			if i < len(x.Exponents) {
				ex = fmt.Sprint(x.Exponents[i])
			}
			s += fmt.Sprintf(" v%d^%s", v.ID, ex)
		}
		if len(x.Exponents) != len(x.VariableFactors) {
			s += fmt.Sprintf(" (exponents %v)", x.Exponents)
		}
		return s + "}"
	case sym.Polynomial:
		s := "Polynomial{"
		for i, m := range x.Monomials {
			if i > 0 {
				s += " + "
			}
			s += show(m)
		}
		return s + "}"
	case sym.KVector:
		return list("KVector", len(x), func(i int) any { return x[i] })
	case sym.VariableVector:
		return list("VariableVector", len(x), func(i int) any { return x[i] })
	case sym.MonomialVector:
		return list("MonomialVector", len(x), func(i int) any { return x[i] })
	case sym.PolynomialVector:
		return list("PolynomialVector", len(x), func(i int) any { return x[i] })
	case sym.KMatrix:
		return list("KMatrix", len(x), func(i int) any { return sym.KVector(x[i]) })
	case sym.VariableMatrix:
		return list("VariableMatrix", len(x), func(i int) any { return sym.VariableVector(x[i]) })
	case sym.MonomialMatrix:
		return list("MonomialMatrix", len(x), func(i int) any { return sym.MonomialVector(x[i]) })
	case sym.PolynomialMatrix:
		return list("PolynomialMatrix", len(x), func(i int) any { return sym.PolynomialVector(x[i]) })
	case []sym.Variable:
		return list("[]Variable", len(x), func(i int) any { return x[i] })
	case []sym.Expression:
		return list("[]Expression", len(x), func(i int) any { return x[i] })
	case []sym.Constraint:
		return list("[]Constraint", len(x), func(i int) any { return x[i] })
	case []sym.ScalarConstraint:
		return list("[]ScalarConstraint", len(x), func(i int) any { return x[i] })
	case []sym.ScalarExpression:
		return list("[]ScalarExpression", len(x), func(i int) any { return x[i] })
	case [][]sym.ScalarExpression:
		return list("[][]ScalarExpression", len(x), func(i int) any { return x[i] })
	case mat.VecDense:
		return list("VecDense", x.Len(), func(i int) any { return x.AtVec(i) })
	case *mat.VecDense:
		return "*" + show(*x)
	case mat.Dense:
		r, c := x.Dims()
		s := fmt.Sprintf("Dense %dx%d", r, c)
		for i := 0; i < r; i++ {
			s += "["
			for j := 0; j < c; j++ {
				s += fmt.Sprintf(" %v", x.At(i, j))
			}
			s += " ]"
		}
		return s
	case *mat.Dense:
		return "*" + show(*x)
	case sym.ScalarConstraint:
		return fmt.Sprintf("(%s %c %s)", show(x.LeftHandSide), rune(x.Sense), show(x.RightHandSide))
	case sym.VectorConstraint:
		return fmt.Sprintf("(%s %c %s)", show(x.LeftHandSide), rune(x.Sense), show(x.RightHandSide))
	case sym.MatrixConstraint:
		return fmt.Sprintf("(%s %c %s)", show(x.LeftHandSide), rune(x.Sense), show(x.RightHandSide))
	case map[sym.Variable]sym.Expression:
		s := "map{"
		for _, v := range sortedKeys(x) {
			s += fmt.Sprintf("%s: %s; ", show(v), show(x[v]))
		}
		return s + "}"
	case map[uint64]float64:
		s := "{"
		for i := uint64(0); i < 64; i++ {
			if f, ok := x[i]; ok {
				s += fmt.Sprintf("v%d=%v ", i, f)
			}
		}
		return s + "}"
	}
	return fmt.Sprintf("%T(%v)", e, e)
}

func list(name string, n int, f func(int) any) string {
	s := name + "["
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += show(f(i))
	}
	return s + "]"
}
