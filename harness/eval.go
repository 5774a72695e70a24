package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	sym "github.com/MatProGo-dev/SymbolicMath.go/symbolic"
	"gonum.org/v1/gonum/mat"
)

// ---- the independent semantics: everything below reads the public fields only and
// calls no method of the library.

type bad struct{ msg string }

func ipow(x float64, n int) float64 {
	if n < 0 {
		return math.Pow(x, float64(n))
	}
	o := 1.0
	for i := 0; i < n; i++ {
		o *= x
	}
	return o
}

func evMono(m sym.Monomial, rho map[uint64]float64) float64 {
	if len(m.Exponents) != len(m.VariableFactors) {
		panic(bad{"malformed monomial " + show(m)})
	}
	o := m.Coefficient
	for i, v := range m.VariableFactors {
		x, ok := rho[v.ID]
		if !ok {
			panic(bad{fmt.Sprintf("unknown variable v%d", v.ID)})
		}
		o *= ipow(x, m.Exponents[i])
	}
	return o
}

func evPoly(p sym.Polynomial, rho map[uint64]float64) float64 {
	o := 0.0
	for _, m := range p.Monomials {
		o += evMono(m, rho)
	}
	return o
}

// kindOf: "s", "v", "m" or "" for anything else
func kindOf(e any) string {
	switch e.(type) {
	case float64, int, sym.K, sym.Variable, sym.Monomial, sym.Polynomial:
		return "s"
	case sym.KVector, sym.VariableVector, sym.MonomialVector, sym.PolynomialVector, mat.VecDense, *mat.VecDense:
		return "v"
	case sym.KMatrix, sym.VariableMatrix, sym.MonomialMatrix, sym.PolynomialMatrix, mat.Dense, *mat.Dense:
		return "m"
	}
	return ""
}

func nc[T any](x [][]T) int {
	if len(x) == 0 {
		return 0
	}
	return len(x[0])
}

func shape(e any) (int, int) {
	switch x := e.(type) {
	case float64, int, sym.K, sym.Variable, sym.Monomial, sym.Polynomial:
		return 1, 1
	case sym.KVector:
		return len(x), 1
	case sym.VariableVector:
		return len(x), 1
	case sym.MonomialVector:
		return len(x), 1
	case sym.PolynomialVector:
		return len(x), 1
	case mat.VecDense:
		return x.Len(), 1
	case *mat.VecDense:
		return x.Len(), 1
	case sym.KMatrix:
		return len(x), nc(x)
	case sym.VariableMatrix:
		return len(x), nc(x)
	case sym.MonomialMatrix:
		return len(x), nc(x)
	case sym.PolynomialMatrix:
		return len(x), nc(x)
	case mat.Dense:
		return x.Dims()
	case *mat.Dense:
		return x.Dims()
	}
	panic(bad{fmt.Sprintf("no shape for %T", e)})
}

// at: the scalar entry (a Go value of a scalar kind)
func at(e any, i, j int) any {
	switch x := e.(type) {
	case float64, int, sym.K, sym.Variable, sym.Monomial, sym.Polynomial:
		return x
	case sym.KVector:
		return x[i]
	case sym.VariableVector:
		return x[i]
	case sym.MonomialVector:
		return x[i]
	case sym.PolynomialVector:
		return x[i]
	case mat.VecDense:
		return x.AtVec(i)
	case *mat.VecDense:
		return x.AtVec(i)
	case sym.KMatrix:
		return x[i][j]
	case sym.VariableMatrix:
		return x[i][j]
	case sym.MonomialMatrix:
		return x[i][j]
	case sym.PolynomialMatrix:
		return x[i][j]
	case mat.Dense:
		return x.At(i, j)
	case *mat.Dense:
		return x.At(i, j)
	}
	panic(bad{fmt.Sprintf("no entries in %T", e)})
}

func evs(e any, rho map[uint64]float64) float64 {
	switch x := e.(type) {
	case float64:
		return x
	case int:
		return float64(x)
	case sym.K:
		return float64(x)
	case sym.Variable:
		v, ok := rho[x.ID]
		if !ok {
			panic(bad{fmt.Sprintf("unknown variable v%d", x.ID)})
		}
		return v
	case sym.Monomial:
		return evMono(x, rho)
	case sym.Polynomial:
		return evPoly(x, rho)
	}
	panic(bad{fmt.Sprintf("not a scalar: %T", e)})
}

func ev(e any, i, j int, rho map[uint64]float64) float64 { return evs(at(e, i, j), rho) }

// mag is the sum of the absolute values of the terms of an entry: the scale of its rounding errors
func mag(e any, i, j int, rho map[uint64]float64) float64 {
	abs := map[uint64]float64{}
	for k, v := range rho {
		abs[k] = math.Abs(v)
	}
	m := func(x sym.Monomial) float64 { return math.Abs(evMono(x, abs)) }
	switch x := at(e, i, j).(type) {
	case sym.Monomial:
		return m(x)
	case sym.Polynomial:
		s := 0.0
		for _, t := range x.Monomials {
			s += m(t)
		}
		return s
	case sym.Variable:
		return abs[x.ID]
	default:
		return math.Abs(evs(x, rho))
	}
}

// isUnit: a one-by-one object acts as a scalar
func isUnit(e any) bool { r, c := shape(e); return r == 1 && c == 1 }

// evb: entry with broadcast of one-by-one objects
func evb(e any, i, j int, rho map[uint64]float64) float64 {
	if isUnit(e) {
		return ev(e, 0, 0, rho)
	}
	return ev(e, i, j, rho)
}

// floorTol is the size of the coefficients of the trial, at most 1.
var floorTol = 1.0

func same(a, b float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= 1e-9*(floorTol+math.Max(math.Abs(a), math.Abs(b)))
}

func sameScale(a, b, scale float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(floorTol+math.Max(math.Abs(a), math.Abs(b))+math.Abs(scale))
}

func expMap(m sym.Monomial) map[uint64]int {
	o := map[uint64]int{}
	for i, v := range m.VariableFactors {
		o[v.ID] += m.Exponents[i]
	}
	for k, e := range o {
		if e == 0 {
			delete(o, k)
		}
	}
	return o
}

func sameForm(a, b sym.Monomial) bool { return reflect.DeepEqual(expMap(a), expMap(b)) }

// wf: "" or what is wrong
func wf(e any) string {
	switch x := e.(type) {
	case float64, int, sym.K:
		return ""
	case sym.Variable:
		if x.Lower >= x.Upper {
			return "variable with crossed bounds"
		}
	case sym.Monomial:
		if len(x.Exponents) != len(x.VariableFactors) {
			return "factor and exponent lists differ in length"
		}
		seen := map[uint64]bool{}
		for i, v := range x.VariableFactors {
			if seen[v.ID] {
				return fmt.Sprintf("factor v%d appears twice", v.ID)
			}
			seen[v.ID] = true
			if x.Exponents[i] < 1 {
				return fmt.Sprintf("exponent %d", x.Exponents[i])
			}
		}
	case sym.Polynomial:
		if len(x.Monomials) == 0 {
			return "empty polynomial"
		}
		for _, m := range x.Monomials {
			if w := wf(m); w != "" {
				return w
			}
		}
	case sym.Expression:
		r, _ := shape(e)
		if r == 0 {
			return "empty"
		}
		if w := ragged(e); w != "" {
			return w
		}
		_, c := shape(e)
		if c == 0 {
			return "no columns"
		}
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				if w := wf(at(e, i, j)); w != "" {
					return w
				}
			}
		}
	}
	return ""
}

func ragged(e any) string {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Slice || v.Len() == 0 || v.Index(0).Kind() != reflect.Slice {
		return ""
	}
	for i := 1; i < v.Len(); i++ {
		if v.Index(i).Len() != v.Index(0).Len() {
			return "ragged matrix"
		}
	}
	return ""
}

func canonical(p sym.Polynomial) string {
	for i, a := range p.Monomials {
		if a.Coefficient == 0 && len(p.Monomials) > 1 {
			return "zero term " + show(a)
		}
		for j := 0; j < i; j++ {
			if sameForm(a, p.Monomials[j]) {
				return fmt.Sprintf("like terms %s and %s", show(p.Monomials[j]), show(a))
			}
		}
	}
	return ""
}

// ---- formal partial derivative value
func dval(e any, id uint64, rho map[uint64]float64) float64 {
	switch x := e.(type) {
	case float64, int, sym.K:
		return 0
	case sym.Variable:
		if x.ID == id {
			return 1
		}
		return 0
	case sym.Monomial:
		total := 0.0
		for k, v := range x.VariableFactors {
			if v.ID != id {
				continue
			}
			t := x.Coefficient * float64(x.Exponents[k]) * ipow(rho[id], x.Exponents[k]-1)
			for l, w := range x.VariableFactors {
				if l != k {
					t *= ipow(rho[w.ID], x.Exponents[l])
				}
			}
			total += t
		}
		return total
	case sym.Polynomial:
		t := 0.0
		for _, m := range x.Monomials {
			t += dval(m, id, rho)
		}
		return t
	}
	panic(bad{"dval"})
}

func degreeOf(e any) int {
	switch x := e.(type) {
	case float64, int, sym.K:
		return 0
	case sym.Variable:
		return 1
	case sym.Monomial:
		d := 0
		for _, k := range x.Exponents {
			d += k
		}
		return d
	case sym.Polynomial:
		d := 0
		for _, m := range x.Monomials {
			if k := degreeOf(m); k > d {
				d = k
			}
		}
		return d
	}
	r, c := shape(e)
	d := 0
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if k := degreeOf(at(e, i, j)); k > d {
				d = k
			}
		}
	}
	return d
}

func varIDs(e any) map[uint64]bool {
	o := map[uint64]bool{}
	switch x := e.(type) {
	case float64, int, sym.K:
	case sym.Variable:
		o[x.ID] = true
	case sym.Monomial:
		for _, v := range x.VariableFactors {
			o[v.ID] = true
		}
	case sym.Polynomial:
		for _, m := range x.Monomials {
			for k := range varIDs(m) {
				o[k] = true
			}
		}
	case sym.ScalarConstraint:
		return union(varIDs(x.LeftHandSide), varIDs(x.RightHandSide))
	case sym.VectorConstraint:
		return union(varIDs(x.LeftHandSide), varIDs(x.RightHandSide))
	case sym.MatrixConstraint:
		return union(varIDs(x.LeftHandSide), varIDs(x.RightHandSide))
	default:
		r, c := shape(e)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				for k := range varIDs(at(e, i, j)) {
					o[k] = true
				}
			}
		}
	}
	return o
}

func union(a, b map[uint64]bool) map[uint64]bool {
	for k := range b {
		a[k] = true
	}
	return a
}

func sortedKeys(m map[sym.Variable]sym.Expression) []sym.Variable {
	var o []sym.Variable
	for k := range m {
		o = append(o, k)
	}
	sort.Slice(o, func(a, b int) bool { return o[a].ID < o[b].ID })
	return o
}

// true coefficient of a multi-index in a scalar
func trueCoef(e any, want map[uint64]int) float64 {
	switch x := e.(type) {
	case float64:
		if len(want) == 0 {
			return x
		}
	case int:
		if len(want) == 0 {
			return float64(x)
		}
	case sym.K:
		if len(want) == 0 {
			return float64(x)
		}
	case sym.Variable:
		if len(want) == 1 && want[x.ID] == 1 {
			return 1
		}
	case sym.Monomial:
		if reflect.DeepEqual(expMap(x), want) {
			return x.Coefficient
		}
	case sym.Polynomial:
		t := 0.0
		for _, m := range x.Monomials {
			t += trueCoef(m, want)
		}
		return t
	}
	return 0
}

// ---- snapshot of an operand including memory beyond the length of every slice
func snap(x any) string {
	var b strings.Builder
	snapV(reflect.ValueOf(x), &b, 0)
	return b.String()
}

func snapV(v reflect.Value, b *strings.Builder, d int) {
	if !v.IsValid() || d > 12 {
		b.WriteString("-")
		return
	}
	switch v.Kind() {
	case reflect.Float64:
		fmt.Fprintf(b, "%x,", math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int64:
		fmt.Fprintf(b, "%d,", v.Int())
	case reflect.Uint64, reflect.Uint8, reflect.Uint:
		fmt.Fprintf(b, "%d,", v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q,", v.String())
	case reflect.Slice:
		n := v.Len()
		c := v.Cap()
		fmt.Fprintf(b, "[%d:", n)
		w := v
		if v.CanInterface() || true {
			w = v.Slice(0, c)
		}
		for i := 0; i < c; i++ {
			snapV(w.Index(i), b, d+1)
		}
		b.WriteString("]")
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name == "Environment" {
				continue
			}
			snapV(v.Field(i), b, d+1)
		}
		b.WriteString("}")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil,")
		} else {
			if v.Kind() == reflect.Interface {
				b.WriteString(v.Elem().Type().String())
			}
			snapV(v.Elem(), b, d+1)
		}
	case reflect.Map:
		var ks []string
		it := v.MapRange()
		for it.Next() {
			var kb strings.Builder
			snapV(it.Key(), &kb, d+1)
			kb.WriteString("=>")
			snapV(it.Value(), &kb, d+1)
			ks = append(ks, kb.String())
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, ";"))
	default:
		fmt.Fprintf(b, "?%s", v.Kind())
	}
}
