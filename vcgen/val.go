package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is what an SSA register or a memory cell holds during symbolic execution.
type Value interface{}

// Term is a formula of the theory.
type Term struct{ S, E string }

// StructV is a struct kept field by field.
type StructV struct {
	T types.Type
	F []Value
}

// Ref is a slice (or a gonum vector/matrix) whose elements live in a heap object.
type Ref struct {
	ID   int
	Path []PathEl // non-empty: a slice stored inside the object
}

// IfaceV is an interface value with a known dynamic type.
type IfaceV struct {
	T types.Type
	V Value
}

// PtrV points at a heap object or into one.
type PtrV struct {
	ID   int
	Base Value // instead of ID: pointer into an immutable sequence
	Path []PathEl
}

type NilV struct{ T types.Type }

// OpaqueV is a value of a type outside the closed world: it may be held but not looked at.
type OpaqueV struct{ T types.Type }

type TupleV []Value

type FuncV struct {
	Fn       *ssa.Function
	Bindings []Value
}

// IterV is a map or string iterator.
type IterV struct {
	M   Term
	Idx int // heap cell holding the number of keys produced
	Key string
}

type PathEl struct {
	Field int        // >= 0: struct field
	Idx   Term       // otherwise element index
	T     types.Type // type of the struct the field belongs to
}

func (p PathEl) key() string {
	if p.Field >= 0 {
		return "." + strconv.Itoa(p.Field)
	}
	return "[" + p.Idx.E + "]"
}

// depth counts the index steps of a path.
func depth(ps []PathEl) int {
	n := 0
	for _, p := range ps {
		if p.Field < 0 {
			n++
		}
	}
	return n
}

func pathKey(ps []PathEl) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.key())
	}
	return b.String()
}

// Obj is a heap object: a variable cell, or the elements of a slice.
type Obj struct {
	Arr     bool
	V       Value      // cell contents
	Elems   []Value    // concrete elements (Arr), if not nil
	Content Term       // symbolic elements (Arr), if Elems is nil
	T       types.Type // element type (Arr) or cell type
	Sort    string     // sequence sort (Arr) or Dense
	Owned   bool
	Deep    bool // slices inside the elements are owned too
	Moved   bool // captured in another value: no more writes
	Pending string
	Own     string // path of the slice element known to be the function's own
	Global  string
	Why     string
}

type unsupported struct{ msg string }

func unsup(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// ---- formulas with light simplification ----

func isIntLit(e string) (int64, bool) {
	if e == "" {
		return 0, false
	}
	if e[0] >= '0' && e[0] <= '9' {
		n, err := strconv.ParseInt(e, 10, 64)
		return n, err == nil
	}
	if strings.HasPrefix(e, "(- ") && strings.HasSuffix(e, ")") {
		n, err := strconv.ParseInt(e[3:len(e)-1], 10, 64)
		return -n, err == nil
	}
	return 0, false
}

func intLit(n int64) string {
	if n < 0 {
		return "(- " + strconv.FormatInt(-n, 10) + ")"
	}
	return strconv.FormatInt(n, 10)
}

func realLit(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func mkNot(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(a, "(not ") {
		return a[5 : len(a)-1]
	}
	return "(not " + a + ")"
}

func mkAnd(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			return "false"
		}
		if x != "true" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func mkOr(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			return "true"
		}
		if x != "false" && x != "" {
			ys = append(ys, x)
		}
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func mkImp(a, b string) string {
	if a == "true" {
		return b
	}
	if a == "false" || b == "true" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func mkEq(a, b string) string {
	if a == b {
		return "true"
	}
	if x, ok := isIntLit(a); ok {
		if y, ok := isIntLit(b); ok {
			if x == y {
				return "true"
			}
			return "false"
		}
	}
	return "(= " + a + " " + b + ")"
}

func mkArith(op, a, b string) string {
	x, okx := isIntLit(a)
	y, oky := isIntLit(b)
	if okx && oky {
		switch op {
		case "+":
			return intLit(x + y)
		case "-":
			return intLit(x - y)
		case "*":
			return intLit(x * y)
		}
	}
	if oky && y == 0 && (op == "+" || op == "-") {
		return a
	}
	if okx && x == 0 && op == "+" {
		return b
	}
	if oky && y == 1 && op == "*" {
		return a
	}
	return "(" + op + " " + a + " " + b + ")"
}

func mkCmp(op, a, b string) string {
	x, okx := isIntLit(a)
	y, oky := isIntLit(b)
	if okx && oky {
		var r bool
		switch op {
		case "<":
			r = x < y
		case "<=":
			r = x <= y
		case ">":
			r = x > y
		case ">=":
			r = x >= y
		}
		if r {
			return "true"
		}
		return "false"
	}
	if a == b {
		if op == "<=" || op == ">=" {
			return "true"
		}
		return "false"
	}
	return "(" + op + " " + a + " " + b + ")"
}

// ---- sorts ----

type structInfo struct {
	Sort, Ctor string
	Sel        []string
}

var structOf = map[string]structInfo{
	"Variable":         {"Var", "mkVar", []string{"vid", "vlo", "vup", "vty", "vname", "venv"}},
	"Monomial":         {"Mono", "mkMono", []string{"mc", "mx", "mv"}},
	"Polynomial":       {"Poly", "mkPoly", []string{"pm"}},
	"ScalarConstraint": {"SC", "mkSC", []string{"scl", "scr", "scs"}},
	"VectorConstraint": {"SC", "mkSC", []string{"scl", "scr", "scs"}},
	"MatrixConstraint": {"SC", "mkSC", []string{"scl", "scr", "scs"}},
}

// tagInfo describes one constructor of Any.
type tagInfo struct {
	Tag, Sel, Sort string
	Type           types.Type
}

var tags []tagInfo
var tagByType = map[string]tagInfo{}
var tagByName = map[string]tagInfo{}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkg)
}

func isVecDense(t types.Type) bool { return isNamed(t, "gonum/mat", "VecDense") }
func isDense(t types.Type) bool    { return isNamed(t, "gonum/mat", "Dense") }

func initTags(p *Program) {
	sc := p.Sym.Pkg.Scope()
	nt := func(n string) types.Type {
		o := sc.Lookup(n)
		if o == nil {
			panic(verifierError{"type " + n + " not found in package symbolic"})
		}
		return o.Type()
	}
	var vec, den types.Type
	for _, ip := range p.Prog.AllPackages() {
		if ip.Pkg.Path() == "gonum.org/v1/gonum/mat" {
			vec = ip.Pkg.Scope().Lookup("VecDense").Type()
			den = ip.Pkg.Scope().Lookup("Dense").Type()
		}
	}
	add := func(tag, sel, sort string, t types.Type) {
		ti := tagInfo{tag, sel, sort, t}
		tags = append(tags, ti)
		tagByName[tag] = ti
		if t != nil {
			tagByType[typeKey(t)] = ti
		}
	}
	B := types.Typ
	add("AFloat", "af", "Real", B[types.Float64])
	add("AInt", "ai", "Int", B[types.Int])
	add("AU64", "au", "Int", B[types.Uint64])
	add("AStr", "astr", "Str", B[types.String])
	add("ABool", "abool", "Bool", B[types.Bool])
	add("AK", "ak", "Real", nt("K"))
	add("AVar", "av", "Var", nt("Variable"))
	add("AMono", "am", "Mono", nt("Monomial"))
	add("APoly", "ap", "Poly", nt("Polynomial"))
	add("AKV", "akv", "SeqR", nt("KVector"))
	add("AVV", "avv", "SeqV", nt("VariableVector"))
	add("AMV", "amv", "SeqM", nt("MonomialVector"))
	add("APV", "apv", "SeqP", nt("PolynomialVector"))
	add("AKM", "akm", "SeqRR", nt("KMatrix"))
	add("AVM", "avm", "SeqVV", nt("VariableMatrix"))
	add("AMM", "amm", "SeqMM", nt("MonomialMatrix"))
	add("APM", "apm", "SeqPP", nt("PolynomialMatrix"))
	add("AVec", "avec", "SeqR", vec)
	add("APVec", "apvec", "SeqR", types.NewPointer(vec))
	add("ADen", "aden", "Dense", den)
	add("APDen", "apden", "Dense", types.NewPointer(den))
	add("ASC", "asc", "SC", nt("ScalarConstraint"))
	add("AVC", "avc", "SC", nt("VectorConstraint"))
	add("AMC", "amc", "SC", nt("MatrixConstraint"))
	add("ASlV", "aslv", "SeqV", types.NewSlice(nt("Variable")))
	add("ASlI", "asli", "SeqI", types.NewSlice(B[types.Int]))
	add("ASlU", "aslu", "SeqI", types.NewSlice(B[types.Uint64]))
	add("ASlS", "asls", "SeqS", types.NewSlice(B[types.String]))
	add("ASlF", "aslf", "SeqR", types.NewSlice(B[types.Float64]))
	add("ASlFF", "aslff", "SeqRR", types.NewSlice(types.NewSlice(B[types.Float64])))
	add("ASlA", "asla", "SeqA", types.NewSlice(nt("ScalarExpression")))
	add("ASlAA", "aslaa", "SeqAA", types.NewSlice(types.NewSlice(nt("ScalarExpression"))))
	add("AEnv", "aenv", "Int", types.NewPointer(nt("BasicEnvironment")))
}

func sortOf(t types.Type) string {
	t = types.Unalias(t)
	if isVecDense(t) {
		return "SeqR"
	}
	if isDense(t) {
		return "Dense"
	}
	if n, ok := t.(*types.Named); ok {
		if si, ok := structOf[n.Obj().Name()]; ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "symbolic" {
			return si.Sort
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
	case *types.Slice:
		if l := letterOf(sortOf(u.Elem())); l != "" {
			return "Seq" + l
		}
	case *types.Array:
		if l := letterOf(sortOf(u.Elem())); l != "" {
			return "Seq" + l
		}
	case *types.Interface:
		return "Any"
	case *types.Map:
		if sortOf(u.Key()) == "Var" && sortOf(u.Elem()) == "Any" {
			return "VMap"
		}
		if sortOf(u.Key()) == "Var" && (sortOf(u.Elem()) == "Bool" || isEmptyStruct(u.Elem())) {
			return "VSet"
		}
		if sortOf(u.Key()) == "Int" && (sortOf(u.Elem()) == "Bool" || isEmptyStruct(u.Elem())) {
			return "ISet"
		}
		if sortOf(u.Key()) == "Int" && sortOf(u.Elem()) == "Int" {
			return "IMap"
		}
	}
	return ""
}

func zeroTerm(s string) (Term, bool) {
	switch s {
	case "Int":
		return Term{s, "0"}, true
	case "Real":
		return Term{s, "0.0"}, true
	case "Bool":
		return Term{s, "false"}, true
	case "Str":
		return Term{s, "str_empty"}, true
	case "Any":
		return Term{s, "ANil"}, true
	case "Var":
		return Term{s, "(mkVar 0 0.0 0.0 0 str_empty ANil)"}, true
	case "Mono":
		return Term{s, "(mkMono 0.0 emptyI emptyV)"}, true
	case "Poly":
		return Term{s, "(mkPoly emptyM)"}, true
	case "SC":
		return Term{s, "(mkSC ANil ANil 0)"}, true
	}
	if l := seqLetter(s); l != "" {
		return Term{s, "empty" + l}, true
	}
	return Term{}, false
}

// implementers lists the tags whose type implements an interface.
func implementers(it *types.Interface) []tagInfo {
	var out []tagInfo
	for _, ti := range tags {
		if ti.Type != nil && types.Implements(ti.Type, it) {
			out = append(out, ti)
		}
	}
	return out
}

func hasRefs(t types.Type) bool {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Interface:
		return !isError(t)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasRefs(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Struct:
		if isNamed(t, "symbolic", "Variable") {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func isError(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func sortedKeys(m map[int]*Obj) []int {
	var ks []int
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func isEmptyStruct(t types.Type) bool {
	x, ok := t.Underlying().(*types.Struct)
	return ok && x.NumFields() == 0
}

// isMap: the sorts of maps.
func isMap(s string) bool { return s == "VMap" || s == "VSet" || s == "ISet" || s == "IMap" }

func sortedStrs(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
