package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// State is the symbolic heap of one path.
type State struct {
	heap  map[int]*Obj
	tags  map[string]string // known dynamic types of Any terms
	trace []string          // branch decisions, for reports
}

func (s *State) clone() *State {
	h := make(map[int]*Obj, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	t := make(map[string]string, len(s.tags))
	for k, v := range s.tags {
		t[k] = v
	}
	return &State{h, t, s.trace[:len(s.trace):len(s.trace)]}
}

// Frame is one activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	parent *Frame
	path   string // chain of call sites
	ret    func(st *State, res []Value)
	loops  map[*ssa.BasicBlock]*LoopRun // loops the path is in
	order  []*ssa.BasicBlock
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.loops = make(map[*ssa.BasicBlock]*LoopRun, len(f.loops))
	for k, v := range f.loops {
		g.loops[k] = v
	}
	g.order = f.order[:len(f.order):len(f.order)]
	return &g
}

// Obl is one proof obligation.
type Obl struct {
	Name  string
	Kind  string
	Pos   string
	Tags  string
	OK    bool
	Goal  string
	Trace []string
	Dump  string
	Ms    int64
}

// Engine runs one job.
type Engine struct {
	P        *Program
	S        *Solver
	C        *Contracts
	prop     string
	job      *Job
	n        int
	nobj     int
	quiet    int // > 0: invariant search, obligations are not recorded
	Obls     []Obl
	returns  int
	panics   int
	deadline time.Time
	allHints bool
	freshQ   bool
	writes   map[string]bool // places of writes shown to be the function's own
	defs     map[string]string
	eqHint   map[string]string // terms that contracts equate, to state loop bounds with
	strs     map[string]string
	used     map[string]bool // contracts applied
	usedJobs map[string]*Job
	trusted  map[string]bool
	noPanic  string // formula under which the job's function must not panic
	noPanicT string
	vals     []string
	freshT   time.Duration // spent in fresh solvers
	ptGoals  []entryGoal
	failNow  bool
	cache    map[string]*LoopRun
	paths    int
	exts     map[string]bool
	inlined  map[string]bool
	loopsCut int
	stack    []*ssa.Function
	dumpDir  string
}

func (e *Engine) fresh(sort, hint string) Term {
	e.n++
	n := fmt.Sprintf("%s!%d", hint, e.n)
	e.S.cmdT("(declare-const " + n + " " + sort + ")")
	return Term{sort, n}
}

// name abbreviates a long term.
func (e *Engine) name(t Term) Term {
	if len(t.E) < 70 || t.S == "" {
		return t
	}
	e.n++
	n := fmt.Sprintf("t!%d", e.n)
	e.S.cmdT("(define-fun " + n + " () " + t.S + " " + t.E + ")")
	e.defs[n] = t.E
	return Term{t.S, n}
}

func (e *Engine) str(s string) Term {
	if s == "" {
		return Term{"Str", "str_empty"}
	}
	if n, ok := e.strs[s]; ok {
		return Term{"Str", n}
	}
	n := fmt.Sprintf("(str_lit %d)", len(e.strs)+1)
	e.strs[s] = n
	return Term{"Str", n}
}

func (e *Engine) assume(f string) { e.S.assert(f) }

func (e *Engine) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := e.P.Prog.Fset.Position(p)
	f := q.Filename
	if i := strings.Index(f, "/symbolic/"); i >= 0 {
		f = f[i+1:]
	} else if i := strings.Index(f, "/smErrors/"); i >= 0 {
		f = f[i+1:]
	} else if i := strings.Index(f, "/get/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Engine) oblige(st *State, kind, name, tagsS, goal, pos string) {
	if e.quiet > 0 {
		e.assume(goal)
		return
	}
	t0 := time.Now()
	ok := e.S.valid(goal)
	if !ok && e.freshQ && e.freshT < 80*time.Second {
		t := time.Now()
		ok = e.S.validFresh(goal)
		e.freshT += time.Since(t)
	}
	o := Obl{Name: name, Kind: kind, Pos: pos, Tags: tagsS, OK: ok, Goal: goal, Ms: time.Since(t0).Milliseconds()}
	if !ok {
		o.Trace = append([]string{}, st.trace...)
		if e.dumpDir != "" {
			o.Dump = fmt.Sprintf("%s/%s_%d.smt2", e.dumpDir, strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(e.job.Name()), len(e.Obls))
			e.S.dump(o.Dump, goal)
		}
	}
	e.Obls = append(e.Obls, o)
	e.assume(goal)
}

func (e *Engine) checkTime() {
	if time.Now().After(e.deadline) {
		panic(unsupported{"time limit of the job exceeded"})
	}
}

func (e *Engine) feasible() bool { return e.S.check() != "unsat" }

// fork runs f under an additional assumption, if that is consistent.
func (e *Engine) fork(st *State, fr *Frame, cond, label string, check bool, f func(st *State, fr *Frame)) {
	if cond == "false" {
		return
	}
	e.S.push()
	e.assume(cond)
	if !check || cond == "true" || e.feasible() {
		s2, f2 := st.clone(), fr.clone()
		if label != "" {
			s2.trace = append(s2.trace, label)
		}
		f(s2, f2)
	}
	e.S.pop()
}

// ---- values ----

func (e *Engine) newObj(st *State, o *Obj) int {
	e.nobj++
	st.heap[e.nobj] = o
	return e.nobj
}

func (e *Engine) zero(t types.Type) Value {
	t = types.Unalias(t)
	if isVecDense(t) || isDense(t) {
		return NilV{t}
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return StructV{t, f}
	case *types.Slice, *types.Pointer, *types.Map, *types.Signature:
		return NilV{t}
	}
	if z, ok := zeroTerm(sortOf(t)); ok {
		return z
	}
	unsup("zero value of %s", t)
	return nil
}

func structTypeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Name() == "symbolic" {
		return n.Obj().Name()
	}
	return ""
}

// explode views a struct-sorted term field by field.
func (e *Engine) explode(v Value, t types.Type) StructV {
	switch x := v.(type) {
	case StructV:
		return x
	case Term:
		si, ok := structOf[structTypeName(t)]
		if !ok || si.Sort != x.S {
			unsup("fields of a value of type %s", t)
		}
		u := t.Underlying().(*types.Struct)
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.name(Term{sortOf(u.Field(i).Type()), "(" + si.Sel[i] + " " + x.E + ")"})
		}
		return StructV{t, f}
	}
	unsup("fields of %T", v)
	return StructV{}
}

func (e *Engine) field(v Value, t types.Type, i int) Value {
	switch x := v.(type) {
	case StructV:
		return x.F[i]
	case Term:
		si, ok := structOf[structTypeName(t)]
		if !ok || si.Sort != x.S {
			unsup("field of a value of type %s", t)
		}
		u := t.Underlying().(*types.Struct)
		return e.name(Term{sortOf(u.Field(i).Type()), "(" + si.Sel[i] + " " + x.E + ")"})
	}
	unsup("field of %T", v)
	return nil
}

// content is the sequence term of a slice value.
func (e *Engine) content(st *State, v Value, t types.Type) Term {
	switch x := v.(type) {
	case Term:
		return x
	case NilV:
		if isDense(x.T) {
			return Term{"Dense", "dempty"}
		}
		z, ok := zeroTerm(sortOf(x.T))
		if !ok {
			unsup("nil of type %s", x.T)
		}
		return z
	case Ref:
		o := st.heap[x.ID]
		c := e.objTerm(st, x.ID)
		if len(x.Path) > 0 {
			r := e.getTermPath(c, x.Path)
			return r
		}
		_ = o
		return c
	}
	unsup("slice contents of %T", v)
	return Term{}
}

// objTerm turns the contents of an array object into a term (elements become shared).
func (e *Engine) objTerm(st *State, id int) Term {
	o := st.heap[id]
	if !o.Arr {
		unsup("array contents of a cell")
	}
	if o.Elems == nil {
		return o.Content
	}
	l := seqLetter(o.Sort)
	if l == "" {
		unsup("sequence of %s", o.T)
	}
	c := "empty" + l
	if n := len(o.Elems); n > 8 {
		same := true
		f := e.toTerm(st, o.Elems[0]).E
		for _, x := range o.Elems {
			if e.toTerm(st, x).E != f {
				same = false
			}
		}
		if same {
			return Term{o.Sort, fmt.Sprintf("(rep%s %d %s)", l, n, f)}
		}
	}
	for _, x := range o.Elems {
		c = "(snoc" + l + " " + c + " " + e.toTerm(st, x).E + ")"
	}
	return e.name(Term{o.Sort, c})
}

// toTerm gives the mathematical value of v without sharing anything.
func (e *Engine) toTerm(st *State, v Value) Term {
	switch x := v.(type) {
	case Term:
		return x
	case StructV:
		si, ok := structOf[structTypeName(x.T)]
		if !ok {
			unsup("value of struct type %s", x.T)
		}
		p := make([]string, len(x.F))
		for i, f := range x.F {
			p[i] = e.toTerm(st, f).E
		}
		return e.name(Term{si.Sort, "(" + si.Ctor + " " + strings.Join(p, " ") + ")"})
	case Ref, NilV:
		if n, ok := x.(NilV); ok {
			if _, isp := n.T.Underlying().(*types.Pointer); isp {
				unsup("nil pointer as a value")
			}
		}
		return e.content(st, v, nil)
	case IfaceV:
		ti, ok := tagByType[typeKey(x.T)]
		if !ok {
			return e.other(x)
		}
		if ti.Tag == "AEnv" {
			return e.envTerm(st, x.V)
		}
		if p, isp := x.V.(PtrV); isp {
			in := e.loadPath(st, p)
			return Term{"Any", "(" + ti.Tag + " " + e.toTerm(st, in).E + ")"}
		}
		return e.name(Term{"Any", "(" + ti.Tag + " " + e.toTerm(st, x.V).E + ")"})
	}
	unsup("term of %T", v)
	return Term{}
}

var otherIDs = map[string]int{}

// other is an interface value outside the closed world of contracts (errors mostly).
func (e *Engine) other(x IfaceV) Term {
	e.n++
	return Term{"Any", fmt.Sprintf("(AOther %d)", 1000+e.n)}
}

func (e *Engine) envTerm(st *State, v Value) Term {
	if p, ok := v.(PtrV); ok && len(p.Path) == 0 {
		return Term{"Any", fmt.Sprintf("(AEnv %d)", p.ID)}
	}
	if t, ok := v.(Term); ok {
		return Term{"Any", "(AEnv " + t.E + ")"}
	}
	unsup("environment value %T", v)
	return Term{}
}

// capture gives the value of v and gives up ownership of what it refers to.
func (e *Engine) capture(st *State, v Value) Term {
	t := e.toTerm(st, v)
	e.freeze(st, v)
	return t
}

func (e *Engine) freeze(st *State, v Value) {
	switch x := v.(type) {
	case StructV:
		for _, f := range x.F {
			e.freeze(st, f)
		}
	case Ref:
		o := *st.heap[x.ID]
		if !o.Moved {
			o.Moved = true
			st.heap[x.ID] = &o
			for _, el := range o.Elems {
				e.freeze(st, el)
			}
		}
	case IfaceV:
		e.freeze(st, x.V)
	case PtrV:
		if x.Base == nil {
			o := st.heap[x.ID]
			if o != nil && !o.Arr && o.Global == "" {
				e.freeze(st, o.V)
			}
		}
	}
}

// owned reports whether everything v refers to belongs to the running function.
func (e *Engine) owned(st *State, v Value) bool {
	switch x := v.(type) {
	case Term:
		return seqLetter(x.S) == "" && x.S != "Any" && x.S != "Mono" && x.S != "Poly" && x.S != "SC" && x.S != "Dense"
	case NilV:
		return true
	case StructV:
		for _, f := range x.F {
			if !e.owned(st, f) {
				return false
			}
		}
		return true
	case Ref:
		o := st.heap[x.ID]
		return o.Owned && !o.Moved && (len(x.Path) == 0 || o.Deep && depth(x.Path) == 1)
	case IfaceV:
		return e.owned(st, x.V)
	}
	return false
}

func (e *Engine) getTermPath(t Term, path []PathEl) Term {
	for _, p := range path {
		if p.Field >= 0 {
			si := structOf[structTypeName(p.T)]
			u := p.T.Underlying().(*types.Struct)
			t = Term{sortOf(u.Field(p.Field).Type()), "(" + si.Sel[p.Field] + " " + t.E + ")"}
		} else {
			l := seqLetter(t.S)
			if l == "" {
				unsup("index into %s", t.S)
			}
			t = Term{elemOf[l], "(at" + l + " " + t.E + " " + p.Idx.E + ")"}
		}
	}
	return e.name(t)
}

func (e *Engine) setTermPath(t Term, path []PathEl, v Term) Term {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Field >= 0 {
		n := structTypeName(p.T)
		si, ok := structOf[n]
		if !ok {
			unsup("store into struct %s", p.T)
		}
		u := p.T.Underlying().(*types.Struct)
		parts := make([]string, u.NumFields())
		for i := range parts {
			f := Term{sortOf(u.Field(i).Type()), "(" + si.Sel[i] + " " + t.E + ")"}
			if i == p.Field {
				f = e.setTermPath(f, path[1:], v)
			}
			parts[i] = f.E
		}
		return e.name(Term{si.Sort, "(" + si.Ctor + " " + strings.Join(parts, " ") + ")"})
	}
	l := seqLetter(t.S)
	inner := e.setTermPath(Term{elemOf[l], "(at" + l + " " + t.E + " " + p.Idx.E + ")"}, path[1:], v)
	return e.name(Term{t.S, "(upd" + l + " " + t.E + " " + p.Idx.E + " " + inner.E + ")"})
}

func (e *Engine) loadPath(st *State, p PtrV) Value {
	if p.Base != nil {
		return e.getTermPath(p.Base.(Term), p.Path)
	}
	o := st.heap[p.ID]
	if o == nil {
		unsup("load through an unknown pointer")
	}
	if !o.Arr {
		return e.getPath(st, o.V, p.Path)
	}
	if len(p.Path) == 0 {
		return Ref{ID: p.ID}
	}
	i := p.Path[0]
	if o.Elems != nil {
		if n, ok := isIntLit(i.Idx.E); ok && n >= 0 && int(n) < len(o.Elems) {
			return e.getPath(st, o.Elems[n], p.Path[1:])
		}
	}
	c := e.objTerm(st, p.ID)
	t := e.getTermPath(c, p.Path)
	if seqLetter(t.S) != "" && o.Owned && !o.Moved && (o.Deep && depth(p.Path) == 1 || o.Own != "" && o.Own == pathKey(p.Path)) {
		return Ref{ID: p.ID, Path: append([]PathEl{}, p.Path...)}
	}
	if l := seqLetter(t.S); l != "" && o.Owned && !o.Moved && e.S.valid("(= (len"+l+" "+t.E+") 0)") {
		// an empty slice in an array of the function's own (an append to it allocates)
		return Term{t.S, "empty" + l}
	}
	return t
}

func (e *Engine) getPath(st *State, v Value, path []PathEl) Value {
	for len(path) > 0 {
		p := path[0]
		if p.Field >= 0 {
			v = e.field(v, p.T, p.Field)
		} else {
			switch x := v.(type) {
			case Ref:
				return e.loadPath(st, PtrV{ID: x.ID, Path: append(append([]PathEl{}, x.Path...), path...)})
			default:
				v = e.getTermPath(e.toTerm(st, v), []PathEl{p})
			}
		}
		path = path[1:]
	}
	return v
}

// ownWrite records that a write was shown to go into memory of the function's own.
func (e *Engine) ownWrite(pos string) {
	if e.quiet > 0 || !e.C.frames[e.prop] || e.writes[pos] {
		return
	}
	if e.writes == nil {
		e.writes = map[string]bool{}
	}
	e.writes[pos] = true
	e.Obls = append(e.Obls, Obl{Name: "the write is into memory of the function's own", Kind: "frame", Pos: pos, Tags: e.prop, OK: true})
}

func (e *Engine) frameViolation(st *State, what, pos string) {
	e.oblige(st, "frame", "frame: "+what, "C10", "false", pos)
	panic(pathEnd{})
}

type pathEnd struct{}

func (e *Engine) storePath(st *State, p PtrV, v Value, pos string) {
	if p.Base != nil {
		e.frameViolation(st, "write into a slice that is not the function's own", pos)
	}
	o := *st.heap[p.ID]
	if !o.Arr {
		o.V = e.setPath(st, o.V, p.Path, v, pos)
		st.heap[p.ID] = &o
		return
	}
	if !o.Owned || o.Moved {
		w := "write into shared memory"
		if o.Moved {
			w = "write into memory already shared with another value"
		}
		e.frameViolation(st, w, pos)
	}
	if len(p.Path) == 0 {
		unsup("store of a whole array")
	}
	e.ownWrite(pos)
	i := p.Path[0]
	if o.Elems != nil {
		if n, ok := isIntLit(i.Idx.E); ok && n >= 0 && int(n) < len(o.Elems) {
			el := append([]Value{}, o.Elems...)
			el[n] = e.setPath(st, el[n], p.Path[1:], v, pos)
			o.Elems = el
			st.heap[p.ID] = &o
			return
		}
	}
	// nested slices inside the elements must be the function's own
	if d := depth(p.Path); d > 2 || d > 1 && !o.Deep {
		e.frameViolation(st, "write into a row that is not the function's own", pos)
	}
	own := e.owned(st, v)
	// Deep says that the slices one level down are the function's own
	deep := o.Deep && (own || depth(p.Path) > 1)
	c := e.objTerm(st, p.ID)
	if o.Elems != nil {
		for _, el := range o.Elems {
			if !e.owned(st, el) {
				deep = false
			}
			e.freeze(st, el)
		}
	}
	t := e.capture(st, v)
	o = *st.heap[p.ID]
	o.Content = e.setTermPath(c, p.Path, t)
	o.Elems = nil
	o.Deep = deep
	if o.Pending == pathKey(p.Path) {
		o.Pending = ""
	}
	// the slice most recently stored is the function's own although others need not be
	o.Own = ""
	if seqLetter(t.S) != "" && own {
		o.Own = pathKey(p.Path)
	}
	st.heap[p.ID] = &o
}

func (e *Engine) setPath(st *State, old Value, path []PathEl, v Value, pos string) Value {
	if len(path) == 0 {
		return v
	}
	p := path[0]
	if p.Field >= 0 {
		s := e.explode(old, p.T)
		f := append([]Value{}, s.F...)
		f[p.Field] = e.setPath(st, f[p.Field], path[1:], v, pos)
		return StructV{s.T, f}
	}
	switch x := old.(type) {
	case Ref:
		e.storePath(st, PtrV{ID: x.ID, Path: append(append([]PathEl{}, x.Path...), path...)}, v, pos)
		return old
	}
	e.frameViolation(st, "write into a slice that is not the function's own", pos)
	return nil
}

// appendTo builds append(base, extra...) .
func (e *Engine) appendTo(st *State, base Value, extra Value, t types.Type, pos string) Value {
	sort := sortOf(t)
	l := seqLetter(sort)
	elemT := t.Underlying().(*types.Slice).Elem()
	// what is appended
	var elems []Value
	var ext *Term
	extDeep := true
	switch x := extra.(type) {
	case NilV:
	case Ref:
		o := st.heap[x.ID]
		if o.Elems != nil && len(x.Path) == 0 {
			elems = o.Elems
		} else {
			c := e.content(st, x, nil)
			ext = &c
			if hasRefs(elemT) {
				extDeep = false
				e.freeze(st, x)
			}
		}
	case Term:
		ext = &x
		if hasRefs(elemT) {
			extDeep = false
		}
	default:
		unsup("append of %T", extra)
	}
	if len(elems) == 0 && ext == nil {
		return base
	}
	var bc Term
	var belems []Value
	deep := true
	concrete := false
	switch x := base.(type) {
	case NilV:
		concrete = true
	case Ref:
		o := *st.heap[x.ID]
		if len(x.Path) > 0 {
			bc = e.content(st, x, nil)
			if !o.Owned || o.Moved || !(o.Deep && depth(x.Path) == 1 || o.Own == pathKey(x.Path)) || o.Pending != "" {
				e.frameViolation(st, "append to a slice that is not the function's own", pos)
			}
			o.Pending = pathKey(x.Path)
			st.heap[x.ID] = &o
			break
		}
		if o.Why == "full" {
			bc, deep = e.objTerm(st, x.ID), false
			break
		}
		if !o.Owned || o.Moved {
			e.frameViolation(st, "append to a slice that is not the function's own", pos)
		}
		deep = o.Deep
		if o.Elems != nil {
			belems, concrete = o.Elems, true
		} else {
			bc = o.Content
		}
		o.Moved = true
		st.heap[x.ID] = &o
	case Term:
		if strings.HasPrefix(x.E, "empty") {
			concrete = true
			break
		}
		if id, ok := e.envOwned(st, x); ok { // the environment owns its list, which must be stored again
			o := *st.heap[id]
			o.Pending = x.E
			st.heap[id] = &o
			bc, deep = x, true
			break
		}
		e.frameViolation(st, "append to a slice that is not the function's own", pos)
	default:
		unsup("append to %T", base)
	}
	if concrete && ext == nil && len(belems)+len(elems) <= 8 {
		e.ownWrite(pos)
		return Ref{ID: e.newObj(st, &Obj{Arr: true, Elems: append(append([]Value{}, belems...), elems...), T: elemT, Sort: sort, Owned: true, Deep: deep})}
	}
	if l == "" {
		unsup("append to a slice of %s", elemT)
	}
	e.ownWrite(pos)
	if concrete {
		c := "empty" + l
		for _, v := range belems {
			deep = deep && e.owned(st, v)
			c = "(snoc" + l + " " + c + " " + e.capture(st, v).E + ")"
		}
		bc = Term{sort, c}
	}
	c := bc.E
	if ext != nil {
		if c == "empty"+l {
			c = ext.E
		} else {
			c = "(cat" + l + " " + c + " " + ext.E + ")"
		}
		deep = deep && extDeep
	}
	for _, v := range elems {
		deep = deep && e.owned(st, v)
		c = "(snoc" + l + " " + c + " " + e.capture(st, v).E + ")"
		c = e.name(Term{sort, c}).E
	}
	return Ref{ID: e.newObj(st, &Obj{Arr: true, Content: e.name(Term{sort, c}), T: elemT, Sort: sort, Owned: true, Deep: deep})}
}

func (e *Engine) sliceLen(st *State, v Value) string {
	switch x := v.(type) {
	case NilV:
		return "0"
	case Ref:
		o := st.heap[x.ID]
		if o.Elems != nil && len(x.Path) == 0 {
			return intLit(int64(len(o.Elems)))
		}
	}
	c := e.content(st, v, nil)
	if strings.HasPrefix(c.E, "empty") {
		return "0"
	}
	if c.S == "Str" {
		return "(str_len " + c.E + ")"
	}
	return "(len" + seqLetter(c.S) + " " + c.E + ")"
}

// ---- execution ----

func (e *Engine) val(st *State, fr *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{Fn: x}
	case *ssa.Global:
		return e.global(st, x)
	}
	r, ok := fr.env[v]
	if !ok {
		unsup("value %s of %s is not available", v.Name(), fr.fn)
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Interface:
			return Term{"Any", "ANil"}
		}
		return e.zero(c.Type())
	}
	s := sortOf(c.Type())
	switch s {
	case "Int":
		v := constant.ToInt(c.Value)
		if v.Kind() != constant.Int {
			unsup("constant %s", c)
		}
		b, _ := new(big.Int).SetString(v.ExactString(), 10)
		if b.Sign() < 0 {
			return Term{s, "(- " + new(big.Int).Neg(b).String() + ")"}
		}
		return Term{s, b.String()}
	case "Real":
		v := constant.ToFloat(c.Value)
		r, ok := new(big.Rat).SetString(v.ExactString())
		if !ok {
			unsup("constant %s", c)
		}
		return Term{s, realLit(r)}
	case "Bool":
		if constant.BoolVal(c.Value) {
			return Term{s, "true"}
		}
		return Term{s, "false"}
	case "Str":
		return e.str(constant.StringVal(c.Value))
	}
	unsup("constant %s of type %s", c, c.Type())
	return nil
}

func (e *Engine) global(st *State, g *ssa.Global) Value {
	for _, id := range sortedKeys(st.heap) {
		if st.heap[id].Global == g.String() {
			return PtrV{ID: id}
		}
	}
	if e.C.envs[e.prop] && g.Name() == "DefaultEnvironment" {
		return Term{"Int", "envDefault"}
	}
	unsup("global %s", g)
	return nil
}

// enter jumps to block b from block prev.
func (e *Engine) enter(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	e.checkTime()
	idx := -1
	for i, p := range b.Preds {
		if p == prev {
			idx = i
		}
	}
	li := e.P.loopsOf(fr.fn)
	if run, ok := fr.loops[b]; ok {
		// back edge; it may leave loops inside this one
		for i := len(fr.order) - 1; i >= 0 && fr.order[i] != b; i-- {
			if fr.loops[fr.order[i]].bodyOnly {
				return
			}
		}
		vals := e.phiVals(st, fr, b, idx)
		e.backEdge(st, fr, run, vals)
		return
	}
	// leaving loops
	for i := len(fr.order) - 1; i >= 0; i-- {
		h := fr.order[i]
		if !li.body[h][b] {
			if fr.loops[h].bodyOnly {
				return
			}
			delete(fr.loops, h)
			fr.order = fr.order[:i]
		} else {
			break
		}
	}
	if li.body[b] != nil && !e.unrolls(st, fr, b, idx) {
		e.startLoop(st, fr, b, e.phiVals(st, fr, b, idx))
		return
	}
	for _, pv := range e.phiVals(st, fr, b, idx) {
		fr.env[pv.phi] = pv.v
	}
	e.run(st, fr, b, 0)
}

// unrolls reports a loop over a known handful of entries, such as the range over a literal:
// its iterations are followed one by one and nothing is lost.
func (e *Engine) unrolls(st *State, fr *Frame, b *ssa.BasicBlock, idx int) bool {
	if len(b.Instrs) == 0 {
		return false
	}
	cond, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := cond.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS || cmp.Block() != b {
		return false
	}
	off := 0
	x := cmp.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD && add.Block() == b {
		if c, ok := add.Y.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "1" {
			x, off = add.X, 1
		}
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != b {
		return false
	}
	if in, ok := cmp.Y.(ssa.Instruction); ok && e.P.loopsOf(fr.fn).body[b][in.Block()] {
		return false
	}
	lit := func(v Value) (int, bool) {
		t, ok := v.(Term)
		if !ok || t.S != "Int" {
			return 0, false
		}
		if t.E == "(- 1)" {
			return -1, true
		}
		n, err := strconv.Atoi(t.E)
		return n, err == nil
	}
	i, ok := lit(e.val(st, fr, phi.Edges[idx]))
	if !ok {
		return false
	}
	y := e.val(st, fr, cmp.Y)
	n, ok := lit(y)
	if t, isT := y.(Term); !ok && isT && t.S == "Int" && strings.HasPrefix(t.E, "(lenI ") && e.S.valid(mkEq(t.E, "2")) {
		n, ok = 2, true // the two dimensions of an expression
	}
	return ok && i >= -1 && n <= 3 && i+off <= n
}

type phiVal struct {
	phi *ssa.Phi
	v   Value
}

func (e *Engine) phiVals(st *State, fr *Frame, b *ssa.BasicBlock, idx int) []phiVal {
	var out []phiVal
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, phiVal{p, e.val(st, fr, p.Edges[idx])})
	}
	return out
}

func (e *Engine) run(st *State, fr *Frame, b *ssa.BasicBlock, i int) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(pathEnd); ok {
				return
			}
			panic(r)
		}
	}()
	depth := e.S.depth
	defer func() {
		for e.S.depth > depth {
			e.S.pop()
		}
	}()
	for ; i < len(b.Instrs); i++ {
		switch in := b.Instrs[i].(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			e.enter(st, fr, b.Succs[0], b)
			return
		case *ssa.If:
			c := e.toTerm(st, e.val(st, fr, in.Cond)).E
			e.noteBound(st, fr, b, in)
			e.paths++
			pos := e.pos(in.Cond.Pos())
			lt, lf := "", ""
			if c != "true" && c != "false" {
				lt, lf = pos+" true", pos+" false"
			}
			e.fork(st, fr, c, lt, c != "true", func(s *State, f *Frame) { e.enter(s, f, b.Succs[0], b) })
			e.fork(st, fr, mkNot(c), lf, c != "false", func(s *State, f *Frame) { e.enter(s, f, b.Succs[1], b) })
			return
		case *ssa.Return:
			for _, h := range fr.order {
				if fr.loops[h].bodyOnly {
					return
				}
			}
			res := make([]Value, len(in.Results))
			for k, r := range in.Results {
				res[k] = e.val(st, fr, r)
			}
			fr.ret(st, res)
			return
		case *ssa.Panic:
			e.onPanic(st, "panic", e.pos(in.Pos()))
			return
		case *ssa.Call:
			next := i + 1
			e.call(st, fr, in, func(s *State, v Value) {
				f := fr.clone()
				f.env[in] = v
				e.run(s, f, b, next)
			})
			return
		case *ssa.TypeAssert:
			next := i + 1
			e.typeAssert(st, fr, in, func(s *State, v Value) {
				f := fr.clone()
				f.env[in] = v
				e.run(s, f, b, next)
			})
			return
		case *ssa.Next:
			next := i + 1
			e.next(st, fr, in, func(s *State, v Value) {
				f := fr.clone()
				f.env[in] = v
				e.run(s, f, b, next)
			})
			return
		case *ssa.Store:
			p := e.val(st, fr, in.Addr)
			if ep, ok := p.(EnvPtr); ok {
				e.storeEnv(st, ep, e.val(st, fr, in.Val), e.pos(in.Pos()))
				continue
			}
			pp, ok := p.(PtrV)
			if !ok {
				unsup("store through %T", p)
			}
			e.storePath(st, pp, e.val(st, fr, in.Val), e.pos(in.Pos()))
		case *ssa.RunDefers:
		case *ssa.MapUpdate:
			e.mapUpdate(st, fr, in)
		case ssa.Value:
			fr.env[in] = e.eval(st, fr, in)
		default:
			unsup("instruction %s in %s", in, fr.fn)
		}
	}
}

// onPanic ends a path at a panic.
func (e *Engine) onPanic(st *State, what, pos string) {
	if e.quiet == 0 {
		e.panics++
		if e.noPanic != "" {
			e.oblige(st, "nopanic", "never fails: "+what, e.noPanicT, mkNot(e.noPanic), pos)
		}
	}
}

// mustHold: a run-time condition whose failure is a panic.
func (e *Engine) mustHold(st *State, cond, what, pos string) {
	if cond == "true" {
		return
	}
	if e.quiet == 0 && e.noPanic != "" {
		e.oblige(st, "nopanic", "never fails: "+what, e.noPanicT, mkImp(e.noPanic, cond), pos)
	}
	e.assume(cond)
	if cond == "false" {
		panic(pathEnd{})
	}
}

func (e *Engine) eval(st *State, fr *Frame, in ssa.Value) Value {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if a, ok := t.Underlying().(*types.Array); ok {
			el := make([]Value, a.Len())
			for i := range el {
				el[i] = e.zero(a.Elem())
			}
			return PtrV{ID: e.newObj(st, &Obj{Arr: true, Elems: el, T: a.Elem(), Sort: sortOf(types.NewSlice(a.Elem())), Owned: true, Deep: true})}
		}
		return PtrV{ID: e.newObj(st, &Obj{V: e.zero(t), T: t, Owned: true, Deep: true})}
	case *ssa.BinOp:
		return e.binop(st, x.Op, e.val(st, fr, x.X), e.val(st, fr, x.Y), x.X.Type(), x)
	case *ssa.UnOp:
		v := e.val(st, fr, x.X)
		switch x.Op {
		case token.MUL:
			switch p := v.(type) {
			case PtrV:
				return e.loadPath(st, p)
			case EnvPtr:
				return e.loadEnv(st, p)
			case Term:
				if p.S != "SeqR" && p.S != "Dense" {
					unsup("load through a pointer to %s", x.Type())
				}
				return v // pointer to a gonum value, kept as the value
			case Ref:
				return v
			case NilV:
				e.mustHold(st, "false", "nil dereference", e.pos(x.Pos()))
			}
			unsup("load through %T", v)
		case token.SUB:
			t := e.toTerm(st, v)
			if n, ok := isIntLit(t.E); ok {
				return Term{t.S, intLit(-n)}
			}
			return e.name(Term{t.S, "(- " + t.E + ")"})
		case token.NOT:
			return Term{"Bool", mkNot(e.toTerm(st, v).E)}
		}
		unsup("operator %s", x.Op)
	case *ssa.ChangeType:
		v := e.val(st, fr, x.X)
		if s, ok := v.(StructV); ok {
			return StructV{x.Type(), s.F}
		}
		if _, ok := v.(NilV); ok {
			return NilV{x.Type()}
		}
		return v
	case *ssa.ChangeInterface:
		return e.val(st, fr, x.X)
	case *ssa.Convert:
		return e.convert(st, e.val(st, fr, x.X), x.X.Type(), x.Type())
	case *ssa.MakeInterface:
		return IfaceV{types.Unalias(x.X.Type()), e.val(st, fr, x.X)}
	case *ssa.Extract:
		return e.val(st, fr, x.Tuple).(TupleV)[x.Index]
	case *ssa.Field:
		return e.field(e.val(st, fr, x.X), x.X.Type(), x.Field)
	case *ssa.FieldAddr:
		p := e.val(st, fr, x.X)
		if t, ok := p.(Term); ok && t.S == "Int" && isNamed(x.X.Type().Underlying().(*types.Pointer).Elem(), "symbolic", "BasicEnvironment") {
			return EnvPtr{t, x.Field}
		}
		pp, ok := p.(PtrV)
		if !ok {
			unsup("field address through %T", p)
		}
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return PtrV{pp.ID, pp.Base, append(append([]PathEl{}, pp.Path...), PathEl{Field: x.Field, T: st})}
	case *ssa.IndexAddr:
		base := e.val(st, fr, x.X)
		idx := e.toTerm(st, e.val(st, fr, x.Index))
		el := PathEl{Field: -1, Idx: idx}
		switch b := base.(type) {
		case PtrV: // array
			if o := st.heap[b.ID]; b.Base == nil && o != nil && o.Arr && len(b.Path) == 0 {
				e.mustHold(st, mkAnd(mkCmp("<=", "0", idx.E), mkCmp("<", idx.E, e.sliceLen(st, Ref{ID: b.ID}))), "index out of range", e.pos(x.Pos()))
				return PtrV{b.ID, nil, []PathEl{el}}
			}
			unsup("index into an array inside another object")
		case Ref:
			e.mustHold(st, mkAnd(mkCmp("<=", "0", idx.E), mkCmp("<", idx.E, e.sliceLen(st, b))), "index out of range", e.pos(x.Pos()))
			return PtrV{b.ID, nil, append(append([]PathEl{}, b.Path...), el)}
		case Term:
			e.mustHold(st, mkAnd(mkCmp("<=", "0", idx.E), mkCmp("<", idx.E, e.sliceLen(st, b))), "index out of range", e.pos(x.Pos()))
			return PtrV{0, b, []PathEl{el}}
		case NilV:
			e.mustHold(st, "false", "index out of range", e.pos(x.Pos()))
		}
		unsup("index into %T", base)
	case *ssa.Index:
		b := e.val(st, fr, x.X)
		idx := e.toTerm(st, e.val(st, fr, x.Index))
		return e.getPath(st, b, []PathEl{{Field: -1, Idx: idx}})
	case *ssa.MakeSlice:
		n := e.toTerm(st, e.val(st, fr, x.Len))
		elemT := x.Type().Underlying().(*types.Slice).Elem()
		sort := sortOf(x.Type())
		l := seqLetter(sort)
		z := e.toTerm(st, e.zero(elemT))
		e.mustHold(st, mkCmp(">=", n.E, "0"), "negative length", e.pos(x.Pos()))
		if k, ok := isIntLit(n.E); ok && k <= 4 {
			el := make([]Value, k)
			for i := range el {
				el[i] = e.zero(elemT)
			}
			return Ref{ID: e.newObj(st, &Obj{Arr: true, Elems: el, T: elemT, Sort: sort, Owned: true, Deep: true})}
		}
		if l == "" {
			unsup("make of %s", x.Type())
		}
		return Ref{ID: e.newObj(st, &Obj{Arr: true, Content: e.name(Term{sort, "(rep" + l + " " + n.E + " " + z.E + ")"}), T: elemT, Sort: sort, Owned: true, Deep: true})}
	case *ssa.Slice:
		return e.slice(st, fr, x)
	case *ssa.Lookup:
		return e.lookup(st, fr, x)
	case *ssa.MakeMap:
		return e.makeMap(st, x.Type())
	case *ssa.Range:
		return e.rangeOver(st, fr, x)
	case *ssa.MakeClosure:
		b := make([]Value, len(x.Bindings))
		for i, v := range x.Bindings {
			b[i] = e.val(st, fr, v)
		}
		return FuncV{x.Fn.(*ssa.Function), b}
	}
	unsup("instruction %s", in)
	return nil
}

func (e *Engine) slice(st *State, fr *Frame, x *ssa.Slice) Value {
	v := e.val(st, fr, x.X)
	if p, ok := v.(PtrV); ok {
		if o := st.heap[p.ID]; o != nil && o.Arr && len(p.Path) == 0 {
			v = Ref{ID: p.ID}
		} else {
			unsup("slice of an array inside another object")
		}
	}
	if x.Low == nil && x.High == nil && x.Max == nil {
		return v
	}
	n := e.sliceLen(st, v)
	lo, hi := "0", n
	if x.Low != nil {
		lo = e.toTerm(st, e.val(st, fr, x.Low)).E
	}
	if x.High != nil {
		hi = e.toTerm(st, e.val(st, fr, x.High)).E
	}
	if lo == "0" && hi == n && x.Max == nil {
		if _, ok := v.(Ref); ok {
			return v // the whole slice, with its capacity
		}
	}
	c := e.content(st, v, nil)
	if c.S == "Str" {
		return e.fresh("Str", "substr")
	}
	l := seqLetter(c.S)
	// the length bound is the capacity in Go; contents beyond the length are not modelled
	e.mustHold(st, mkAnd(mkCmp("<=", "0", lo), mkCmp("<=", lo, hi)), "slice bounds", e.pos(x.Pos()))
	if x.High != nil && hi != n {
		if !e.S.valid(mkCmp("<=", hi, n)) {
			unsup("slice beyond the length of the operand")
		}
	}
	why := ""
	if x.Max != nil {
		mx := e.toTerm(st, e.val(st, fr, x.Max)).E
		if mx == hi || e.S.valid(mkEq(mx, hi)) {
			why = "full"
		}
	}
	t := c
	if !(lo == "0" && hi == n) {
		t = e.name(Term{c.S, "(sub" + l + " " + c.E + " " + lo + " " + hi + ")"})
	}
	e.freeze(st, v)
	return Ref{ID: e.newObj(st, &Obj{Arr: true, Content: t, T: nil, Sort: c.S, Owned: false, Moved: true, Why: why})}
}

func (e *Engine) convert(st *State, v Value, from, to types.Type) Value {
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		if fs == "Str" || fs == "Int" || fs == "Real" || fs == "Bool" {
			if fs == "Int" && !sameInt(from, to) {
				t := e.toTerm(st, v)
				e.trusted["integer conversions are exact"] = true
				return t
			}
			return v
		}
		return v
	}
	t := e.toTerm(st, v)
	switch {
	case fs == "Int" && ts == "Real":
		if n, ok := isIntLit(t.E); ok {
			return Term{"Real", realLit(big.NewRat(n, 1))}
		}
		return e.name(Term{"Real", "(to_real " + t.E + ")"})
	case fs == "Real" && ts == "Int":
		return e.name(Term{"Int", "(trunc " + t.E + ")"})
	case ts == "Str":
		return e.fresh("Str", "str")
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

func sameInt(a, b types.Type) bool { return a.Underlying() == b.Underlying() }

func (e *Engine) isNil(st *State, v Value) (string, bool) {
	switch x := v.(type) {
	case NilV:
		return "true", true
	case PtrV, FuncV:
		return "false", true
	case IfaceV:
		return "false", true
	case Term:
		if x.S == "Any" {
			if tg := st.tags[x.E]; tg != "" {
				if tg == "ANil" {
					return "true", true
				}
				return "false", true
			}
			return mkEq(x.E, "ANil"), true
		}
		if seqLetter(x.S) != "" {
			return "(isnil" + seqLetter(x.S) + " " + x.E + ")", false
		}
		if x.S == "VMap" {
			return "(isnilVMap " + x.E + ")", true
		}
	}
	return "", false
}

func (e *Engine) binop(st *State, op token.Token, a, b Value, t types.Type, at ssa.Instruction) Value {
	switch op {
	case token.EQL, token.NEQ:
		r := e.equal(st, a, b, t)
		if op == token.NEQ {
			r = mkNot(r)
		}
		return Term{"Bool", r}
	}
	x, y := e.toTerm(st, a), e.toTerm(st, b)
	switch x.S {
	case "Int", "Real":
		switch op {
		case token.LSS:
			return Term{"Bool", mkCmp("<", x.E, y.E)}
		case token.LEQ:
			return Term{"Bool", mkCmp("<=", x.E, y.E)}
		case token.GTR:
			return Term{"Bool", mkCmp(">", x.E, y.E)}
		case token.GEQ:
			return Term{"Bool", mkCmp(">=", x.E, y.E)}
		case token.ADD:
			return e.name(Term{x.S, mkArith("+", x.E, y.E)})
		case token.SUB:
			return e.name(Term{x.S, mkArith("-", x.E, y.E)})
		case token.MUL:
			return e.name(Term{x.S, mkArith("*", x.E, y.E)})
		case token.QUO:
			if x.S == "Real" {
				return e.name(Term{x.S, "(/ " + x.E + " " + y.E + ")"})
			}
			e.mustHold(st, mkNot(mkEq(y.E, "0")), "division by zero", e.pos(at.Pos()))
			return e.name(Term{x.S, "(tdiv " + x.E + " " + y.E + ")"})
		case token.REM:
			e.mustHold(st, mkNot(mkEq(y.E, "0")), "division by zero", e.pos(at.Pos()))
			return e.name(Term{x.S, "(tmod " + x.E + " " + y.E + ")"})
		}
	case "Bool":
		switch op {
		case token.AND, token.LAND:
			return Term{"Bool", mkAnd(x.E, y.E)}
		case token.OR, token.LOR:
			return Term{"Bool", mkOr(x.E, y.E)}
		}
	case "Str":
		if op == token.ADD {
			return e.fresh("Str", "cat")
		}
		return e.fresh("Bool", "strcmp")
	}
	unsup("operator %s on %s", op, x.S)
	return nil
}

func (e *Engine) equal(st *State, a, b Value, t types.Type) string {
	_, an := a.(NilV)
	_, bn := b.(NilV)
	isIface := false
	if _, ok := t.Underlying().(*types.Interface); ok {
		isIface = true
	}
	if ta, ok := a.(Term); ok && ta.E == "ANil" {
		an = true
	}
	if tb, ok := b.(Term); ok && tb.E == "ANil" {
		bn = true
	}
	if an || bn {
		o := a
		if an {
			o = b
		}
		if r, ok := e.isNil(st, o); ok {
			return r
		}
		if seqSort := sortOf(t); seqLetter(seqSort) != "" {
			// whether an empty slice is nil is not tracked: a non-empty one is not
			c := e.content(st, o, nil)
			f := e.fresh("Bool", "isnil")
			e.assume(mkImp(f.E, mkEq("(len"+seqLetter(c.S)+" "+c.E+")", "0")))
			return f.E
		}
		unsup("nil comparison of %T", o)
	}
	if isIface {
		ia, ok1 := a.(IfaceV)
		ib, ok2 := b.(IfaceV)
		if ok1 && ok2 && !types.Identical(ia.T, ib.T) {
			return "false"
		}
		// comparing values of uncomparable types panics
		return mkEq(e.toTerm(st, a).E, e.toTerm(st, b).E)
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		pa, ok1 := a.(PtrV)
		pb, ok2 := b.(PtrV)
		if ok1 && ok2 && pa.Base == nil && pb.Base == nil {
			if pa.ID == pb.ID && pathKey(pa.Path) == pathKey(pb.Path) {
				return "true"
			}
			return "false"
		}
		unsup("pointer comparison")
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		if isNamed(t, "symbolic", "Variable") {
			return mkEq(e.toTerm(st, a).E, e.toTerm(st, b).E)
		}
		x, y := e.explode(a, t), e.explode(b, t)
		var cs []string
		for i := 0; i < s.NumFields(); i++ {
			cs = append(cs, e.equal(st, x.F[i], y.F[i], s.Field(i).Type()))
		}
		return mkAnd(cs...)
	}
	return mkEq(e.toTerm(st, a).E, e.toTerm(st, b).E)
}

// unwrap gives an Any term with a known constructor its concrete form.
func (e *Engine) unwrap(st *State, v Value) Value {
	if t, ok := v.(Term); ok && t.S == "Any" {
		if tg := st.tags[t.E]; tg != "" && tg != "ANil" {
			ti := tagByName[tg]
			if ti.Type == nil {
				return v
			}
			return IfaceV{ti.Type, e.project(t, ti)}
		}
	}
	return v
}

func (e *Engine) project(t Term, ti tagInfo) Value {
	return e.name(Term{ti.Sort, "(" + ti.Sel + " " + t.E + ")"})
}

func (e *Engine) typeAssert(st *State, fr *Frame, in *ssa.TypeAssert, k func(*State, Value)) {
	v := e.unwrap(st, e.val(st, fr, in.X))
	at := types.Unalias(in.AssertedType)
	it, isIface := at.Underlying().(*types.Interface)
	mk := func(val Value, ok string) Value {
		if in.CommaOk {
			return TupleV{val, Term{"Bool", ok}}
		}
		return val
	}
	pos := e.pos(in.Pos())
	fail := func(st *State) {
		if in.CommaOk {
			k(st, mk(e.zero(at), "false"))
		} else {
			e.onPanic(st, "type assertion to "+at.String(), pos)
		}
	}
	if iv, ok := v.(IfaceV); ok {
		good := false
		if isIface {
			good = types.Implements(iv.T, it)
		} else {
			good = types.Identical(iv.T, at)
		}
		if good {
			if isIface {
				k(st, mk(iv, "true"))
			} else {
				k(st, mk(iv.V, "true"))
			}
		} else {
			fail(st)
		}
		return
	}
	t, ok := v.(Term)
	if !ok || t.S != "Any" {
		unsup("type assertion on %T", v)
	}
	if t.E == "ANil" || st.tags[t.E] == "ANil" {
		fail(st)
		return
	}
	if isIface {
		var cs []string
		for _, ti := range implementers(it) {
			cs = append(cs, "((_ is "+ti.Tag+") "+t.E+")")
		}
		c := mkOr(cs...)
		if isError(in.X.Type()) {
			unsup("type assertion on an error")
		}
		e.fork(st, fr, c, pos+" is "+at.String(), true, func(s *State, f *Frame) { k(s, mk(t, "true")) })
		e.fork(st, fr, mkNot(c), pos+" is not "+at.String(), true, func(s *State, f *Frame) { fail(s) })
		return
	}
	ti, ok := tagByType[typeKey(at)]
	if !ok {
		// outside the closed world: only AOther can be one
		e.fork(st, fr, "((_ is AOther) "+t.E+")", "", true, func(s *State, f *Frame) {
			k(s, mk(OpaqueV{at}, "true"))
		})
		fail(st)
		return
	}
	c := "((_ is " + ti.Tag + ") " + t.E + ")"
	e.fork(st, fr, c, pos+" is "+ti.Tag, true, func(s *State, f *Frame) {
		s.tags[t.E] = ti.Tag
		k(s, mk(e.project(t, ti), "true"))
	})
	e.fork(st, fr, mkNot(c), pos+" is not "+ti.Tag, true, func(s *State, f *Frame) { fail(s) })
}

// ---- loop structure ----

type loopInfo struct {
	body map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (p *Program) loopsOf(fn *ssa.Function) *loopInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if li, ok := p.loops[fn]; ok {
		return li
	}
	li := &loopInfo{map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				m := li.body[s]
				if m == nil {
					m = map[*ssa.BasicBlock]bool{s: true}
					li.body[s] = m
				}
				var stack []*ssa.BasicBlock
				if !m[b] {
					m[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, q := range x.Preds {
						if !m[q] {
							m[q] = true
							stack = append(stack, q)
						}
					}
				}
			}
		}
	}
	p.loops[fn] = li
	return li
}

func sortedVals(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
