package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type contF func(st *State, v Value)

func (e *Engine) call(st *State, fr *Frame, in *ssa.Call, k contF) {
	cc := in.Common()
	pos := e.pos(in.Pos())
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(cc.Args))
		for i, a := range cc.Args {
			args[i] = e.val(st, fr, a)
		}
		k(st, e.builtin(st, b.Name(), args, cc, pos))
		return
	}
	args := make([]Value, 0, len(cc.Args)+1)
	if cc.IsInvoke() {
		recv := e.unwrap(st, e.val(st, fr, cc.Value))
		for _, a := range cc.Args {
			args = append(args, e.val(st, fr, a))
		}
		e.invoke(st, fr, in, recv, cc.Method, args, pos, k)
		return
	}
	for _, a := range cc.Args {
		args = append(args, e.val(st, fr, a))
	}
	var fn *ssa.Function
	if f := cc.StaticCallee(); f != nil {
		fn = f
		if _, ok := cc.Value.(*ssa.MakeClosure); ok {
			fv := e.val(st, fr, cc.Value).(FuncV)
			e.callFn(st, fr, in, fn, args, fv.Bindings, pos, k)
			return
		}
	} else if fv, ok := e.val(st, fr, cc.Value).(FuncV); ok {
		e.callFn(st, fr, in, fv.Fn, args, fv.Bindings, pos, k)
		return
	} else {
		unsup("call of a function value")
	}
	e.callFn(st, fr, in, fn, args, nil, pos, k)
}

func (e *Engine) invoke(st *State, fr *Frame, in *ssa.Call, recv Value, m *types.Func, args []Value, pos string, k contF) {
	switch x := recv.(type) {
	case IfaceV:
		fn := e.method(x.T, m)
		if fn == nil {
			unsup("method %s of %s", m.Name(), x.T)
		}
		e.callFn(st, fr, in, fn, append([]Value{x.V}, args...), nil, pos, k)
		return
	case Ref:
		if m.Pkg() != nil && strings.HasSuffix(m.Pkg().Path(), "gonum/mat") {
			typ := "VecDense"
			if st.heap[x.ID].Sort == "Dense" {
				typ = "Dense"
			}
			k(st, e.gonum(st, m.Name(), typ, append([]Value{x}, args...), pos))
			return
		}
	case Term:
		if x.S == "Dense" {
			k(st, e.gonum(st, m.Name(), "Dense", append([]Value{x}, args...), pos))
			return
		}
		if x.S == "SeqR" {
			k(st, e.gonum(st, m.Name(), "VecDense", append([]Value{x}, args...), pos))
			return
		}
		if x.E == "ANil" || st.tags[x.E] == "ANil" {
			e.onPanic(st, "nil interface", pos)
			return
		}
		it := in.Common().Value.Type().Underlying().(*types.Interface)
		if isError(in.Common().Value.Type()) {
			e.mustHold(st, mkNot(mkEq(x.E, "ANil")), "nil error", pos)
			k(st, e.fresh("Str", "errstr"))
			return
		}
		impl := implementers(it)
		var names []string
		for _, t := range impl {
			names = append(names, t.Tag)
		}
		if x.E != "" {
			e.mustHold(st, testers(names, x.E), "call on a nil or foreign value", pos)
		}
		// only the tags still possible
		uses := e.C.forMethod(m.Name(), impl)
		if len(uses) > 0 {
			covered := map[string]bool{}
			for _, u := range uses {
				for _, t := range catTags(u.Cat) {
					covered[t] = true
				}
			}
			all := true
			for _, t := range impl {
				if !covered[t.Tag] {
					all = false
				}
			}
			if all {
				e.applyContracts(st, fr, in, uses, nil, m.Type().(*types.Signature), append([]Value{x}, args...), impl, pos, k)
				return
			}
		}
		for _, ti := range impl {
			ti := ti
			e.fork(st, fr, "((_ is "+ti.Tag+") "+x.E+")", pos+" receiver is "+ti.Tag, true, func(s *State, f *Frame) {
				s.tags[x.E] = ti.Tag
				e.invoke(s, f, in, IfaceV{ti.Type, e.project(x, ti)}, m, args, pos, k)
			})
		}
		return
	}
	unsup("method call on %T", recv)
}

func (e *Engine) method(t types.Type, m *types.Func) *ssa.Function {
	ms := e.P.Prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	e.P.mu.Lock()
	defer e.P.mu.Unlock()
	return e.P.Prog.MethodValue(sel)
}

func (e *Engine) callFn(st *State, fr *Frame, in *ssa.Call, fn *ssa.Function, args, bindings []Value, pos string, k contF) {
	if o := fn.Origin(); o != nil && fn.Blocks != nil {
		// instance of a generic function
	} else if fn.Pkg == nil && fn.Synthetic != "" && fn.Blocks != nil {
		// wrapper of a method with a value receiver called through a pointer, or of a promoted method
	} else if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		e.external(st, fr, in, fn, args, pos, k)
		return
	}
	uses := e.C.forFunc(fn)
	if len(uses) > 0 && fn.Blocks != nil {
		e.applyContracts(st, fr, in, uses, fn, fn.Signature, args, nil, pos, k)
		return
	}
	e.inline(st, fr, in, fn, args, bindings, pos, k)
}

func (e *Engine) inline(st *State, fr *Frame, in *ssa.Call, fn *ssa.Function, args, bindings []Value, pos string, k contF) {
	depth := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			unsup("recursive function %s has no contract", fn)
		}
		depth++
	}
	if depth > 14 {
		unsup("call depth")
	}
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	if fn.Recover != nil {
		unsup("recover in %s", fn)
	}
	e.inlined[fn.String()] = true
	g := &Frame{fn: fn, env: map[ssa.Value]Value{}, parent: fr, path: fmt.Sprintf("%s>%s", fr.path, e.shortPos(in, fr)), loops: map[*ssa.BasicBlock]*LoopRun{}}
	for i, p := range fn.Params {
		g.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		g.env[p] = bindings[i]
	}
	g.ret = func(s *State, res []Value) {
		switch len(res) {
		case 0:
			k(s, TupleV{})
		case 1:
			k(s, res[0])
		default:
			k(s, TupleV(res))
		}
	}
	e.enter(st, g, fn.Blocks[0], nil)
}

func (e *Engine) shortPos(in *ssa.Call, fr *Frame) string {
	if in == nil {
		return "?"
	}
	return in.Name() + "@" + fr.fn.Name()
}

// bindTerm gives the term a contract sees for an argument.
func (e *Engine) bindTerm(st *State, v Value, t types.Type, asAny bool) Term {
	if p, ok := v.(PtrV); ok && p.Base == nil {
		if _, isp := t.(*types.Pointer); isp {
			if o := st.heap[p.ID]; o != nil && !o.Arr && len(p.Path) == 0 && isNamed(o.T, "symbolic", "BasicEnvironment") {
				return e.envTerm(st, v)
			}
			in := e.loadPath(st, p)
			v = in
		}
	}
	tm := e.toTerm(st, v)
	if asAny && tm.S != "Any" {
		ti, ok := tagByType[typeKey(t)]
		if !ok {
			unsup("argument of type %s as an expression", t)
		}
		return e.name(Term{"Any", "(" + ti.Tag + " " + tm.E + ")"})
	}
	return e.name(tm)
}

// applyContracts replaces a call by what the contracts say about it.
func (e *Engine) applyContracts(st *State, fr *Frame, in *ssa.Call, uses []Use, fn *ssa.Function, sig *types.Signature, args []Value, impl []tagInfo, pos string, k contF) {
	var callee string
	if fn != nil {
		callee = fn.String()
	} else {
		callee = in.Common().Method.Name()
	}
	// types of the arguments
	var ptypes []types.Type
	if fn != nil {
		for _, p := range fn.Params {
			ptypes = append(ptypes, p.Type())
		}
	} else {
		ptypes = append(ptypes, in.Common().Value.Type())
		for i := 0; i < sig.Params().Len(); i++ {
			ptypes = append(ptypes, sig.Params().At(i).Type())
		}
	}
	terms := make([]Term, len(args))
	anys := make([]Term, len(args))
	tagsOfArg := make([]string, len(args))
	for i, a := range args {
		a = e.unwrap(st, a)
		if _, isI := ptypes[i].Underlying().(*types.Interface); isI {
			terms[i] = e.bindTerm(st, a, ptypes[i], true)
			anys[i] = terms[i]
			if iv, ok := a.(IfaceV); ok {
				if ti, ok := tagByType[typeKey(iv.T)]; ok {
					tagsOfArg[i] = ti.Tag
				} else {
					tagsOfArg[i] = "AOther"
				}
			} else if terms[i].E == "ANil" {
				tagsOfArg[i] = "ANil"
			}
		} else {
			terms[i] = e.bindTerm(st, a, ptypes[i], false)
			anys[i] = terms[i]
			if ti, ok := tagByType[typeKey(ptypes[i])]; ok {
				anys[i] = e.name(Term{"Any", "(" + ti.Tag + " " + terms[i].E + ")"})
				if terms[i].S == "Any" {
					anys[i] = terms[i]
				}
				tagsOfArg[i] = ti.Tag
			}
		}
	}
	// ownership
	res := sig.Results()
	keeps := false
	freshRes := false
	for _, u := range uses {
		if u.C.Fresh {
			freshRes = true
		}
	}
	for i := 0; i < res.Len(); i++ {
		if hasRefs(res.At(i).Type()) {
			keeps = true
		}
	}
	if keeps && !freshRes {
		for _, a := range args {
			e.freeze(st, a)
		}
	}
	// results
	results := make([]Value, res.Len())
	rterms := make([]Term, res.Len())
	var defs []*Sx
	var defArgs []string
	var defUse Use
	for _, u := range uses {
		if u.C.Result != nil {
			defs, defArgs, defUse = u.C.Result, u.C.Args, u
		}
	}
	bind := func(u Use, names []string) map[string]string {
		m := map[string]string{}
		for i, n := range names {
			if i < len(terms) {
				if u.Cat != "" {
					m[n] = anys[i].E
				} else {
					m[n] = terms[i].E
				}
				if u.Cat != "" && i > 0 {
					m[n] = terms[i].E
				}
			}
		}
		return m
	}
	for i := range results {
		t := res.At(i).Type()
		s := sortOf(t)
		if s == "" {
			unsup("result of type %s of %s", t, callee)
		}
		if i < len(defs) && !(defs[i].L == nil && defs[i].A == "_") {
			rterms[i] = e.name(Term{s, defs[i].subst(bind(defUse, defArgs))})
		} else {
			rterms[i] = e.fresh(s, "res")
			if it, ok := t.Underlying().(*types.Interface); ok {
				if isError(t) {
					e.assume("(or (= " + rterms[i].E + " ANil) ((_ is AOther) " + rterms[i].E + "))")
				} else if it.NumMethods() > 0 {
					var ns []string
					for _, ti := range implementers(it) {
						ns = append(ns, ti.Tag)
					}
					e.assume(mkOr("(= "+rterms[i].E+" ANil)", testers(ns, rterms[i].E)))
				}
			}
			if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				e.assume("(>= " + rterms[i].E + " 0)")
			}
		}
		results[i] = rterms[i]
		if freshRes && seqLetter(s) != "" {
			results[i] = Ref{ID: e.newObj(st, &Obj{Arr: true, Content: rterms[i], T: elemType(t), Sort: s, Owned: true, Deep: true})}
		} else if freshRes && s == "Dense" {
			results[i] = Ref{ID: e.newObj(st, &Obj{Arr: true, Content: rterms[i], Sort: s, Owned: true, Deep: true})}
		}
	}
	var npGuards []string
	envs := e.C.envs[e.prop]
	var env0, env1 Term
	if envs {
		env0, env1 = e.effects(st, uses)
	}
	for _, u := range uses {
		e.used[u.C.Name] = true
		if u.C.Trust != "" {
			e.trusted["contract of "+u.C.Name+" "+u.C.Trust] = true
		}
		m := bind(u, u.C.Args)
		if envs {
			m["env0"], m["env1"] = env0.E, env1.E
		}
		guard := "true"
		if u.Cat != "" && impl != nil {
			guard = testers(catTags(u.Cat), anys[0].E)
		}
		if tagActive(u.C.Pure, e.prop) && len(rterms) > 0 {
			app := "det." + u.C.Name
			for i := range terms {
				if i == 0 && u.Cat != "" {
					app += " " + anys[i].E
				} else {
					app += " " + terms[i].E
				}
			}
			e.assume(mkImp(guard, "(= "+rterms[0].E+" ("+app+"))"))
			e.useJob(u, detCase, fn, impl, nil, ptypes)
		}
		for i := range rterms {
			n := "result"
			if len(rterms) > 1 {
				n = fmt.Sprintf("result%d", i)
			}
			m[n] = rterms[i].E
			m[n+"A"] = rterms[i].E
			if ti, ok := tagByType[typeKey(res.At(i).Type())]; ok {
				m[n+"A"] = "(" + ti.Tag + " " + rterms[i].E + ")"
			}
		}
		for _, cs := range u.C.Cases {
			if !e.caseFits(cs, u, tagsOfArg) {
				continue
			}
			g := mkAnd(guard, cs.Given.subst(m), e.domainGuard(cs, u, tagsOfArg, anys, impl))
			used := false
			for _, cl := range cs.Ensures {
				if cl.Step {
					continue
				}
				if !cl.active(e.prop) {
					continue
				}
				used = true
				e.assumeForVals(cl.F, m, g)
				if cl.F.head() == "=" && len(cl.F.L) == 3 {
					l, r := cl.F.L[1].subst(m), cl.F.L[2].subst(m)
					if e.eqHint == nil {
						e.eqHint = map[string]string{}
					}
					if l != r {
						e.eqHint[e.expandDefs(l)] = r
					}
				}
			}
			for _, en := range cs.Entries {
				if !tagActive(en.Tags, e.prop) {
					continue
				}
				used = true
				e.assumeEntry(en, m, g)
			}
			for _, np := range cs.NoPanic {
				if np.active(e.prop) {
					used = true
					npGuards = append(npGuards, mkAnd(g, np.F.subst(m)))
				}
			}
			if used && u.C.Trust == "" {
				e.useJob(u, cs, fn, impl, tagsOfArg, ptypes)
			}
		}
		if u.C.Result != nil && u.C.Trust == "" {
			e.useJob(u, nil, fn, impl, tagsOfArg, ptypes)
		}
	}
	if e.quiet == 0 && e.noPanic != "" {
		e.oblige(st, "nopanic", "never fails: call of "+callee, e.noPanicT, mkImp(e.noPanic, mkOr(npGuards...)), pos)
	}
	var out Value
	switch len(results) {
	case 0:
		out = TupleV{}
	case 1:
		out = results[0]
	default:
		out = TupleV(results)
	}
	if envs {
		e.setEnv(st, env1)
	}
	k(st, out)
}

func elemType(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Float64]
}

// caseFits: the case is not excluded by the known tags of the arguments.
func (e *Engine) caseFits(cs *Case, u Use, argTags []string) bool {
	for i, n := range u.C.Args {
		d, ok := cs.Domain[n]
		if !ok || i >= len(argTags) || argTags[i] == "" {
			continue
		}
		in := false
		for _, t := range d {
			if t == argTags[i] {
				in = true
			}
		}
		if !in {
			return false
		}
	}
	return true
}

func (e *Engine) domainGuard(cs *Case, u Use, argTags []string, anys []Term, impl []tagInfo) string {
	var gs []string
	for i, n := range u.C.Args {
		d, ok := cs.Domain[n]
		if !ok || i >= len(argTags) || argTags[i] != "" {
			continue
		}
		gs = append(gs, testers(d, anys[i].E))
	}
	return mkAnd(gs...)
}

func mentions(s *Sx, atom string) bool {
	found := false
	s.atoms(func(a string) {
		if a == atom {
			found = true
		}
	})
	return found
}

func (e *Engine) assumeForVals(f *Sx, m map[string]string, guard string) {
	if !mentions(f, "q") {
		e.assume(mkImp(guard, f.subst(m)))
		return
	}
	for _, q := range e.vals {
		m["q"] = q
		b := family(q)
		if b == "" {
			e.assume(mkImp(guard, f.subst(m)))
			continue
		}
		// a family of assignments: stated for all of them, the values it speaks of being the triggers
		var pats []string
		valuesIn(f, func(s *Sx) { pats = append(pats, " :pattern ("+s.subst(m)+")") })
		if len(pats) > 0 {
			e.assume("(forall (" + b + ") (! " + mkImp(guard, f.subst(m)) + strings.Join(pats, "") + "))")
		}
	}
	delete(m, "q")
}

// family gives the binder of a family of assignments: (unit d?) or q? itself.
func family(q string) string {
	switch {
	case q == "q?":
		return "(q? Val)"
	case strings.Contains(q, "d?"):
		return "(d? Int)"
	}
	return ""
}

// valuesIn calls g with every term of f that is the value of something under q.
func valuesIn(f *Sx, g func(*Sx)) {
	if len(f.L) == 0 || f.L[0].A == "forall" || f.L[0].A == "exists" {
		return
	}
	at := func(a string) *Sx { return &Sx{A: a} }
	if len(f.L) > 2 && f.L[1].A == "q" {
		switch f.L[0].A {
		case "sval", "at":
			g(f)
			return
		case "holdsAt":
			g(&Sx{L: []*Sx{at("at"), f.L[1], {L: []*Sx{at("cl"), f.L[2]}}, f.L[3], f.L[4]}})
			return
		}
	}
	for _, c := range f.L {
		valuesIn(c, g)
	}
}

func entPattern(d, q, r string) string {
	if d != "" {
		return " :pattern ((sval " + q + " (ent " + r + " i? j?)))"
	}
	return " :pattern ((ent " + r + " i? j?))"
}

func (e *Engine) assumeEntry(en Entry, m map[string]string, guard string) {
	r := m["resultA"]
	if guard == "false" {
		return
	}
	vals := e.vals
	if !mentions(en.RHS, "q") && !mentions(en.Guard, "q") {
		vals = e.vals
	}
	for _, q := range vals {
		m["q"] = q
		m["i"], m["j"] = "i?", "j?"
		g, rhs := en.Guard.subst(m), en.RHS.subst(m)
		at := "(at " + q + " " + r + " i? j?)"
		d := family(q)
		e.assume("(forall (" + d + "(i? Int) (j? Int)) (! " + mkImp(mkAnd(guard, "(inb "+r+" i? j?)", g), "(= "+at+" "+rhs+")") + " :pattern (" + at + ")" + entPattern(d, q, r) + "))")
		if d != "" {
			continue
		}
		m["i"], m["j"] = "0", "0"
		e.assume(mkImp(mkAnd(guard, "(inb "+r+" 0 0)", en.Guard.subst(m)), "(= (at "+q+" "+r+" 0 0) "+en.RHS.subst(m)+")"))
	}
	delete(m, "q")
	delete(m, "i")
	delete(m, "j")
}

// ---- builtins ----

func (e *Engine) builtin(st *State, name string, args []Value, cc *ssa.CallCommon, pos string) Value {
	switch name {
	case "len", "cap":
		if name == "cap" {
			unsup("cap")
		}
		if p, ok := args[0].(PtrV); ok && len(p.Path) == 0 { // a map of the function's own
			if o := st.heap[p.ID]; o != nil {
				if t, ok := o.V.(Term); ok && isMap(t.S) {
					args = []Value{t}
				}
			}
		}
		switch x := args[0].(type) {
		case Term:
			if x.S == "VMap" {
				return Term{"Int", "(mlen " + x.E + ")"}
			}
			if x.S == "VSet" {
				return Term{"Int", "(slen " + x.E + ")"}
			}
			if isMap(x.S) {
				return Term{"Int", "(len" + x.S + " " + x.E + ")"}
			}
		case NilV:
			if _, ok := x.T.Underlying().(*types.Map); ok {
				return Term{"Int", "0"}
			}
		}
		return e.name(Term{"Int", e.sliceLen(st, args[0])})
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return e.appendTo(st, args[0], args[1], cc.Args[0].Type(), pos)
	case "copy":
		return e.copySlice(st, args[0], args[1], pos)
	case "print", "println":
		return TupleV{}
	case "min", "max":
		a := e.toTerm(st, args[0])
		for _, b := range args[1:] {
			t := e.toTerm(st, b)
			op := "<="
			if name == "max" {
				op = ">="
			}
			a = e.name(Term{a.S, "(ite (" + op + " " + a.E + " " + t.E + ") " + a.E + " " + t.E + ")"})
		}
		return a
	case "delete", "clear":
		unsup("builtin %s", name)
	}
	unsup("builtin %s", name)
	return nil
}

func (e *Engine) copySlice(st *State, dst, src Value, pos string) Value {
	s := e.content(st, src, nil)
	sl := e.sliceLen(st, src)
	dl := e.sliceLen(st, dst)
	if dl == "0" {
		return Term{"Int", "0"}
	}
	r, ok := dst.(Ref)
	if !ok {
		e.frameViolation(st, "copy into a slice that is not the function's own", pos)
	}
	o := *st.heap[r.ID]
	if !o.Owned || o.Moved || len(r.Path) > 0 {
		e.frameViolation(st, "copy into a slice that is not the function's own", pos)
	}
	e.ownWrite(pos)
	l := seqLetter(s.S)
	if o.T != nil && hasRefs(o.T) {
		o.Deep = false
		e.freeze(st, src)
	}
	if dl == sl || e.S.valid(mkEq(dl, sl)) {
		o.Content, o.Elems = s, nil
		st.heap[r.ID] = &o
		return e.name(Term{"Int", sl})
	}
	d := e.objTerm(st, r.ID)
	n := e.fresh(s.S, "copied")
	e.assume("(= (len" + l + " " + n.E + ") " + dl + ")")
	e.assume("(forall ((k Int)) (! (=> (and (<= 0 k) (< k " + dl + ")) (= (at" + l + " " + n.E + " k) (ite (< k " + sl + ") (at" + l + " " + s.E + " k) (at" + l + " " + d.E + " k)))) :pattern ((at" + l + " " + n.E + " k))))")
	o.Content, o.Elems = n, nil
	st.heap[r.ID] = &o
	return e.name(Term{"Int", "(ite (<= " + sl + " " + dl + ") " + sl + " " + dl + ")"})
}

var _ = token.ADD
