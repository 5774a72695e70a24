package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// JobKey names one verification task: a function against one case of a contract, for given
// dynamic types of its interface arguments.
type JobKey struct {
	Contract, Case, Fn, Args string
}

func (k JobKey) String() string {
	s := k.Fn + " against " + k.Contract
	if k.Case != "" {
		s += "/" + k.Case
	}
	if k.Args != "" {
		s += " (" + k.Args + ")"
	}
	return s
}

type Job struct {
	Key      JobKey
	C        *Contract
	Cs       *Case
	Cat      string
	fn       *ssa.Function
	argTags  []string
	binds    []Term
	bindText map[string]string
}

func (j *Job) Name() string { return j.Key.String() }

type JobResult struct {
	Key      JobKey
	Obls     []Obl
	Returns  int
	Panics   int
	Paths    int
	Loops    int
	Queries  int
	SolverMs int64
	Ms       int64
	Err      string
	Vacuous  bool
	Retried  bool
	next     []*Job
	used     map[string]bool
	trusted  map[string]bool
	exts     map[string]bool
	inlined  map[string]bool
}

func caseName(cs *Case) string {
	if cs == nil {
		return "result"
	}
	return cs.Name
}

// jobsFor lists the jobs that establish case cs of a contract for function fn.
func (e *Engine) jobsFor(u Use, cs *Case, fn *ssa.Function, argTags []string) []*Job {
	return jobsFor(e.P, u, cs, fn, argTags)
}

func jobsFor(p *Program, u Use, cs *Case, fn *ssa.Function, argTags []string) []*Job {
	choices := make([][]string, len(fn.Params))
	for i, pr := range fn.Params {
		choices[i] = []string{""}
		it, isI := pr.Type().Underlying().(*types.Interface)
		name := ""
		if i < len(u.C.Args) {
			name = u.C.Args[i]
		}
		if !isI {
			if cs != nil && name != "" {
				if d, ok := cs.Domain[name]; ok {
					ti, known := tagByType[typeKey(pr.Type())]
					if known && !contains(d, ti.Tag) {
						return nil
					}
				}
			}
			continue
		}
		if i < len(argTags) && argTags[i] != "" && !u.C.Generic {
			choices[i] = []string{argTags[i]}
			continue
		}
		if cs == nil {
			continue
		}
		if d, ok := cs.Domain[name]; ok {
			var c []string
			for _, t := range d {
				if t == "ANil" || t == "AOther" || it.NumMethods() == 0 || types.Implements(tagByName[t].Type, it) {
					c = append(c, t)
				}
			}
			choices[i] = c
		}
	}
	var out []*Job
	cur := make([]string, len(choices))
	var rec func(i int)
	rec = func(i int) {
		if i == len(choices) {
			tg := append([]string{}, cur...)
			var parts []string
			for _, t := range tg {
				if t != "" {
					parts = append(parts, t)
				}
			}
			out = append(out, &Job{Key: JobKey{u.C.Name, caseName(cs), shortFn(fn), strings.Join(parts, ",")}, C: u.C, Cs: cs, Cat: u.Cat, fn: fn, argTags: tg})
			return
		}
		for _, c := range choices[i] {
			cur[i] = c
			rec(i + 1)
		}
	}
	rec(0)
	return out
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/symbolic.", "")
	return strings.ReplaceAll(s, modPath+"/", "")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// useJob records that a contract was relied on: it has to be verified too.
func (e *Engine) useJob(u Use, cs *Case, fn *ssa.Function, impl []tagInfo, argTags []string, ptypes []types.Type) {
	if fn != nil {
		e.addJobs(jobsFor(e.P, u, cs, fn, argTags))
		return
	}
	name := u.C.Name[strings.LastIndex(u.C.Name, ".")+1:]
	for _, ti := range impl {
		if !contains(catTags(u.Cat), ti.Tag) {
			continue
		}
		f := e.P.methodOf(ti.Type, name)
		if f == nil {
			unsup("no method %s of %s", name, ti.Type)
		}
		e.addJobs(jobsFor(e.P, u, cs, f, argTags))
	}
}

func (p *Program) methodOf(t types.Type, name string) *ssa.Function {
	sel := p.Prog.MethodSets.MethodSet(t).Lookup(p.Sym.Pkg, name)
	if sel == nil {
		return nil
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.Prog.MethodValue(sel)
}

func (e *Engine) addJobs(js []*Job) {
	for _, j := range js {
		if _, ok := e.usedJobs[j.Key.String()]; !ok {
			e.usedJobs[j.Key.String()] = j
		}
	}
}

// effects gives the atoms for the environments before and after a call.
func (e *Engine) effects(st *State, uses []Use) (before, after Term) {
	_, s := e.envStore(st)
	for _, u := range uses {
		if u.C.ModEnv {
			return s, e.fresh("EnvS", "env")
		}
	}
	return s, s
}

type runOpts struct {
	prop     string
	rlimit   int
	timeout  time.Duration
	dumpDir  string
	preamble string
	arith    string // z3's arithmetic solver
	fresh    bool   // failing obligations are tried again in solver processes of their own
	seed     int    // of the solver
	allHints bool   // second attempt: every invariant template of every contract
}

func runJob(p *Program, c *Contracts, job *Job, o runOpts) (res JobResult) {
	t0 := time.Now()
	res.Key = job.Key
	var e *Engine
	defer func() {
		if e != nil {
			res.Obls = e.Obls
			res.Returns, res.Panics, res.Paths, res.Loops = e.returns, e.panics, e.paths, e.loopsCut
			res.used, res.trusted, res.exts, res.inlined = e.used, e.trusted, e.exts, e.inlined
			for _, k := range sortedJobKeys(e.usedJobs) {
				res.next = append(res.next, e.usedJobs[k])
			}
			if e.S != nil {
				res.Queries, res.SolverMs = e.S.Queries, e.S.Time.Milliseconds()
				e.S.close()
			}
		}
		res.Ms = time.Since(t0).Milliseconds()
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				res.Err = "not within reach of the verifier: " + x.msg
			case verifierError:
				res.Err = "verifier: " + x.msg
			default:
				res.Err = fmt.Sprintf("verifier crash: %v", r)
				if loopDebug {
					res.Err += "\n" + string(debug.Stack())
				}
			}
		}
	}()
	s, err := newSolver(o.preamble, o.rlimit, o.arith, o.fresh && !o.allHints, o.seed)
	if err != nil {
		res.Err = "solver: " + err.Error()
		return
	}
	e = &Engine{P: p, S: s, C: c, prop: o.prop, job: job, defs: map[string]string{}, strs: map[string]string{}, used: map[string]bool{},
		usedJobs: map[string]*Job{}, trusted: map[string]bool{}, exts: map[string]bool{}, inlined: map[string]bool{}, cache: map[string]*LoopRun{},
		deadline: t0.Add(o.timeout), dumpDir: o.dumpDir, allHints: o.allHints, freshQ: o.fresh}
	e.prove(job)
	return
}

// prove sets up the arguments and runs the body.
func (e *Engine) prove(job *Job) {
	fn := job.fn
	st := &State{heap: map[int]*Obj{}, tags: map[string]string{}}
	job.bindText = map[string]string{}
	job.binds = nil
	e.globals(st)
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, path: shortFn(fn), loops: map[*ssa.BasicBlock]*LoopRun{}}
	for i, p := range fn.Params {
		name := ""
		if i < len(job.C.Args) {
			name = job.C.Args[i]
		}
		v, t := e.param(st, p, job.argTags[i], name)
		fr.env[p] = v
		if i == 0 && job.Cat != "" && t.S != "Any" {
			ti := tagByType[typeKey(p.Type())]
			t = Term{"Any", "(" + ti.Tag + " " + t.E + ")"}
		}
		if name != "" && t.E != "" {
			job.bindText[name] = t.E
			job.binds = append(job.binds, t)
			if t.S == "Any" {
				if iv, ok := v.(IfaceV); ok {
					if it, ok := iv.V.(Term); ok {
						job.binds = append(job.binds, it)
					}
				} else if tv, ok := v.(Term); ok && tv.S != "Any" {
					job.binds = append(job.binds, tv)
				}
			}
		}
	}
	e.vals = []string{"r"}
	cs := job.Cs
	if cs != nil && cs.Det {
		why := e.P.nondet(fn, map[*ssa.Function]bool{})
		e.returns++
		o := Obl{Name: "equal arguments give equal results", Kind: "deterministic", Pos: e.pos(fn.Pos()), Tags: e.prop, OK: why == "", Goal: why}
		e.Obls = append(e.Obls, o)
		return
	}
	if cs != nil {
		e.assume(cs.Given.subst(job.bindText))
		seen := map[string]bool{"r": true}
		for _, v := range cs.Vals {
			s := v.subst(job.bindText)
			if !seen[s] {
				seen[s] = true
				e.vals = append(e.vals, s)
			}
		}
		var np []string
		for _, c := range cs.NoPanic {
			if c.active(e.prop) {
				np = append(np, c.F.subst(job.bindText))
				e.noPanicT = strings.Join(c.Tags, ",")
			}
		}
		if len(np) > 0 {
			e.noPanic = mkOr(np...)
		}
		for _, en := range cs.Entries {
			if tagActive(en.Tags, e.prop) {
				m := map[string]string{}
				for k, v := range job.bindText {
					m[k] = v
				}
				e.ptGoals = append(e.ptGoals, entryGoal{"r", en.Guard, en.RHS, m})
			}
		}
	}
	if !e.feasible() {
		return
	}
	fr.ret = func(s *State, res []Value) { e.onReturn(job, s, res) }
	if fn.Blocks == nil {
		unsup("no body for %s", fn)
	}
	e.enter(st, fr, fn.Blocks[0], nil)
}

// param gives an arbitrary value to a parameter.
func (e *Engine) param(st *State, p *ssa.Parameter, tag, name string) (Value, Term) {
	t := p.Type()
	if name == "" {
		name = "p"
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if tag == "ANil" {
			return Term{"Any", "ANil"}, Term{"Any", "ANil"}
		}
		if tag == "AOther" {
			v := e.fresh("Any", name)
			e.assume("((_ is AOther) " + v.E + ")")
			return v, v
		}
		if tag != "" {
			ti := tagByName[tag]
			x := e.fresh(ti.Sort, name)
			if b, ok := ti.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
				e.assume("(>= " + x.E + " 0)")
			}
			return IfaceV{ti.Type, x}, Term{"Any", "(" + tag + " " + x.E + ")"}
		}
		v := e.fresh("Any", name)
		if isError(t) {
			e.assume("(or (= " + v.E + " ANil) ((_ is AOther) " + v.E + "))")
		} else if it.NumMethods() > 0 {
			var ns []string
			for _, ti := range implementers(it) {
				ns = append(ns, ti.Tag)
			}
			e.assume(mkOr("(= "+v.E+" ANil)", testers(ns, v.E)))
		}
		return v, v
	}
	if pt, ok := t.(*types.Pointer); ok {
		if isVecDense(pt.Elem()) || isDense(pt.Elem()) {
			x := e.fresh(sortOf(pt.Elem()), name)
			return x, x
		}
		return e.pointerParam(st, pt, name)
	}
	s := sortOf(t)
	if s == "" {
		unsup("parameter of type %s", t)
	}
	x := e.fresh(s, name)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		e.assume("(>= " + x.E + " 0)")
	}
	return x, x
}

func (e *Engine) pointerParam(st *State, pt *types.Pointer, name string) (Value, Term) {
	if e.C.envs[e.prop] && isNamed(pt.Elem(), "symbolic", "BasicEnvironment") {
		x := e.fresh("Int", name)
		return x, x
	}
	unsup("parameter of type %s", pt)
	return nil, Term{}
}

// globals sets up the state outside the function: what every environment tracks.
func (e *Engine) globals(st *State) {
	if e.C.envs[e.prop] {
		t := e.fresh("EnvS", "env")
		e.newObj(st, &Obj{V: t, Global: envCell})
		e.job.bindText["env0"], e.job.bindText["env1"] = t.E, t.E
	}
}

const envCell = "$env"

// EnvPtr points at a field of a BasicEnvironment.
type EnvPtr struct {
	ID    Term
	Field int
}

// envStore gives the heap cell holding what the environments track.
func (e *Engine) envStore(st *State) (int, Term) {
	for _, id := range sortedKeys(st.heap) {
		if st.heap[id].Global == envCell {
			return id, st.heap[id].V.(Term)
		}
	}
	unsup("environments are not followed for this property")
	return 0, Term{}
}

func (e *Engine) setEnv(st *State, s Term) {
	id, _ := e.envStore(st)
	o := *st.heap[id]
	o.V = s
	st.heap[id] = &o
}

func (e *Engine) envTracks(st *State, x Term) Term {
	_, s := e.envStore(st)
	return Term{"SeqV", "(envs " + s.E + " " + x.E + ")"}
}

// envOwned: t is the list an environment tracks now, and not extended yet.
func (e *Engine) envOwned(st *State, t Term) (int, bool) {
	if !e.C.envs[e.prop] {
		return 0, false
	}
	id, s := e.envStore(st)
	return id, strings.HasPrefix(t.E, "(envs "+s.E+" ") && st.heap[id].Pending == ""
}

func (e *Engine) loadEnv(st *State, p EnvPtr) Value {
	if p.Field == 0 {
		return Term{"Str", "(envname " + p.ID.E + ")"}
	}
	return e.envTracks(st, p.ID)
}

// storeEnv replaces the list of an environment.
func (e *Engine) storeEnv(st *State, p EnvPtr, v Value, pos string) {
	id, s := e.envStore(st)
	if p.Field == 0 {
		unsup("environment renamed")
	}
	if _, isT := v.(Term); !e.owned(st, v) && !isT {
		e.frameViolation(st, "an environment's list shares memory with something else", pos)
	}
	t := e.capture(st, v)
	o := *st.heap[id]
	o.V = e.name(Term{"EnvS", "(envput " + s.E + " " + p.ID.E + " " + t.E + ")"})
	o.Pending = ""
	st.heap[id] = &o
}

func (e *Engine) onReturn(job *Job, st *State, res []Value) {
	e.returns++
	pos := e.pos(job.fn.Pos())
	sig := job.fn.Signature.Results()
	m := map[string]string{}
	for k, v := range job.bindText {
		m[k] = v
	}
	rts := make([]Term, len(res))
	for i, v := range res {
		rt := e.bindTerm(st, v, sig.At(i).Type(), false)
		rts[i] = rt
		n := "result"
		if len(res) > 1 {
			n = fmt.Sprintf("result%d", i)
		}
		m[n], m[n+"A"] = rt.E, rt.E
		if ti, ok := tagByType[typeKey(sig.At(i).Type())]; ok {
			m[n+"A"] = e.name(Term{"Any", "(" + ti.Tag + " " + rt.E + ")"}).E
		}
	}
	if job.C.Fresh {
		for i, v := range res {
			if hasRefs(sig.At(i).Type()) && !isError(sig.At(i).Type()) && !e.owned(st, v) {
				e.oblige(st, "fresh", "the result shares no memory with anything else", "*", "false", pos)
			}
		}
	}
	if e.C.envs[e.prop] {
		id, s := e.envStore(st)
		m["env1"] = s.E
		if st.heap[id].Pending != "" {
			unsup("an environment's list was extended and not stored")
		}
		if !job.C.ModEnv {
			e.oblige(st, "frame", "what environments track is unchanged", "*", mkEq(s.E, m["env0"]), pos)
		}
	}
	m["q"] = "r"
	lemmas := job.C.Lemmas
	for _, u := range e.C.forFunc(job.fn) {
		if u.C != job.C && u.Cat == job.Cat {
			lemmas = append(append([]Clause{}, lemmas...), u.C.Lemmas...)
		}
	}
	for _, l := range lemmas {
		if l.active(e.prop) {
			f := l.F.subst(m)
			if e.S.valid(f) {
				e.assume(f)
			} else if loopDebug {
				fmt.Println("lemma not proved:", f)
			}
		}
	}
	if job.Cs == nil {
		for i, d := range job.C.Result {
			if d.L == nil && d.A == "_" {
				continue
			}
			e.oblige(st, "result", "result is "+d.String(), "*", mkEq(rts[i].E, d.subst(m)), pos)
		}
		return
	}
	for _, cl := range job.Cs.Ensures {
		if cl.active(e.prop) {
			e.oblige(st, "ensures", "ensures "+abbrev(cl.F.String()), strings.Join(cl.Tags, ","), cl.F.subst(m), pos)
		}
	}
	for _, en := range job.Cs.Entries {
		if !tagActive(en.Tags, e.prop) {
			continue
		}
		i, j := e.fresh("Int", "i"), e.fresh("Int", "j")
		m["i"], m["j"] = i.E, j.E
		r := m["resultA"]
		goal := mkImp(mkAnd("(inb "+r+" "+i.E+" "+j.E+")", en.Guard.subst(m)), "(= (at r "+r+" "+i.E+" "+j.E+") "+en.RHS.subst(m)+")")
		e.oblige(st, "entry", "every entry is "+abbrev(en.RHS.String()), strings.Join(en.Tags, ","), goal, pos)
		delete(m, "i")
		delete(m, "j")
	}
}

func abbrev(s string) string {
	if len(s) > 160 {
		return s[:157] + "..."
	}
	return s
}

func sortedJobKeys(m map[string]*Job) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedVals(b)
}
