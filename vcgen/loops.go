package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leaf is one place whose value changes from iteration to iteration.
type leaf struct {
	key  string
	sort string
	term string // value at the loop header
	init string // value on entry
}

// LoopRun is the search for, and then the use of, the invariant of one loop.
type LoopRun struct {
	header   *ssa.BasicBlock
	fn       *ssa.Function
	bodyOnly bool
	mod      map[string]bool
	demote   map[string]bool
	now      map[string]bool // demoted in this pass
	moved    map[int]bool
	shallow  map[int]bool
	dropped  map[string]bool
	entryOK  map[string]bool
	restart  bool
	stale    bool
	startN   int
	bounds   map[string]bool
	leaves   []leaf
	hdr      *State
	hdrPhi   []phiVal
	cands    []string // templates
	havoc    map[string]bool
}

var ph = regexp.MustCompile(`⟦[^⟧]*⟧`)

func place(key string) string { return "⟦" + key + "⟧" }

func fill(tmpl string, m map[string]string) (string, bool) {
	ok := true
	s := ph.ReplaceAllStringFunc(tmpl, func(x string) string {
		v, have := m[x[len("⟦"):len(x)-len("⟧")]]
		if !have {
			ok = false
		}
		return v
	})
	return s, ok
}

// havocValue replaces a value by an arbitrary one of the same shape.
func (e *Engine) havocValue(run *LoopRun, st *State, key string, v Value, t types.Type) Value {
	if x, ok := v.(Term); ok && x.S == "EnvS" {
		l := e.fresh("EnvS", "env")
		run.addLeaf(key, "EnvS", l.E, x.E)
		return l
	}
	if !run.demote[key] {
		switch x := v.(type) {
		case StructV:
			f := make([]Value, len(x.F))
			u := x.T.Underlying().(*types.Struct)
			for i := range f {
				f[i] = e.havocValue(run, st, fmt.Sprintf("%s.%d", key, i), x.F[i], u.Field(i).Type())
			}
			return StructV{x.T, f}
		case IfaceV:
			if _, ok := tagByType[typeKey(x.T)]; ok {
				return IfaceV{x.T, e.havocValue(run, st, key+"#", x.V, x.T)}
			}
		case Ref, NilV:
			if s := sortOf(t); seqLetter(s) != "" || s == "Dense" {
				if e.owned(st, v) {
					l := e.fresh(s, "lv")
					run.addLeaf(key, s, l.E, e.content(st, v, nil).E)
					deep := true
					if r, ok := v.(Ref); ok {
						deep = st.heap[r.ID].Deep
						if len(r.Path) > 0 {
							unsup("loop variable inside another slice")
						}
					}
					id := e.newObj(st, &Obj{Arr: true, Content: l, T: elemType(t), Sort: s, Owned: true, Deep: deep && !run.demote[key+"/deep"]})
					return Ref{ID: id}
				}
			}
		case PtrV, FuncV:
			return v
		}
	}
	s := sortOf(t)
	if s == "" {
		unsup("loop variable of type %s", t)
	}
	if n, ok := v.(NilV); ok && s == "VMap" {
		_ = n
	}
	l := e.fresh(s, "lv")
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		e.assume("(>= " + l.E + " 0)")
	}
	if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() > 0 && !isError(t) {
		var ns []string
		for _, ti := range implementers(it) {
			ns = append(ns, ti.Tag)
		}
		e.assume(mkOr("(= "+l.E+" ANil)", testers(ns, l.E)))
	} else if isError(t) {
		e.assume("(or (= " + l.E + " ANil) ((_ is AOther) " + l.E + "))")
	}
	run.addLeaf(key, s, l.E, e.toTerm(st, v).E)
	return l
}

func (r *LoopRun) addLeaf(key, sort, term, init string) {
	r.leaves = append(r.leaves, leaf{key, sort, term, init})
	r.havoc[term] = true
}

// matchValue collects the current terms of the leaves of a value.
func (e *Engine) matchValue(run *LoopRun, st *State, key string, hdr, cur Value, out map[string]string) {
	switch h := hdr.(type) {
	case StructV:
		c, ok := cur.(StructV)
		if !ok {
			if t, ok2 := cur.(Term); ok2 {
				c = e.explode(t, h.T)
			} else {
				run.fail(key)
				return
			}
		}
		for i := range h.F {
			e.matchValue(run, st, fmt.Sprintf("%s.%d", key, i), h.F[i], c.F[i], out)
		}
	case IfaceV:
		c, ok := e.unwrap(st, cur).(IfaceV)
		if !ok || !types.Identical(c.T, h.T) {
			run.fail(key)
			return
		}
		e.matchValue(run, st, key+"#", h.V, c.V, out)
	case Ref:
		if !e.owned(st, cur) {
			run.fail(key)
			return
		}
		if c, ok := cur.(Ref); ok && !st.heap[c.ID].Deep && run.hdr.heap[h.ID] != nil && run.hdr.heap[h.ID].Deep {
			run.fail(key + "/deep")
		}
		out[key] = e.content(st, cur, nil).E
	case Term:
		out[key] = e.toTerm(st, cur).E
	case PtrV:
		c, ok := cur.(PtrV)
		if !ok || c.ID != h.ID || pathKey(c.Path) != pathKey(h.Path) {
			unsup("pointer changes in a loop")
		}
	default:
		unsup("loop variable %T", hdr)
	}
}

func (r *LoopRun) fail(key string) {
	if !r.demote[key] || r.now[key] {
		r.demote[key] = true
		r.now[key] = true
		r.restart, r.stale = true, true
		return
	}
	unsup("loop variable %s keeps changing its shape", key)
}

// sameValue reports leaves of a heap cell that differ from the header state.
func (e *Engine) diffValue(hs, cs *State, key string, h, c Value, out map[string]bool) {
	switch x := h.(type) {
	case StructV:
		if y, ok := c.(StructV); ok {
			for i := range x.F {
				e.diffValue(hs, cs, fmt.Sprintf("%s.%d", key, i), x.F[i], y.F[i], out)
			}
			return
		}
		out[key] = true
	case IfaceV:
		if y, ok := c.(IfaceV); ok && types.Identical(x.T, y.T) {
			e.diffValue(hs, cs, key+"#", x.V, y.V, out)
			return
		}
		out[key] = true
	case Ref:
		if y, ok := c.(Ref); ok && y.ID == x.ID && pathKey(x.Path) == pathKey(y.Path) {
			return // contents are compared with the object
		}
		out[key] = true
	case Term:
		if y, ok := c.(Term); ok && y.E == x.E {
			return
		}
		out[key] = true
	case NilV:
		if _, ok := c.(NilV); ok {
			return
		}
		out[key] = true
	case PtrV:
		if y, ok := c.(PtrV); ok && y.ID == x.ID && y.Base == nil && x.Base == nil && pathKey(x.Path) == pathKey(y.Path) {
			return
		}
		out[key] = true
	case FuncV:
	default:
		out[key] = true
	}
}

// havocCell replaces the modified leaves of a heap cell.
func (e *Engine) havocCell(run *LoopRun, st *State, key string, v Value, t types.Type) Value {
	if run.mod[key] {
		return e.havocValue(run, st, key, v, t)
	}
	switch x := v.(type) {
	case StructV:
		f := append([]Value{}, x.F...)
		u := x.T.Underlying().(*types.Struct)
		for i := range f {
			f[i] = e.havocCell(run, st, fmt.Sprintf("%s.%d", key, i), x.F[i], u.Field(i).Type())
		}
		return StructV{x.T, f}
	case IfaceV:
		return IfaceV{x.T, e.havocCell(run, st, key+"#", x.V, x.T)}
	}
	return v
}

func (e *Engine) startLoop(st *State, fr *Frame, header *ssa.BasicBlock, phis []phiVal) {
	key := fr.path + "/" + fr.fn.Name() + "#" + strconv.Itoa(header.Index)
	run := &LoopRun{header: header, fn: fr.fn, mod: map[string]bool{}, demote: map[string]bool{}, moved: map[int]bool{}, shallow: map[int]bool{},
		dropped: map[string]bool{}, entryOK: map[string]bool{}, bounds: map[string]bool{}, startN: e.n}
	_ = key
	e.loopsCut++
	entry := map[string]string{}
	nobj0, n0 := e.nobj, e.n
	for pass := 0; ; pass++ {
		if pass > 60 {
			unsup("no stable invariant for the loop at %s", e.pos(header.Instrs[len(header.Instrs)-1].Pos()))
		}
		e.checkTime()
		run.restart, run.stale = false, false
		run.now = map[string]bool{}
		e.S.push()
		st1, fr1 := st.clone(), fr.clone()
		entry = e.header(run, st, st1, fr1, phis)
		run.cands = nil
		cands := e.candidates(run, st1, fr1)
		if loopDebug {
			fmt.Printf("loop %s pass %d: %d candidates, mod %v, demoted %v\n", key, pass, len(cands), sortedVals(run.mod), sortedVals(run.demote))
		}
		var todo, todoF []string
		for _, c := range cands {
			if run.dropped[c] {
				continue
			}
			f, ok := fill(c, entry)
			if !ok {
				continue
			}
			if !run.entryOK[c] {
				todo, todoF = append(todo, c), append(todoF, f)
			} else {
				run.cands = append(run.cands, c)
			}
		}
		for i, ok := range e.validEach(todoF) {
			if ok {
				run.entryOK[todo[i]] = true
				run.cands = append(run.cands, todo[i])
			} else {
				run.dropped[todo[i]] = true
				if loopDebug {
					fmt.Println("   entry drops", todo[i])
				}
			}
		}
		e.assumeCands(run)
		run.bodyOnly = true
		fr1.loops[header] = run
		fr1.order = append(fr1.order, header)
		e.quiet++
		e.run(st1, fr1, header, 0)
		e.quiet--
		e.S.pop()
		e.nobj, e.n = nobj0, n0
		_ = n0
		if !run.restart {
			break
		}
	}
	e.S.push()
	st1, fr1 := st.clone(), fr.clone()
	e.header(run, st, st1, fr1, phis)
	e.assumeCands(run)
	if loopDebug {
		fmt.Println("loop", key, "invariant:")
		for _, c := range run.cands {
			fmt.Println("   ", c)
		}
	}
	final := *run
	final.bodyOnly = false
	fr1.loops[header] = &final
	fr1.order = append(fr1.order, header)
	e.run(st1, fr1, header, 0)
	e.S.pop()
}

var loopDebug = false

func (e *Engine) assumeCands(run *LoopRun) {
	m := map[string]string{}
	for _, l := range run.leaves {
		m[l.key] = l.term
	}
	for _, c := range run.cands {
		f, _ := fill(c, m)
		e.assume(f)
	}
}

// header builds the state at the loop header and returns the leaf values on entry.
func (e *Engine) header(run *LoopRun, st0, st *State, fr *Frame, phis []phiVal) map[string]string {
	run.leaves = nil
	run.havoc = map[string]bool{}
	run.hdrPhi = nil
	for _, p := range phis {
		v := e.havocValue(run, st, "phi:"+p.phi.Name(), p.v, p.phi.Type())
		fr.env[p.phi] = v
		run.hdrPhi = append(run.hdrPhi, phiVal{p.phi, v})
	}
	for _, id := range sortedKeys(st0.heap) {
		o := *st.heap[id]
		changed := false
		if run.moved[id] && !o.Moved {
			o.Moved, changed = true, true
		}
		if run.shallow[id] && o.Deep {
			o.Deep, changed = false, true
		}
		if o.Arr {
			k := fmt.Sprintf("arr:%d", id)
			if run.mod[k] {
				old := e.objTerm(st, id)
				l := e.fresh(o.Sort, "la")
				if o.Sort != "Dense" {
					x := seqLetter(o.Sort)
					e.assume("(= (len" + x + " " + l.E + ") " + e.sliceLen(st, Ref{ID: id}) + ")")
				} else {
					e.assume("(and (= (drows " + l.E + ") (drows " + old.E + ")) (= (dcols " + l.E + ") (dcols " + old.E + ")))")
				}
				o.Content, o.Elems = l, nil
				run.addLeaf(k, o.Sort, l.E, old.E)
				changed = true
			}
		} else {
			k := fmt.Sprintf("cell:%d", id)
			v := e.havocCell(run, st, k, o.V, o.T)
			o.V, changed = v, true
		}
		if changed {
			oo := o
			st.heap[id] = &oo
		}
	}
	run.hdr = st.clone()
	m := map[string]string{}
	for _, l := range run.leaves {
		m[l.key] = l.init
	}
	return m
}

func (e *Engine) backEdge(st *State, fr *Frame, run *LoopRun, phis []phiVal) {
	if !run.bodyOnly {
		return
	}
	// anything modified that was thought not to be?
	for _, id := range sortedKeys(run.hdr.heap) {
		h, c := run.hdr.heap[id], st.heap[id]
		if c == nil {
			continue
		}
		if c.Moved && !h.Moved && !run.leafObj(id) {
			run.moved[id] = true
			run.restart, run.stale = true, true
		}
		if !c.Deep && h.Deep && !run.leafObj(id) {
			run.shallow[id] = true
			run.restart, run.stale = true, true
		}
		if c == h {
			continue
		}
		if h.Arr {
			k := fmt.Sprintf("arr:%d", id)
			if !run.mod[k] && !run.leafObj(id) && !(c.Elems == nil && h.Elems == nil && c.Content.E == h.Content.E) && !sameElems(c, h) {
				if h.Sort == "" || seqLetter(h.Sort) == "" && h.Sort != "Dense" {
					unsup("array of %s modified in a loop", h.T)
				}
				run.mod[k] = true
				run.restart, run.stale = true, true
			}
		} else {
			d := map[string]bool{}
			e.diffValue(run.hdr, st, fmt.Sprintf("cell:%d", id), h.V, c.V, d)
			for k := range d {
				if !run.isLeafKey(k) {
					run.mod[k] = true
					run.restart, run.stale = true, true
				}
			}
		}
	}
	out := map[string]string{}
	for i, p := range phis {
		e.matchValue(run, st, "phi:"+p.phi.Name(), run.hdrPhi[i].v, p.v, out)
	}
	if run.stale {
		return
	}
	for _, l := range run.leaves {
		if strings.HasPrefix(l.key, "cell:") {
			id, rest := splitKey(l.key)
			h, ok1 := subValue(run.hdr.heap[id].V, rest)
			c, ok2 := subValue(st.heap[id].V, rest)
			if !ok1 {
				unsup("lost loop leaf %s", l.key)
			}
			if !ok2 {
				run.fail(l.key)
				continue
			}
			e.matchValue(run, st, l.key, h, c, out)
		} else if strings.HasPrefix(l.key, "arr:") {
			id, _ := splitKey(l.key)
			out[l.key] = e.objTerm(st, id).E
		}
	}
	if run.stale {
		return
	}
	var keep, fs []string
	for _, c := range run.cands {
		f, ok := fill(c, out)
		if !ok {
			unsup("loop leaf without a value in %s", c)
		}
		keep, fs = append(keep, c), append(fs, f)
	}
	res := e.validEach(fs)
	var left []string
	for i, ok := range res {
		if ok {
			left = append(left, keep[i])
		} else {
			run.dropped[keep[i]] = true
			run.restart = true
			if loopDebug {
				fmt.Println("   step drops", keep[i], st.trace)
			}
		}
	}
	run.cands = left
}

func sameElems(a, b *Obj) bool {
	if a.Elems == nil || b.Elems == nil || len(a.Elems) != len(b.Elems) {
		return false
	}
	for i := range a.Elems {
		x, ok1 := a.Elems[i].(Term)
		y, ok2 := b.Elems[i].(Term)
		if !ok1 || !ok2 || x.E != y.E {
			return false
		}
	}
	return true
}

func (r *LoopRun) isLeafKey(k string) bool {
	for _, l := range r.leaves {
		if l.key == k || strings.HasPrefix(l.key, k+".") || strings.HasPrefix(l.key, k+"#") || strings.HasPrefix(k, l.key+".") {
			return true
		}
	}
	return false
}

// leafObj: the object stands for a havocked slice variable of this loop.
func (r *LoopRun) leafObj(id int) bool {
	o := r.hdr.heap[id]
	return o != nil && o.Arr && o.Elems == nil && r.havoc[o.Content.E]
}

func splitKey(k string) (int, string) {
	k = k[strings.Index(k, ":")+1:]
	i := 0
	for i < len(k) && k[i] >= '0' && k[i] <= '9' {
		i++
	}
	n, _ := strconv.Atoi(k[:i])
	return n, k[i:]
}

func subValue(v Value, rest string) (Value, bool) {
	for rest != "" {
		if rest[0] == '#' {
			x, ok := v.(IfaceV)
			if !ok {
				return nil, false
			}
			v, rest = x.V, rest[1:]
			continue
		}
		if rest[0] != '.' {
			return nil, false
		}
		i := 1
		for i < len(rest) && rest[i] >= '0' && rest[i] <= '9' {
			i++
		}
		n, _ := strconv.Atoi(rest[1:i])
		s, ok := v.(StructV)
		if !ok {
			return nil, false
		}
		v, rest = s.F[n], rest[i:]
	}
	return v, true
}

// validEach decides each formula; most hold, so conjunctions are tried first.
func (e *Engine) validEach(fs []string) []bool {
	res := make([]bool, len(fs))
	var rec func(lo, hi int)
	rec = func(lo, hi int) {
		if lo >= hi {
			return
		}
		if e.S.valid(mkAnd(fs[lo:hi]...)) {
			for i := lo; i < hi; i++ {
				res[i] = true
			}
			return
		}
		if hi-lo == 1 {
			return
		}
		if hi-lo <= 3 {
			for i := lo; i < hi; i++ {
				rec(i, i+1)
			}
			return
		}
		m := (lo + hi) / 2
		rec(lo, m)
		rec(m, hi)
	}
	rec(0, len(fs))
	return res
}

var len2Re = regexp.MustCompile(`^\(len(V|M|P|R|A)(?:V|M|P|R|A) (\S+)\)$`)

var nameRe = regexp.MustCompile(`[A-Za-z_]+![0-9]+`)

// expandDefs replaces abbreviations by what they stand for.
func (e *Engine) expandDefs(s string) string {
	for i := 0; i < 60; i++ {
		n := nameRe.ReplaceAllStringFunc(s, func(x string) string {
			if d, ok := e.defs[x]; ok {
				return d
			}
			return x
		})
		if n == s || len(n) > 4000 {
			return n
		}
		s = n
	}
	return s
}

// noteBound records what loop counters are compared with.
func (e *Engine) noteBound(st *State, fr *Frame, b *ssa.BasicBlock, in *ssa.If) {
	bo, ok := in.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	switch bo.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
	default:
		return
	}
	if sortOf(bo.X.Type()) != "Int" {
		return
	}
	for _, op := range []ssa.Value{bo.X, bo.Y} {
		v, ok := e.val(st, fr, op).(Term)
		if !ok {
			continue
		}
		x := e.expandDefs(v.E)
		if r, ok := e.eqHint[x]; ok {
			x = e.expandDefs(r)
		}
		e.addBound(fr, x)
	}
}

func (e *Engine) addBound(fr *Frame, x string) {
	for f := fr; f != nil; f = f.parent {
		for _, h := range f.order {
			run := f.loops[h]
			if !run.bodyOnly || run.bounds[x] {
				continue
			}
			okB := len(x) < 600
			for _, nm := range nameRe.FindAllString(x, -1) {
				k, _ := strconv.Atoi(nm[strings.Index(nm, "!")+1:])
				if k > run.startN {
					okB = false
				}
			}
			if okB {
				run.bounds[x] = true
				run.restart = true
			}
		}
	}
}

func elemTerm(letter, s, k string) string {
	switch letter {
	case "R":
		return "(AK (atR " + s + " " + k + "))"
	case "V":
		return "(AVar (atV " + s + " " + k + "))"
	case "M":
		return "(AMono (atM " + s + " " + k + "))"
	case "P":
		return "(APoly (atP " + s + " " + k + "))"
	case "A":
		return "(atA " + s + " " + k + ")"
	}
	return ""
}

// elemOk: a usable entry of a sequence.
func elemOk(x, el string) string {
	switch x {
	case "V", "M", "P":
		return "(wf" + x + " " + el + ")"
	case "A":
		return "(and (isS " + el + ") (wf " + el + "))"
	}
	return ""
}

// candidates proposes invariants; only those that survive are used.
func (e *Engine) candidates(run *LoopRun, st *State, fr *Frame) []string {
	var out []string
	// what is written does not depend on values, except where a row of a new array may still be empty
	frames := e.C.frames[e.prop]
	seen := map[string]bool{}
	add1 := func(f string) {
		if f != "" && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	// a loop that counts down has done the upper part: what is said of the entries below the
	// counter is proposed for those from the counter to its first value as well
	down := map[string]string{}
	for _, l := range run.leaves {
		switch l.init {
		case "", "0", "1", "(- 1)":
		default:
			if p := place(l.key); l.sort == "Int" && l.init != p {
				down[p] = "(< %s " + l.init + ")"
				down["(+ "+p+" 1)"] = "(<= %s " + l.init + ")"
			}
		}
	}
	add := func(f string) {
		add1(f)
		for _, r := range sortedStrs(down) {
			hi := down[r]
			for _, x := range []string{"k?", "a?", "b?"} {
				lo := "(<= 0 " + x + ") (< " + x + " " + r + ")"
				if strings.Contains(f, lo) {
					add1(strings.ReplaceAll(f, lo, "(<= "+r+" "+x+") "+fmt.Sprintf(hi, x)))
				}
			}
		}
	}
	var bounds []string
	for b := range run.bounds {
		bounds = append(bounds, b)
	}
	sort.Strings(bounds)
	var idx []string
	for _, l := range run.leaves {
		p := place(l.key)
		if l.sort == "Int" {
			idx = append(idx, counts(p, l.init)...)
			add("(>= " + p + " " + l.init + ")")
			if l.init == "(- 1)" {
				add("(>= " + p + " 0)")
			}
			if l.init != "" && l.init != "0" && l.init != "1" && l.init != "(- 1)" {
				add("(<= " + p + " " + l.init + ")")
				add("(>= " + p + " (- 1))")
			}
			if frames {
				continue
			}
			for _, b := range bounds {
				add("(<= " + p + " " + b + ")")
				add("(<= (+ " + p + " 1) " + b + ")")
			}
		}
	}
	for _, l := range run.leaves {
		p := place(l.key)
		x := seqLetter(l.sort)
		if frames {
			if x != "" && strings.HasPrefix(l.key, "arr:") && l.init != "" && l.init != p {
				for _, i := range idx {
					add("(forall ((k? Int)) (! (=> (<= " + i + " k?) (= (at" + x + " " + p + " k?) (at" + x + " " + l.init + " k?))) :pattern ((at" + x + " " + p + " k?))))")
				}
			}
			continue
		}
		if x != "" {
			ln := "(len" + x + " " + p + ")"
			if !strings.HasPrefix(l.key, "arr:") {
				for _, i := range idx {
					add("(= " + ln + " " + i + ")")
				}
			}
			if len(x) == 2 && x[0] == x[1] && l.init != "" {
				in := x[:1]
				add("(forall ((a? Int)) (! (= (len" + in + " (at" + x + " " + p + " a?)) (len" + in + " (at" + x + " " + l.init + " a?))) :pattern ((at" + x + " " + p + " a?))))")
				for _, i := range e.outerIdx(run, fr) {
					add("(forall ((a? Int)) (! (=> (not (= a? " + i + ")) (= (at" + x + " " + p + " a?) (at" + x + " " + l.init + " a?))) :pattern ((at" + x + " " + p + " a?))))")
				}
			}
			if strings.HasPrefix(l.key, "arr:") && l.init != "" && l.init != p {
				for _, i := range idx {
					add("(forall ((k? Int)) (! (=> (<= " + i + " k?) (= (at" + x + " " + p + " k?) (at" + x + " " + l.init + " k?))) :pattern ((at" + x + " " + p + " k?))))")
				}
			}
			if len(x) == 2 && x[0] == x[1] && strings.HasPrefix(l.key, "arr:") {
				// rows filled so far, and the part of a row filled so far
				in := x[:1]
				row := "(at" + x + " " + p + " a?)"
				for _, i := range idx {
					for _, b := range bounds {
						add("(forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? " + i + ")) (= (len" + in + " " + row + ") " + b + ")) :pattern (" + row + ")))")
					}
					if ok := elemOk(in, "(at"+in+" "+row+" b?)"); ok != "" {
						add("(forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? " + i + ") (<= 0 b?) (< b? (len" + in + " " + row + "))) " + ok + ") :pattern ((at" + in + " " + row + " b?))))")
						for _, o := range e.outerIdx(run, fr) {
							cur := "(at" + in + " (at" + x + " " + p + " " + o + ") b?)"
							add("(forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? " + i + ")) " + elemOk(in, cur) + ") :pattern (" + cur + ")))")
						}
					}
				}
			}
			if strings.HasPrefix(l.key, "arr:") && elemTerm(x, p, "k?") != "" && x != "R" {
				for _, i := range idx {
					el := elemTerm(x, p, "k?")
					add("(forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? " + i + ")) (and (isS " + el + ") (wf " + el + "))) :pattern ((at" + x + " " + p + " k?))))")
				}
			}
			switch x {
			case "V", "M", "P":
				add("(wfs" + x + " " + p + ")")
				add("(chks" + x + " " + p + ")")
			case "A":
				add("(wfsS " + p + ")")
				add("(allS " + p + ")")
			case "VV", "MM", "PP", "RR", "AA":
				for _, b := range bounds {
					add("(alen" + x + " " + p + " " + b + ")")
					// rows as long as those of the matrix the loop runs over
					if m := len2Re.FindStringSubmatch(b); m != nil {
						for _, i := range idx {
							add("(forall ((a? Int)) (! (=> (and (<= 0 a?) (< a? " + i + ")) (= (len" + x[:1] + " (at" + x + " " + p + " a?)) (len" + m[1] + " (at" + m[1] + m[1] + " " + m[2] + " 0)))) :pattern ((at" + x + " " + p + " a?))))")
						}
					}
				}
				if x != "RR" {
					add("(wf2" + x[:1] + " " + p + ")")
				}
			}
		}
		switch l.sort {
		case "Any":
			for _, f := range []string{"isS", "isV", "isM", "isE", "wf"} {
				add("(" + f + " " + p + ")")
			}
			add("(= " + p + " ANil)")
		case "Var":
			add("(wfV " + p + ")")
		case "Mono":
			add("(wfM " + p + ")")
		case "Poly":
			add("(wfP " + p + ")")
		}
	}
	if frames {
		return out
	}
	e.entryCands(run, st, fr, idx, add)
	e.hintCands(run, st, fr, idx, add)
	return out
}

// counts lists the readings of a counter as a number of completed iterations.
func counts(p, init string) []string {
	switch init {
	case "0":
		return []string{p}
	case "(- 1)":
		return []string{"(+ " + p + " 1)"}
	}
	return []string{p, "(+ " + p + " 1)"}
}

// outerIdx lists the counters of the enclosing loops.
func (e *Engine) outerIdx(run *LoopRun, fr *Frame) []string {
	var out []string
	for f := fr; f != nil; f = f.parent {
		for _, h := range f.order {
			r := f.loops[h]
			for _, l := range r.leaves {
				if l.sort == "Int" {
					out = append(out, counts(l.term, l.init)...)
				}
			}
		}
	}
	return out
}

// entryCands: what the contract says of every entry of the result, for the part built so far.
func (e *Engine) entryCands(run *LoopRun, st *State, fr *Frame, idx []string, add func(string)) {
	outer := e.outerIdx(run, fr)
	for _, g := range e.ptGoals {
		for _, l := range run.leaves {
			x := seqLetter(l.sort)
			p := place(l.key)
			inst := func(i, j string) string {
				return g.inst(i, j)
			}
			if el := elemTerm(x, p, "k?"); el != "" {
				upto := []string{"(len" + x + " " + p + ")"}
				if strings.HasPrefix(l.key, "arr:") {
					upto = idx
				}
				for _, u := range upto {
					for _, ij := range indexChoices(append(append([]string{}, outer...), idx...)) {
						add("(forall ((k? Int)) (! (=> (and (<= 0 k?) (< k? " + u + ")) " + inst2(g, ij[0], ij[1], "(sval "+g.q+" "+el+")") + ") :pattern ((at" + x + " " + p + " k?))))")
					}
				}
			}
			if len(x) == 2 && x[0] == x[1] {
				in := x[:1]
				row := "(at" + x + " " + p + " a?)"
				el := elemTerm(in, row, "b?")
				upto := []string{"(len" + x + " " + p + ")"}
				if strings.HasPrefix(l.key, "arr:") {
					upto = idx
				}
				if strings.HasPrefix(l.key, "arr:") {
					for _, u := range idx {
						for _, o := range outer {
							cur := "(at" + x + " " + p + " " + o + ")"
							for _, ij := range [][2]string{{o, "b?"}, {"b?", o}} {
								add("(forall ((b? Int)) (! (=> (and (<= 0 b?) (< b? " + u + ")) " + inst2(g, ij[0], ij[1], "(sval "+g.q+" "+elemTerm(in, cur, "b?")+")") + ") :pattern ((at" + in + " " + cur + " b?))))")
							}
						}
					}
				}
				for _, u := range upto {
					for _, ij := range [][2]string{{"a?", "b?"}, {"b?", "a?"}} {
						add("(forall ((a? Int) (b? Int)) (! (=> (and (<= 0 a?) (< a? " + u + ") (<= 0 b?) (< b? (len" + in + " " + row + "))) " + inst2(g, ij[0], ij[1], "(sval "+g.q+" "+el+")") + ") :pattern ((at" + in + " " + row + " b?))))")
					}
				}
			}
			_ = inst
		}
	}
}

func indexChoices(outer []string) [][2]string {
	out := [][2]string{{"k?", "0"}, {"0", "k?"}}
	for _, o := range outer {
		out = append(out, [2]string{o, "k?"}, [2]string{"k?", o})
	}
	return out
}

// entryGoal is an entry clause of the job's own contract.
type entryGoal struct {
	q          string
	guard, rhs *Sx
	m          map[string]string
}

func (g entryGoal) inst(i, j string) string { return "" }

func inst2(g entryGoal, i, j, lhs string) string {
	m := map[string]string{}
	for k, v := range g.m {
		m[k] = v
	}
	m["q"], m["i"], m["j"] = g.q, i, j
	return mkImp(g.guard.subst(m), "(= "+lhs+" "+g.rhs.subst(m)+")")
}

// visible lists terms of a sort that exist outside the loop.
func (e *Engine) visible(run *LoopRun, st *State, fr *Frame, sort string) []string {
	seen := map[string]bool{}
	var out []string
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	var addTerm func(t Term)
	addTerm = func(t Term) {
		if t.S == sort {
			add(t.E)
			return
		}
		switch t.S {
		case "Mono":
			if sort == "SeqI" {
				add("(mx " + t.E + ")")
			} else if sort == "SeqV" {
				add("(mv " + t.E + ")")
			}
		case "Poly":
			if sort == "SeqM" {
				add("(pm " + t.E + ")")
			}
		}
	}
	var collect func(v Value)
	collect = func(v Value) {
		switch x := v.(type) {
		case Term:
			addTerm(x)
		case IterV:
			addTerm(Term{"SeqV", x.Key})
		case Ref:
			o := st.heap[x.ID]
			if o != nil && o.Sort == sort && len(x.Path) == 0 && !run.mod[fmt.Sprintf("arr:%d", x.ID)] {
				add(e.objTerm(st, x.ID).E)
			}
		case StructV:
			for _, fl := range x.F {
				collect(fl)
			}
			if si, ok := structOf[structTypeName(x.T)]; ok && si.Sort == sort {
				add(e.toTerm(st, x).E)
			}
		case IfaceV:
			if _, ok := tagByType[typeKey(x.T)]; ok {
				if sort == "Any" {
					add(e.toTerm(st, x).E)
				} else {
					collect(x.V)
				}
			}
		}
	}
	for _, b := range e.job.binds {
		addTerm(b)
	}
	for f := fr; f != nil; f = f.parent {
		var vs []ssa.Value
		for v := range f.env {
			vs = append(vs, v)
		}
		sortValues(vs)
		li := e.P.loopsOf(f.fn)
		for _, v := range vs {
			if in, ok := v.(ssa.Instruction); ok && f == fr && li.body[run.header][in.Block()] {
				continue
			}
			collect(f.env[v])
		}
	}
	for _, id := range sortedKeys(st.heap) {
		o := st.heap[id]
		if !o.Arr && !run.anyMod(id) {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupported); !ok {
							panic(r)
						}
					}
				}()
				collect(o.V)
			}()
		}
	}
	return out
}

func (r *LoopRun) anyMod(id int) bool {
	p := fmt.Sprintf("cell:%d", id)
	for k := range r.mod {
		if k == p || strings.HasPrefix(k, p+".") || strings.HasPrefix(k, p+"#") {
			return true
		}
	}
	return false
}

func sortValues(vs []ssa.Value) {
	sort.Slice(vs, func(i, j int) bool {
		a, b := vs[i].Name(), vs[j].Name()
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
}

// hintCands instantiates the invariant templates of the contracts.
//
//	?x:Sort  a value changed by this loop or an enclosing one
//	!x:Sort  any value at hand
//	#i       a counter of this loop, or the counter plus one
//	$i       the same for this loop and the enclosing ones
func (e *Engine) hintCands(run *LoopRun, st *State, fr *Frame, idx []string, add func(string)) {
	var hints []Clause
	seen := map[*Contract]bool{}
	take := func(c *Contract) {
		if c == nil || seen[c] {
			return
		}
		seen[c] = true
		for _, h := range c.Invs {
			if h.active(e.prop) {
				hints = append(hints, h)
			}
		}
	}
	take(e.job.C)
	for f := fr; f != nil; f = f.parent {
		if f.parent == nil {
			break
		}
		for _, u := range e.C.forFunc(f.fn) {
			take(u.C)
		}
		if c := e.C.byName["hints:"+f.fn.Name()]; c != nil {
			take(c)
		}
	}
	take(e.C.byName["hints:*"])
	if e.allHints {
		for _, n := range e.C.order {
			take(e.C.byName[n])
		}
	}
	for _, h := range hints {
		wild := map[string]bool{}
		h.F.atoms(func(a string) {
			if len(a) > 1 && (a[0] == '?' || a[0] == '!' || a[0] == '#' || a[0] == '$') {
				wild[a] = true
			}
		})
		ws := sortedVals(wild)
		choices := make([][]string, len(ws))
		okW := true
		for k, w := range ws {
			switch w[0] {
			case '#':
				choices[k] = idx
			case '$':
				choices[k] = append(append([]string{}, idx...), e.outerIdx(run, fr)...)
			default:
				c := strings.Index(w, ":")
				if c < 0 {
					panic(verifierError{"wildcard without a sort: " + w})
				}
				srt := w[c+1:]
				for _, l := range run.leaves {
					if l.sort == srt {
						choices[k] = append(choices[k], place(l.key))
					}
				}
				for f := fr; f != nil && w[0] == '?'; f = f.parent {
					for _, hd := range f.order {
						for _, l := range f.loops[hd].leaves {
							if l.sort == srt {
								choices[k] = append(choices[k], l.term)
							}
						}
					}
				}
				if w[0] == '!' {
					choices[k] = append(choices[k], e.visible(run, st, fr, srt)...)
				}
			}
			if len(choices[k]) == 0 {
				okW = false
			}
		}
		if !okW || len(ws) == 0 {
			continue
		}
		count := 0
		m := map[string]string{}
		for k, v := range e.job.bindText {
			m[k] = v
		}
		qs := []string{""}
		if mentions(h.F, "q") {
			qs = nil
			for _, q := range e.vals {
				if family(q) == "" {
					qs = append(qs, q)
				}
			}
		}
		var rec func(k int, isLeaf bool)
		rec = func(k int, isLeaf bool) {
			if count > 600 {
				return
			}
			if k == len(ws) {
				if !isLeaf {
					return
				}
				for _, q := range qs {
					if q != "" {
						m["q"] = q
					}
					count++
					add(h.F.subst(m))
				}
				return
			}
			for _, c := range choices[k] {
				m[ws[k]] = c
				rec(k+1, isLeaf || strings.Contains(c, "⟦"))
			}
		}
		rec(0, false)
	}
}

// ---- maps ----

func (e *Engine) lookup(st *State, fr *Frame, x *ssa.Lookup) Value {
	m := e.val(st, fr, x.X)
	if n, ok := m.(NilV); ok {
		m = Term{sortOf(n.T), "empty" + sortOf(n.T)}
	}
	if r, ok := m.(PtrV); ok { // map object
		m = st.heap[r.ID].V
	}
	t := e.toTerm(st, m)
	key := e.toTerm(st, e.val(st, fr, x.Index))
	switch t.S {
	case "VMap":
		v := e.name(Term{"Any", "(mget " + t.E + " " + key.E + ")"})
		if x.CommaOk {
			return TupleV{v, Term{"Bool", "(mhas " + t.E + " " + key.E + ")"}}
		}
		return v
	case "VSet":
		b := Term{"Bool", "(shas " + t.E + " " + key.E + ")"}
		if x.CommaOk {
			return TupleV{b, b}
		}
		return b
	case "ISet":
		b := Term{"Bool", "(ihas " + t.E + " " + key.E + ")"}
		if x.CommaOk {
			return TupleV{b, b}
		}
		return b
	case "IMap":
		v := e.name(Term{"Int", "(imget " + t.E + " " + key.E + ")"})
		if x.CommaOk {
			return TupleV{v, Term{"Bool", "(imhas " + t.E + " " + key.E + ")"}}
		}
		return v
	}
	unsup("lookup in %s", t.S)
	return nil
}

func (e *Engine) makeMap(st *State, t types.Type) Value {
	s := sortOf(t)
	if !isMap(s) {
		unsup("map of type %s", t)
	}
	return PtrV{ID: e.newObj(st, &Obj{V: Term{s, "empty" + s}, T: t, Owned: true})}
}

func (e *Engine) mapUpdate(st *State, fr *Frame, in *ssa.MapUpdate) {
	m := e.val(st, fr, in.Map)
	p, ok := m.(PtrV)
	if !ok {
		e.frameViolation(st, "write into a map that is not the function's own", e.pos(in.Pos()))
	}
	e.ownWrite(e.pos(in.Pos()))
	o := *st.heap[p.ID]
	t := o.V.(Term)
	k := e.toTerm(st, e.val(st, fr, in.Key))
	var v Term
	if !isEmptyStruct(in.Value.Type()) {
		v = e.capture(st, e.val(st, fr, in.Value))
	}
	switch t.S {
	case "VMap":
		o.V = e.name(Term{t.S, "(mput " + t.E + " " + k.E + " " + v.E + ")"})
	case "VSet":
		e.setUpdate(in, v)
		o.V = e.name(Term{t.S, "(sput " + t.E + " " + k.E + ")"})
	case "ISet":
		e.setUpdate(in, v)
		o.V = e.name(Term{t.S, "(iput " + t.E + " " + k.E + ")"})
	case "IMap":
		o.V = e.name(Term{t.S, "(imput " + t.E + " " + k.E + " " + v.E + ")"})
	default:
		unsup("map update of %s", t.S)
	}
	st.heap[p.ID] = &o
}

// setUpdate: only true (or an empty struct) is ever stored in a set.
func (e *Engine) setUpdate(in *ssa.MapUpdate, v Term) {
	if v.E != "true" && !isEmptyStruct(in.Value.Type()) {
		unsup("set update")
	}
}

// rangeOver starts the iteration over a map: an arbitrary enumeration of its keys.
func (e *Engine) rangeOver(st *State, fr *Frame, x *ssa.Range) Value {
	m := e.val(st, fr, x.X)
	if p, ok := m.(PtrV); ok {
		m = st.heap[p.ID].V
	}
	if n, ok := m.(NilV); ok {
		m = Term{sortOf(n.T), "empty" + sortOf(n.T)}
	}
	t := e.toTerm(st, m)
	if t.S != "VMap" && t.S != "VSet" {
		unsup("range over %s", t.S)
	}
	keys := e.fresh("SeqV", "keys")
	e.assume("(keysOf" + t.S + " " + t.E + " " + keys.E + ")")
	id := e.newObj(st, &Obj{V: Term{"Int", "0"}, T: types.Typ[types.Int], Owned: true})
	return IterV{t, id, keys.E}
}

func (e *Engine) next(st *State, fr *Frame, in *ssa.Next, k contF) {
	it, ok := e.val(st, fr, in.Iter).(IterV)
	if !ok {
		unsup("iteration over a string")
	}
	i := st.heap[it.Idx].V.(Term)
	e.addBound(fr, "(lenV "+it.Key+")")
	more := "(< " + i.E + " (lenV " + it.Key + "))"
	e.fork(st, fr, more, "", true, func(s *State, f *Frame) {
		key := e.name(Term{"Var", "(atV " + it.Key + " " + i.E + ")"})
		var v Value = Term{"Bool", "true"}
		if it.M.S == "VMap" {
			v = e.name(Term{"Any", "(mget " + it.M.E + " " + key.E + ")"})
			e.assume("(mhas " + it.M.E + " " + key.E + ")")
			if el, ok := in.Iter.(*ssa.Range); ok {
				if mt, ok := el.X.Type().Underlying().(*types.Map); ok {
					if itf, ok := mt.Elem().Underlying().(*types.Interface); ok && itf.NumMethods() > 0 {
						var ns []string
						for _, ti := range implementers(itf) {
							ns = append(ns, ti.Tag)
						}
						e.assume(mkOr("(= "+v.(Term).E+" ANil)", testers(ns, v.(Term).E)))
					}
				}
			}
		} else {
			e.assume("(shas " + it.M.E + " " + key.E + ")")
		}
		o := *s.heap[it.Idx]
		o.V = e.name(Term{"Int", "(+ " + i.E + " 1)"})
		s.heap[it.Idx] = &o
		k(s, TupleV{Term{"Bool", "true"}, key, v})
	})
	e.fork(st, fr, "(not "+more+")", "", true, func(s *State, f *Frame) {
		k(s, TupleV{Term{"Bool", "false"}, Term{"Var", "(mkVar 0 0.0 0.0 0 str_empty ANil)"}, Term{"Any", "ANil"}})
	})
}
