package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside the repository: assumed, never verified.

// inner follows pointers and interfaces to a gonum value.
func (e *Engine) inner(st *State, v Value) Value {
	for {
		switch x := v.(type) {
		case IfaceV:
			v = x.V
		case PtrV:
			if o := st.heap[x.ID]; x.Base == nil && o != nil && o.Arr && len(x.Path) == 0 {
				return Ref{ID: x.ID}
			}
			v = e.loadPath(st, x)
		default:
			return v
		}
	}
}

func (e *Engine) vecTerm(st *State, v Value) Term {
	v = e.inner(st, v)
	if n, ok := v.(NilV); ok {
		_ = n
		return Term{"SeqR", "emptyR"}
	}
	return e.content(st, v, nil)
}

func (e *Engine) denTerm(st *State, v Value) Term {
	v = e.inner(st, v)
	if _, ok := v.(NilV); ok {
		return Term{"Dense", "dempty"}
	}
	return e.content(st, v, nil)
}

func (e *Engine) isEmptyGonum(st *State, v Value) bool {
	_, ok := e.inner(st, v).(NilV)
	return ok
}

// setGonum makes t the contents of the receiver.
func (e *Engine) setGonum(st *State, recv Value, t Term, pos string) {
	if p, ok := recv.(PtrV); ok {
		o := st.heap[p.ID]
		if o != nil && o.Arr && len(p.Path) == 0 {
			e.setArr(st, p.ID, t, pos)
			return
		}
		switch x := e.loadPath(st, p).(type) {
		case NilV:
			id := e.newObj(st, &Obj{Arr: true, Content: t, Sort: t.S, T: types.Typ[types.Float64], Owned: true, Deep: true})
			e.storePath(st, p, Ref{ID: id}, pos)
			return
		case Ref:
			e.setArr(st, x.ID, t, pos)
			return
		}
	}
	if r, ok := recv.(Ref); ok {
		e.setArr(st, r.ID, t, pos)
		return
	}
	e.frameViolation(st, "write into a gonum value that is not the function's own", pos)
}

func (e *Engine) setArr(st *State, id int, t Term, pos string) {
	o := *st.heap[id]
	if !o.Owned || o.Moved {
		e.frameViolation(st, "write into a gonum value that is not the function's own", pos)
	}
	e.ownWrite(pos)
	o.Content, o.Elems = t, nil
	st.heap[id] = &o
}

func (e *Engine) newGonum(st *State, t Term) Value {
	return Ref{ID: e.newObj(st, &Obj{Arr: true, Content: t, Sort: t.S, T: types.Typ[types.Float64], Owned: true, Deep: true})}
}

func (e *Engine) gonum(st *State, name string, typ string, args []Value, pos string) Value {
	e.exts["gonum "+typ+"."+name] = true
	n := func(k int) string { return e.toTerm(st, args[k]).E }
	hold := func(c string) { e.mustHold(st, c, "gonum "+typ+"."+name, pos) }
	inR := func(i, ln string) string { return mkAnd(mkCmp("<=", "0", i), mkCmp("<", i, ln)) }
	lenR := func(t Term) string { return "(lenR " + t.E + ")" }
	void := TupleV{}
	switch typ + "." + name {
	case ".NewVecDense":
		k := n(0)
		hold(mkCmp(">", k, "0"))
		if _, nilData := args[1].(NilV); nilData {
			return e.newGonum(st, e.name(Term{"SeqR", "(repR " + k + " 0.0)"}))
		}
		d := e.content(st, args[1], nil)
		hold(mkEq(lenR(d), k))
		if r, ok := args[1].(Ref); ok && len(r.Path) == 0 {
			if d.E == "emptyR" {
				return e.newGonum(st, d)
			}
			o := *st.heap[r.ID]
			o.Content, o.Elems = d, nil
			st.heap[r.ID] = &o
			return Ref{ID: r.ID}
		}
		return args[1]
	case ".NewDense":
		r, c := n(0), n(1)
		hold(mkAnd(mkCmp(">", r, "0"), mkCmp(">", c, "0")))
		if _, nilData := args[2].(NilV); nilData {
			return e.newGonum(st, e.name(Term{"Dense", "(dzero " + r + " " + c + ")"}))
		}
		d := e.content(st, args[2], nil)
		hold(mkEq(lenR(d), mkArith("*", r, c)))
		e.freeze(st, args[2]) // later writes through the data slice are not modelled
		return e.newGonum(st, e.name(Term{"Dense", "(dmake " + r + " " + c + " " + d.E + ")"}))
	case "VecDense.SetVec":
		v := e.vecTerm(st, args[0])
		hold(inR(n(1), lenR(v)))
		e.setGonum(st, args[0], e.name(Term{"SeqR", "(updR " + v.E + " " + n(1) + " " + n(2) + ")"}), pos)
		return void
	case "VecDense.AtVec":
		v := e.vecTerm(st, args[0])
		hold(inR(n(1), lenR(v)))
		return e.name(Term{"Real", "(atR " + v.E + " " + n(1) + ")"})
	case "VecDense.At":
		v := e.vecTerm(st, args[0])
		hold(mkAnd(inR(n(1), lenR(v)), mkEq(n(2), "0")))
		return e.name(Term{"Real", "(atR " + v.E + " " + n(1) + ")"})
	case "VecDense.Len":
		return e.name(Term{"Int", lenR(e.vecTerm(st, args[0]))})
	case "VecDense.Dims":
		return TupleV{e.name(Term{"Int", lenR(e.vecTerm(st, args[0]))}), Term{"Int", "1"}}
	case "VecDense.ScaleVec":
		v := e.vecTerm(st, args[2])
		if !e.isEmptyGonum(st, args[0]) {
			hold(mkEq(lenR(e.vecTerm(st, args[0])), lenR(v)))
		}
		e.setGonum(st, args[0], e.name(Term{"SeqR", "(scaleR " + n(1) + " " + v.E + ")"}), pos)
		return void
	case "VecDense.MulVec":
		m, v := e.denTerm(st, args[1]), e.vecTerm(st, args[2])
		hold(mkEq("(dcols "+m.E+")", lenR(v)))
		if !e.isEmptyGonum(st, args[0]) {
			hold(mkEq(lenR(e.vecTerm(st, args[0])), "(drows "+m.E+")"))
		}
		e.setGonum(st, args[0], e.name(Term{"SeqR", "(dmulv " + m.E + " " + v.E + ")"}), pos)
		return void
	case "VecDense.AddVec", "VecDense.SubVec":
		a, b := e.vecTerm(st, args[1]), e.vecTerm(st, args[2])
		hold(mkEq(lenR(a), lenR(b)))
		if !e.isEmptyGonum(st, args[0]) {
			hold(mkEq(lenR(e.vecTerm(st, args[0])), lenR(a)))
		}
		f := "addR"
		if name == "SubVec" {
			f = "subtR"
		}
		e.setGonum(st, args[0], e.name(Term{"SeqR", "(" + f + " " + a.E + " " + b.E + ")"}), pos)
		return void
	case "Dense.Set":
		d := e.denTerm(st, args[0])
		hold(mkAnd(inR(n(1), "(drows "+d.E+")"), inR(n(2), "(dcols "+d.E+")")))
		e.setGonum(st, args[0], e.name(Term{"Dense", "(dset " + d.E + " " + n(1) + " " + n(2) + " " + n(3) + ")"}), pos)
		return void
	case "Dense.At":
		d := e.denTerm(st, args[0])
		hold(mkAnd(inR(n(1), "(drows "+d.E+")"), inR(n(2), "(dcols "+d.E+")")))
		return e.name(Term{"Real", "(dat " + d.E + " " + n(1) + " " + n(2) + ")"})
	case "Dense.Dims":
		d := e.denTerm(st, args[0])
		return TupleV{e.name(Term{"Int", "(drows " + d.E + ")"}), e.name(Term{"Int", "(dcols " + d.E + ")"})}
	case "Dense.Scale", "Dense.Add", "Dense.Sub", "Dense.Mul":
		var t Term
		var r, c string
		if name == "Scale" {
			d := e.denTerm(st, args[2])
			t = Term{"Dense", "(dscale " + n(1) + " " + d.E + ")"}
			r, c = "(drows "+d.E+")", "(dcols "+d.E+")"
		} else {
			a, b := e.denTerm(st, args[1]), e.denTerm(st, args[2])
			if name == "Mul" {
				hold(mkEq("(dcols "+a.E+")", "(drows "+b.E+")"))
				t = Term{"Dense", "(dmul " + a.E + " " + b.E + ")"}
				r, c = "(drows "+a.E+")", "(dcols "+b.E+")"
			} else {
				hold(mkAnd(mkEq("(drows "+a.E+")", "(drows "+b.E+")"), mkEq("(dcols "+a.E+")", "(dcols "+b.E+")")))
				t = Term{"Dense", "(d" + strings.ToLower(name) + " " + a.E + " " + b.E + ")"}
				r, c = "(drows "+a.E+")", "(dcols "+a.E+")"
			}
		}
		if !e.isEmptyGonum(st, args[0]) {
			d := e.denTerm(st, args[0])
			hold(mkAnd(mkEq("(drows "+d.E+")", r), mkEq("(dcols "+d.E+")", c)))
		}
		e.setGonum(st, args[0], e.name(t), pos)
		return void
	case "Dense.T":
		d := e.denTerm(st, args[0])
		e.freeze(st, e.inner(st, args[0]))
		return e.name(Term{"Dense", "(dT " + d.E + ")"})
	case "Dense.ColView":
		d := e.denTerm(st, args[0])
		hold(inR(n(1), "(dcols "+d.E+")"))
		e.freeze(st, e.inner(st, args[0]))
		return IfaceV{tagByName["APVec"].Type, e.name(Term{"SeqR", "(dcol " + d.E + " " + n(1) + ")"})}
	}
	unsup("no model of gonum %s.%s", typ, name)
	return nil
}

func (e *Engine) external(st *State, fr *Frame, in *ssa.Call, fn *ssa.Function, args []Value, pos string, k contF) {
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	name := fn.Name()
	if strings.HasSuffix(pkg, "gonum/mat") {
		typ := ""
		if r := recvType(fn); r != nil {
			typ = typeName(r)
		}
		k(st, e.gonum(st, name, typ, args, pos))
		return
	}
	e.exts[pkg+"."+name] = true
	switch pkg + "." + name {
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		k(st, e.fresh("Str", "str"))
		return
	case "fmt.Errorf", "errors.New":
		k(st, e.other(IfaceV{}))
		return
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		k(st, TupleV{Term{"Int", "0"}, Term{"Any", "ANil"}})
		return
	case "math.Abs":
		x := e.toTerm(st, args[0])
		k(st, e.name(Term{"Real", "(ite (>= " + x.E + " 0.0) " + x.E + " (- " + x.E + "))"}))
		return
	case "strings.Repeat", "strings.Join", "strings.ToLower", "strings.ToUpper", "strconv.Itoa":
		k(st, e.fresh("Str", "str"))
		return
	case "math.IsNaN", "math.IsInf":
		k(st, Term{"Bool", "false"}) // the reals have neither
		e.trusted["floating-point numbers are treated as real numbers"] = true
		return
	case "math.Max", "math.Min":
		x, y := e.toTerm(st, args[0]), e.toTerm(st, args[1])
		op := ">="
		if name == "Min" {
			op = "<="
		}
		k(st, e.name(Term{"Real", "(ite (" + op + " " + x.E + " " + y.E + ") " + x.E + " " + y.E + ")"}))
		return
	}
	unsup("no model of %s.%s", pkg, name)
}
