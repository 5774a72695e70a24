package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Clause is one formula of a contract, active for the listed properties ("*": always).
type Clause struct {
	Tags []string
	Name string
	F    *Sx
	Step bool // a step of the proof, not promised to callers
}

// Entry says what entry (i,j) of the result evaluates to.
type Entry struct {
	Tags       []string
	Name       string
	Guard, RHS *Sx
}

type Case struct {
	Name    string
	Domain  map[string][]string
	Given   *Sx
	Ensures []Clause
	Entries []Entry
	NoPanic []Clause
	Vals    []*Sx
	Det     bool // the claim that the function is a function of its arguments
}

type Contract struct {
	Name    string
	Args    []string
	Cases   []*Case
	Fresh   bool
	Generic bool  // verified once for all dynamic types of its arguments
	Result  []*Sx // definitional results
	ResTags []string
	Invs    []Clause
	Lemmas  []Clause
	Decr    bool
	File    string
	Trust   string // reason, for contracts that are assumed and not verified
	Vars    map[string]*Sx
	ModEnv  bool     // writes the list of variables an environment tracks
	Pure    []string // properties for which callers may use that equal arguments give equal results
}

// Root is a contract a property consists of, possibly only one case of it for some kinds of operands.
type Root struct {
	Name, Case string
	Dom        map[string][]string
}

type Contracts struct {
	prop    string // the property of this run
	byName  map[string]*Contract
	roots   map[string][]Root
	sets    map[string][]string
	macros  map[string]*Sx
	mparam  map[string][]string
	order   []string
	noFrame map[string]bool // functions whose purpose is to write
	envs    map[string]bool // properties that speak of what environments track
	frames  map[string]bool // properties decided by the write obligations of every function
}

var frameCase = &Case{Name: "frame", Domain: map[string][]string{}, Given: &Sx{A: "true"}, Ensures: []Clause{{Tags: []string{"*"}, Name: "frame", F: &Sx{A: "true"}}}}

// onlyFrames reduces every contract to its frame: the function writes only into memory of its
// own, for all arguments, and (fresh) results share no memory with anything else.
func (c *Contracts) onlyFrames() {
	var allTags []string
	for _, t := range tags {
		allTags = append(allTags, t.Tag)
	}
	for _, ct := range c.byName {
		if ct.Trust == "" {
			fc := *frameCase
			fc.Domain = map[string][]string{}
			for _, cs := range ct.Cases {
				for a := range cs.Domain { // one job per kind of such an argument
					fc.Domain[a] = append(append([]string{}, allTags...), "ANil", "AOther")
				}
			}
			ct.Cases = []*Case{&fc}
			ct.Lemmas, ct.Pure = nil, nil
		}
	}
}

func (c Clause) active(p string) bool { return tagActive(c.Tags, p) }

func tagActive(ts []string, p string) bool {
	for _, t := range ts {
		if t == "*" || t == p {
			return true
		}
	}
	return false
}

func tagsOf(s *Sx) []string {
	if s.L == nil {
		return []string{s.A}
	}
	var out []string
	for _, x := range s.L {
		out = append(out, x.A)
	}
	return out
}

func loadContracts(dir string) (*Contracts, error) {
	c := &Contracts{byName: map[string]*Contract{}, frames: map[string]bool{}, envs: map[string]bool{}, noFrame: map[string]bool{}, roots: map[string][]Root{}, sets: map[string][]string{}, macros: map[string]*Sx{}, mparam: map[string][]string{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		xs, err := parseSx(string(b), filepath.Base(f))
		if err != nil {
			return nil, err
		}
		for _, x := range xs {
			if err := c.add(x, filepath.Base(f)); err != nil {
				return nil, fmt.Errorf("%s:%d: %v", filepath.Base(f), x.P, err)
			}
		}
	}
	return c, nil
}

// expand replaces the macros of the contract files.
func (c *Contracts) expand(s *Sx) *Sx {
	if s.L == nil {
		if m, ok := c.macros[s.A]; ok && len(c.mparam[s.A]) == 0 {
			return m
		}
		return s
	}
	out := &Sx{L: make([]*Sx, len(s.L)), P: s.P}
	for i, x := range s.L {
		if i == 0 && x.L == nil {
			out.L[i] = x
			continue
		}
		out.L[i] = c.expand(x)
	}
	if h := s.head(); h != "" {
		if m, ok := c.macros[h]; ok && len(c.mparam[h]) == len(s.L)-1 && len(s.L) > 1 {
			sub := map[string]*Sx{}
			for i, p := range c.mparam[h] {
				sub[p] = out.L[i+1]
			}
			return c.expand(substSx(m, sub))
		}
	}
	return out
}

func substSx(s *Sx, m map[string]*Sx) *Sx {
	if s.L == nil {
		if v, ok := m[s.A]; ok {
			return v
		}
		return s
	}
	out := &Sx{L: make([]*Sx, len(s.L)), P: s.P}
	for i, x := range s.L {
		out.L[i] = substSx(x, m)
	}
	return out
}

func (c *Contracts) add(x *Sx, file string) error {
	switch x.head() {
	case "set":
		var ts []string
		for _, t := range x.L[2:] {
			if s, ok := c.sets[t.A]; ok {
				ts = append(ts, s...)
			} else {
				ts = append(ts, t.A)
			}
		}
		c.sets[x.L[1].A] = ts
		return nil
	case "macro":
		n := x.L[1]
		if n.L == nil {
			c.macros[n.A] = c.expand(x.L[2])
			return nil
		}
		for _, p := range n.L[1:] {
			c.mparam[n.L[0].A] = append(c.mparam[n.L[0].A], p.A)
		}
		c.macros[n.L[0].A] = c.expand(x.L[2])
		return nil
	case "environments":
		for _, n := range x.L[1:] {
			c.envs[n.A] = true
		}
		return nil
	case "frames":
		c.frames[x.L[1].A] = true
		for _, n := range x.L[2:] {
			c.noFrame[n.A] = true
		}
		return nil
	case "root":
		for _, n := range x.L[2:] {
			if n.L == nil {
				c.roots[x.L[1].A] = append(c.roots[x.L[1].A], Root{Name: n.A})
				continue
			}
			r := Root{Name: n.L[0].A, Case: n.L[1].A, Dom: map[string][]string{}}
			for _, z := range n.L[2:] {
				for _, t := range z.L[1:] {
					if s, ok := c.sets[t.A]; ok {
						r.Dom[z.L[0].A] = append(r.Dom[z.L[0].A], s...)
					} else {
						r.Dom[z.L[0].A] = append(r.Dom[z.L[0].A], t.A)
					}
				}
			}
			c.roots[x.L[1].A] = append(c.roots[x.L[1].A], r)
		}
		return nil
	case "contract":
		ct := &Contract{Name: x.L[1].A, File: file}
		if old, ok := c.byName[ct.Name]; ok {
			ct = old
		} else {
			c.byName[ct.Name] = ct
			c.order = append(c.order, ct.Name)
		}
		for _, y := range x.L[2:] {
			switch y.head() {
			case "args":
				ct.Args = nil
				for _, a := range y.L[1:] {
					ct.Args = append(ct.Args, a.A)
				}
			case "generic":
				ct.Generic = true
			case "modifies": // (modifies env)
				ct.ModEnv = true
			case "fresh":
				ct.Fresh = true
			case "pure":
				ct.Pure = append(ct.Pure, tagsOf(y.L[1])...)
			case "trusted":
				ct.Trust = y.String()
			case "result":
				ct.Result = nil
				for _, r := range y.L[1:] {
					ct.Result = append(ct.Result, c.expand(r))
				}
			case "inv":
				ct.Invs = append(ct.Invs, c.clause(y))
			case "lemma":
				ct.Lemmas = append(ct.Lemmas, c.clause(y))
			case "case":
				cs := &Case{Name: y.L[1].A, Domain: map[string][]string{}, Given: &Sx{A: "true"}}
				known := false
				for _, o := range ct.Cases { // the same case again adds clauses
					if o.Name == cs.Name {
						cs, known = o, true
					}
				}
				for _, z := range y.L[2:] {
					switch z.head() {
					case "domain":
						if known {
							return fmt.Errorf("%s/%s: the domain of a case is given once", ct.Name, cs.Name)
						}
						var ts []string
						for _, t := range z.L[2:] {
							if s, ok := c.sets[t.A]; ok {
								ts = append(ts, s...)
							} else {
								ts = append(ts, t.A)
							}
						}
						cs.Domain[z.L[1].A] = ts
					case "given":
						if known {
							return fmt.Errorf("%s/%s: the condition of a case is given once", ct.Name, cs.Name)
						}
						cs.Given = c.expand(z.L[1])
					case "ensures":
						cs.Ensures = append(cs.Ensures, c.clause(z))
					case "step":
						cl := c.clause(z)
						cl.Step = true
						cs.Ensures = append(cs.Ensures, cl)
					case "entry":
						if len(z.L) != 4 {
							return fmt.Errorf("entry needs tags, guard and value")
						}
						cs.Entries = append(cs.Entries, Entry{tagsOf(z.L[1]), fmt.Sprintf("%s:%d entry", file, z.P), c.expand(z.L[2]), c.expand(z.L[3])})
					case "nopanic":
						cs.NoPanic = append(cs.NoPanic, c.clause(z))
					case "vals":
						for _, v := range z.L[1:] {
							cs.Vals = append(cs.Vals, c.expand(v))
						}
					default:
						return fmt.Errorf("unknown case item %s", z.head())
					}
				}
				if !known {
					ct.Cases = append(ct.Cases, cs)
				}
			default:
				return fmt.Errorf("unknown contract item %q", y.head())
			}
		}
		return nil
	}
	return fmt.Errorf("unknown item %q", x.head())
}

func (c *Contracts) clause(y *Sx) Clause {
	return Clause{Tags: tagsOf(y.L[1]), Name: fmt.Sprintf("line %d", y.P), F: c.expand(y.L[len(y.L)-1])}
}

var categories = map[string][]string{}

// catsOf lists the contract prefixes that apply to a tag.
func catsOf(tag string) []string {
	switch tag {
	case "AK", "AVar", "AMono", "APoly":
		return []string{"Scalar", "Expression"}
	case "AKV", "AVV", "AMV", "APV":
		return []string{"Vector", "Expression"}
	case "AKM", "AVM", "AMM", "APM":
		return []string{"Matrix", "Expression"}
	case "ASC", "AVC", "AMC":
		return []string{"Constraint"}
	case "AEnv":
		return []string{"Environment"}
	}
	return nil
}

func catTags(cat string) []string {
	var out []string
	for _, t := range tags {
		for _, c := range catsOf(t.Tag) {
			if c == cat {
				out = append(out, t.Tag)
			}
		}
	}
	return out
}

// recvTypeName returns the name of the receiver's type, "" for a function.
func recvType(fn *ssa.Function) types.Type {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	t := types.Unalias(r.Type())
	return t
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// speaks tells whether the contract says anything for the property; a function whose contract
// does not is inlined.
func (ct *Contract) speaks(prop string) bool {
	if ct.Trust != "" || ct.Result != nil || tagActive(ct.Pure, prop) {
		return true
	}
	for _, cs := range ct.Cases {
		for _, l := range [][]Clause{cs.Ensures, cs.NoPanic} {
			for _, cl := range l {
				if cl.active(prop) {
					return true
				}
			}
		}
		for _, en := range cs.Entries {
			if tagActive(en.Tags, prop) {
				return true
			}
		}
	}
	return false
}

// Use is a contract together with whether arguments are seen as Any.
type Use struct {
	C   *Contract
	Cat string // "" when the contract belongs to one function
}

// forFunc lists the contracts of a function.
func (c *Contracts) forFunc(fn *ssa.Function) []Use {
	var out []Use
	rt := recvType(fn)
	if rt == nil {
		n := fn.Name()
		if fn.Pkg != nil && fn.Pkg.Pkg.Name() != "symbolic" {
			n = fn.Pkg.Pkg.Name() + "." + n
		}
		if ct, ok := c.byName[n]; ok && ct.speaks(c.prop) {
			out = append(out, Use{ct, ""})
		}
		return out
	}
	if ct, ok := c.byName[typeName(rt)+"."+fn.Name()]; ok && ct.speaks(c.prop) {
		out = append(out, Use{ct, ""})
	}
	if ti, ok := tagByType[typeKey(rt)]; ok {
		for _, cat := range catsOf(ti.Tag) {
			if ct, ok := c.byName[cat+"."+fn.Name()]; ok {
				out = append(out, Use{ct, cat})
			}
		}
	}
	return out
}

// forMethod lists the contracts of a method called on a value of unknown dynamic type.
func (c *Contracts) forMethod(name string, impl []tagInfo) []Use {
	var out []Use
	seen := map[string]bool{}
	for _, ti := range impl {
		for _, cat := range catsOf(ti.Tag) {
			if seen[cat] {
				continue
			}
			seen[cat] = true
			if ct, ok := c.byName[cat+"."+name]; ok {
				out = append(out, Use{ct, cat})
			}
		}
	}
	return out
}

func testers(ts []string, e string) string {
	var cs []string
	for _, t := range ts {
		cs = append(cs, "((_ is "+t+") "+e+")")
	}
	return mkOr(cs...)
}
