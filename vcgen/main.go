package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// rootJobs lists the jobs of the contracts a property names directly.
func rootJobs(p *Program, c *Contracts, prop string) ([]*Job, error) {
	var out []*Job
	for _, root := range c.roots[prop] {
		name := root.Name
		ct := c.byName[name]
		if ct == nil {
			return nil, fmt.Errorf("property %s names the unknown contract %s", prop, name)
		}
		type target struct {
			fn  *ssa.Function
			cat string
		}
		var fns []target
		prefix, meth := "", name
		if i := strings.LastIndex(name, "."); i >= 0 {
			prefix, meth = name[:i], name[i+1:]
		}
		switch {
		case prefix == "":
			if f := p.Sym.Func(meth); f != nil {
				fns = append(fns, target{f, ""})
			}
		case len(catTags(prefix)) > 0:
			for _, t := range catTags(prefix) {
				if d, ok := root.Dom["self"]; ok && !contains(d, t) {
					continue
				}
				if f := p.methodOf(tagByName[t].Type, meth); f != nil {
					fns = append(fns, target{f, prefix})
				}
			}
		default:
			if o := p.Sym.Pkg.Scope().Lookup(prefix); o != nil {
				if f := p.methodOf(o.Type(), meth); f != nil {
					fns = append(fns, target{f, ""})
				} else if f := p.methodOf(types.NewPointer(o.Type()), meth); f != nil {
					fns = append(fns, target{f, ""})
				}
			} else {
				for path, pk := range p.Pkgs {
					if pk.Pkg.Name() == prefix || strings.HasSuffix(path, "/"+prefix) {
						if f := pk.Func(meth); f != nil {
							fns = append(fns, target{f, ""})
						}
					}
				}
			}
		}
		if len(fns) == 0 {
			return nil, fmt.Errorf("contract %s: no such function in the current source", name)
		}
		for _, f := range fns {
			u := Use{ct, f.cat}
			for _, cs := range ct.Cases {
				act := false
				if root.Case != "" && root.Case != cs.Name {
					continue
				}
				if len(root.Dom) > 0 {
					c2 := *cs
					c2.Domain = map[string][]string{}
					for a, ts := range cs.Domain {
						c2.Domain[a] = ts
						if d, ok := root.Dom[a]; ok {
							c2.Domain[a] = nil
							for _, t := range ts {
								if contains(d, t) {
									c2.Domain[a] = append(c2.Domain[a], t)
								}
							}
						}
					}
					cs = &c2
				}
				for _, cl := range cs.Ensures {
					act = act || cl.active(prop)
				}
				for _, cl := range cs.NoPanic {
					act = act || cl.active(prop)
				}
				for _, en := range cs.Entries {
					act = act || tagActive(en.Tags, prop)
				}
				if act {
					out = append(out, jobsFor(p, u, cs, f.fn, nil)...)
				}
			}
			if ct.Result != nil {
				out = append(out, jobsFor(p, u, nil, f.fn, nil)...)
			}
		}
	}
	return out, nil
}

// frameJobs lists a job for every function and method of the packages.
func frameJobs(p *Program, c *Contracts) []*Job {
	var out []*Job
	fns := ssautil.AllFunctions(p.Prog)
	var l []*ssa.Function
	for fn := range fns {
		if fn.Pkg == nil || fn.Blocks == nil || fn.Synthetic != "" || fn.Parent() != nil || fn.Object() == nil || fn.Name() == "init" || fn.Name() == "main" {
			continue
		}
		if path := fn.Pkg.Pkg.Path(); !strings.HasPrefix(path, modPath) || strings.HasSuffix(path, "/smErrors") || fn.TypeParams() != nil {
			continue
		}
		n := fn.Name()
		if rt := recvType(fn); rt != nil {
			n = typeName(rt) + "." + n
		}
		if c.noFrame[n] {
			continue
		}
		l = append(l, fn)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	for _, fn := range l {
		uses := c.forFunc(fn)
		if len(uses) == 0 {
			if !fn.Object().Exported() {
				continue // a helper without a contract is inlined into its callers
			}
			uses = []Use{{&Contract{Name: "frame", Cases: []*Case{frameCase}}, ""}}
		}
		for _, u := range uses {
			if u.C.Trust == "" {
				out = append(out, jobsFor(p, u, u.C.Cases[0], fn, nil)...)
			}
		}
	}
	return out
}

// Report is what one run establishes.
type Report struct {
	Property    string      `json:"property"`
	Proved      bool        `json:"proved"`
	Jobs        []JobReport `json:"jobs"`
	Obligations int         `json:"obligations"`
	Discharged  int         `json:"discharged"`
	Queries     int         `json:"solver_queries"`
	SolverMs    int64       `json:"solver_ms"`
	WallMs      int64       `json:"wall_ms"`
	Functions   []string    `json:"functions"`
	Inlined     []string    `json:"inlined"`
	Trusted     []string    `json:"trusted"`
	External    []string    `json:"external"`
	Failures    []Failure   `json:"failures"`
	Returns     int         `json:"returns"`
	Panics      int         `json:"panics"`
	Loops       int         `json:"loops"`
	Vacuous     int         `json:"vacuous"`
	Solver      string      `json:"solver"`
}

type JobReport struct {
	Name    string `json:"name"`
	Obls    int    `json:"obligations"`
	Returns int    `json:"returns"`
	Panics  int    `json:"panics"`
	Ms      int64  `json:"ms"`
	Err     string `json:"err,omitempty"`
}

type Failure struct {
	Job   string   `json:"job"`
	Obl   string   `json:"obligation"`
	Kind  string   `json:"kind"`
	Pos   string   `json:"pos"`
	Goal  string   `json:"goal,omitempty"`
	Trace []string `json:"trace,omitempty"`
	Dump  string   `json:"dump,omitempty"`
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "/verif/contracts", "contracts")
	prop := flag.String("prop", "", "property")
	only := flag.String("job", "", "only jobs whose name contains this (no worklist)")
	rootF := flag.String("root", "", "take these contracts as the roots of the property")
	out := flag.String("out", "", "report file")
	dump := flag.String("dump", "", "directory for failing queries")
	verbose := flag.Bool("v", false, "verbose")
	debugF := flag.Bool("debug", false, "show invariant search")
	workers := flag.Int("workers", runtime.NumCPU(), "parallel solvers")
	rlimit := flag.Int("rlimit", 3000000, "solver resource limit per query")
	jobTime := flag.Duration("jobtime", 150*time.Second, "time limit per job")
	list := flag.Bool("list", false, "only list root jobs")
	theory := flag.String("theory", "", "only print the expanded theory of this property")
	seed := flag.Int("seed", 1, "random seed of the solver")
	retry := flag.Bool("retry", true, "second attempt with every invariant template")
	budget := flag.Duration("budget", 0, "time after which no job is started")
	maxFail := flag.Int("maxfail", 1000000, "stop after that many failing jobs")
	flag.Parse()
	loopDebug = *debugF
	t0 := time.Now()
	fatal := func(err error) {
		fmt.Fprintln(os.Stderr, "vcgen:", err)
		os.Exit(2)
	}
	if *theory != "" {
		*prop = *theory
	}
	pre, err := expandTheory(filepath.Join(*dir, "theory.smt2"), *prop)
	if err != nil {
		fatal(err)
	}
	if *theory != "" {
		fmt.Println(pre)
		return
	}
	thePreamble = pre
	p, err := loadProgram(*repo)
	if err != nil {
		fatal(err)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				fatal(fmt.Errorf("%v", r))
			}
		}()
		initTags(p)
	}()
	c, err := loadContracts(*dir)
	if err != nil {
		fatal(err)
	}
	c.prop = *prop
	if c.frames[*prop] {
		c.onlyFrames()
	}
	if *rootF != "" {
		c.roots[*prop] = nil
		for _, n := range strings.Split(*rootF, ",") {
			c.roots[*prop] = append(c.roots[*prop], Root{Name: n})
		}
	}
	roots, err := rootJobs(p, c, *prop)
	if err == nil && c.frames[*prop] && *rootF == "" {
		roots = frameJobs(p, c)
	}
	if err != nil {
		fatal(err)
	}
	if *list {
		for _, j := range roots {
			fmt.Println(j.Name())
		}
		return
	}
	loadMs := time.Since(t0).Milliseconds()
	if *dump != "" {
		os.MkdirAll(*dump, 0o755)
	}
	o := runOpts{*prop, *rlimit, *jobTime, *dump, pre, "2", false, *seed, false}

	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	seen := map[string]bool{}
	var queue []*Job
	push := func(js []*Job) {
		for _, j := range js {
			k := j.Key.String()
			if !seen[k] {
				seen[k] = true
				if *only == "" || strings.Contains(k, *only) {
					queue = append(queue, j)
				}
			}
		}
	}
	push(roots)
	running, failed := 0, 0
	var results []JobResult
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && running > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				j := queue[0]
				queue = queue[1:]
				if *budget > 0 && time.Since(t0) > *budget {
					results = append(results, JobResult{Key: j.Key, Err: "not started: the time budget of the run is used up"})
					mu.Unlock()
					continue
				}
				running++
				mu.Unlock()
				r := runJob(p, c, j, o)
				if r.bad() && *retry && (*budget == 0 || time.Since(t0) < *budget) {
					for k := 0; k < 5; k++ {
						o2 := o
						o2.timeout = o.timeout / 2
						o2.fresh = true
						switch k {
						case 1:
							o2.arith = "6"
						case 2:
							o2.allHints = true
							o2.rlimit *= 4
						case 3:
							o2.seed += 7
							o2.rlimit *= 2
						case 4:
							o2.seed += 13
							o2.arith = "6"
							o2.rlimit *= 2
						}
						if r2 := runJob(p, c, j, o2); !r2.bad() {
							r2.Ms += r.Ms
							r2.Retried = true
							r = r2
							break
						}
					}
				}
				mu.Lock()
				running--
				results = append(results, r)
				bad := r.Err != ""
				for _, ob := range r.Obls {
					if !ob.OK {
						bad = true
					}
				}
				if bad {
					failed++
				}
				if failed >= *maxFail {
					queue = nil
				} else {
					push(r.next)
				}
				if *verbose || (bad && *only != "") {
					st := "ok  "
					if bad {
						st = "FAIL"
					}
					fmt.Printf("%s %6dms q=%d solver=%dms obl=%d ret=%d panics=%d  %s %s\n", st, r.Ms, r.Queries, r.SolverMs, len(r.Obls), r.Returns, r.Panics, r.Key, r.Err)
					if bad {
						for _, ob := range r.Obls {
							if !ob.OK {
								fmt.Printf("       %s [%s] at %s (%d ms) %s\n          trace %s\n          goal %s\n", ob.Kind, ob.Name, ob.Pos, ob.Ms, ob.Dump, strings.Join(ob.Trace, "; "), abbrevN(ob.Goal, 400))
							}
						}
					}
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	rep := buildReport(*prop, results)
	rep.WallMs = time.Since(t0).Milliseconds()
	fmt.Printf("property %s: %d jobs, %d obligations, %d discharged, %d failing; %d queries, solver %.1fs, wall %.1fs (load %.1fs)\n", *prop, len(results), rep.Obligations, rep.Discharged, len(rep.Failures), rep.Queries, float64(rep.SolverMs)/1000, float64(rep.WallMs)/1000, float64(loadMs)/1000)
	if *out != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if len(rep.Failures) > 0 {
		if !*verbose {
			for i, f := range rep.Failures {
				if i < 30 {
					fmt.Printf("FAILED %s: %s at %s %s\n", f.Job, f.Obl, f.Pos, strings.Join(f.Trace, "; "))
				}
			}
		}
		os.Exit(1)
	}
	if rep.Obligations == 0 {
		fmt.Println("no obligations: nothing was established")
		os.Exit(3)
	}
}

func (r *JobResult) bad() bool {
	for _, ob := range r.Obls {
		if !ob.OK {
			return true
		}
	}
	return r.Err != ""
}

func abbrevN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func buildReport(prop string, results []JobResult) *Report {
	rep := &Report{Property: prop}
	sort.Slice(results, func(i, j int) bool { return results[i].Key.String() < results[j].Key.String() })
	fns, inl, tr, ex := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, r := range results {
		rep.Jobs = append(rep.Jobs, JobReport{r.Key.String(), len(r.Obls), r.Returns, r.Panics, r.Ms, r.Err})
		rep.Queries += r.Queries
		rep.SolverMs += r.SolverMs
		rep.Returns += r.Returns
		rep.Panics += r.Panics
		rep.Loops += r.Loops
		if r.Returns == 0 && r.Panics == 0 && r.Err == "" {
			rep.Vacuous++
		}
		fns[r.Key.Fn] = true
		for k := range r.inlined {
			inl[strings.ReplaceAll(strings.ReplaceAll(k, modPath+"/symbolic.", ""), modPath+"/", "")] = true
		}
		for k := range r.trusted {
			tr[k] = true
		}
		for k := range r.exts {
			ex[k] = true
		}
		if r.Err != "" {
			rep.Failures = append(rep.Failures, Failure{Job: r.Key.String(), Obl: r.Err, Kind: "undecided"})
		}
		for _, ob := range r.Obls {
			rep.Obligations++
			if ob.OK {
				rep.Discharged++
			} else {
				rep.Failures = append(rep.Failures, Failure{r.Key.String(), ob.Name, ob.Kind, ob.Pos, abbrevN(ob.Goal, 1500), ob.Trace, ob.Dump})
			}
		}
	}
	rep.Functions, rep.Inlined, rep.Trusted, rep.External = sortedVals(fns), sortedVals(inl), sortedVals(tr), sortedVals(ex)
	rep.Proved = len(rep.Failures) == 0 && rep.Obligations > 0
	return rep
}
