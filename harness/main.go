package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type Finding struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Seed     int64  `json:"seed"`
	Trial    int    `json:"trial"`
	Op       string `json:"operation"`
	In       string `json:"input"`
	Want     string `json:"expected"`
	Got      string `json:"observed"`
	Lits     string `json:"literals,omitempty"`
}

func harvest(repo string) {
	fs := map[float64]bool{}
	is := map[int]bool{}
	for _, d := range []string{"symbolic", "smErrors", "get/KMatrix", "get/KVector"} {
		files, _ := filepath.Glob(filepath.Join(repo, d, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
			if err != nil {
				continue
			}
			ast.Inspect(t, func(n ast.Node) bool {
				if b, ok := n.(*ast.BasicLit); ok {
					switch b.Kind {
					case token.INT:
						if k, err := strconv.Atoi(b.Value); err == nil {
							is[k] = true
							fs[float64(k)] = true
						}
					case token.FLOAT:
						if k, err := strconv.ParseFloat(b.Value, 64); err == nil {
							fs[k] = true
						}
					}
				}
				return true
			})
		}
	}
	for k := range fs {
		litFloats = append(litFloats, k)
	}
	for k := range is {
		litInts = append(litInts, k)
	}
	sort.Float64s(litFloats)
	sort.Ints(litInts)
}

func runTrial(k kase, seed int64, i int) (f *Fail) {
	defer func() {
		if x := recover(); x != nil {
			if b, ok := x.(bad); ok {
				f = &Fail{k.name, "(see seed)", "a readable value", b.msg}
				return
			}
			f = &Fail{k.name, "(see seed)", "no failure", "harness-level panic: " + safeStr(x)}
		}
	}()
	return k.run(newGen(seed, i))
}

func main() {
	prop := flag.String("prop", "", "property")
	secs := flag.Float64("secs", 20, "time budget")
	seed := flag.Int64("seed", 1, "seed")
	max := flag.Int("max", 1, "stop after this many findings (distinct cases)")
	caseName := flag.String("case", "", "only this case")
	trialIx := flag.Int("trial", -1, "only this trial")
	only := flag.String("only", "", "only cases whose name contains one of these (|-separated)")
	repo := flag.String("repo", "/repo", "repository")
	trials := flag.Int("trials", 0, "run exactly this many trials per case (bounded check) instead of a time budget")
	flag.Parse()
	harvest(*repo)
	oneUnit = *prop == "C09"
	if *trialIx >= 0 {
		for _, k := range build(*prop) {
			if k.name == *caseName {
				f := runTrial(k, *seed, *trialIx)
				if f == nil {
					fmt.Println("no failure")
					return
				}
				out, _ := json.MarshalIndent(Finding{*prop, k.name, *seed, *trialIx, f.Op, f.In, f.Want, f.Got, ""}, "", " ")
				fmt.Println(string(out))
				os.Exit(1)
			}
		}
		fmt.Println("no such case")
		os.Exit(2)
	}
	var cases []kase
	for _, k := range build(*prop) {
		if *caseName != "" && k.name != *caseName {
			continue
		}
		if *only != "" {
			ok := false
			for _, o := range strings.Split(*only, "|") {
				ok = ok || strings.Contains(k.name, o)
			}
			if !ok {
				continue
			}
		}
		cases = append(cases, k)
	}
	if len(cases) == 0 {
		fmt.Println(`{"cases":0,"evaluations":0}`)
		return
	}
	deadline := time.Now().Add(time.Duration(*secs * float64(time.Second)))
	var mu sync.Mutex
	found := map[string]Finding{}
	evals := 0
	next := 0
	block := 40
	// cases are interleaved in blocks of trials so that every case gets its share
	work := func() (int, int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if len(found) >= *max || time.Now().After(deadline) {
			return 0, 0, false
		}
		n := next
		next++
		ci, blk := n%len(cases), n/len(cases)
		if *trials > 0 && blk*block >= *trials {
			return 0, 0, false
		}
		return ci, blk * block, true
	}
	// env tests use the process-wide default environment: one worker
	workers := 8
	if *prop == "C20" || *prop == "C11" {
		workers = 1
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				ci, start, ok := work()
				if !ok {
					return
				}
				k := cases[ci]
				mu.Lock()
				_, done := found[k.name]
				mu.Unlock()
				if done {
					continue
				}
				for i := start; i < start+block; i++ {
					f := runTrial(k, *seed, i)
					mu.Lock()
					evals++
					if f != nil {
						if _, ok := found[k.name]; !ok {
							found[k.name] = Finding{*prop, k.name, *seed, i, f.Op, f.In, f.Want, f.Got, ""}
						}
					}
					mu.Unlock()
					if f != nil {
						break
					}
				}
			}
		}()
	}
	wg.Wait()
	var names []string
	for n := range found {
		names = append(names, n)
	}
	sort.Strings(names)
	var fl []Finding
	for _, n := range names {
		fl = append(fl, found[n])
	}
	out, _ := json.MarshalIndent(map[string]any{"cases": len(cases), "evaluations": evals, "findings": fl}, "", " ")
	fmt.Println(string(out))
	if len(fl) > 0 {
		os.Exit(1)
	}
}
