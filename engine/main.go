package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	debug.SetMaxStack(4 << 30)
	verif := flag.String("verif", "/verif", "verif dir")
	repo := flag.String("repo", "/repo", "repository under test")
	run := flag.String("run", "", "harness prefix list (comma separated)")
	tier := flag.Int("tier", 0, "0 quick 1 thorough")
	verbose := flag.Bool("v", false, "verbose")
	workers := flag.Int("j", 8, "workers")
	budget := flag.Int("budget", 240, "total seconds")
	per := flag.Int("per", 120, "seconds per harness")
	toMS := flag.Int("to", 10000, "solver timeout (ms)")
	depth := flag.Int("depth", 2500, "call depth limit")
	steps := flag.Int64("steps", 4000000, "instructions per path")
	out := flag.String("o", "", "result file (json)")
	solver := flag.String("solver", "z3", "solver")
	samples := flag.Int("samples", 12, "native validation samples per harness and job")
	cross := flag.Int64("cross", 64, "re-check every nth completed path condition with the solver")
	prof := flag.String("prof", "", "cpu profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	os.Setenv("PATH", "/opt/veriftools/go1.26.10/bin:"+os.Getenv("PATH"))
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOFLAGS": "-mod=mod", "GOPROXY": "off", "CGO_ENABLED": "0"} {
		os.Setenv(k, v)
	}
	if os.Getenv("HOME") == "" {
		os.Setenv("HOME", "/root")
	}
	t0 := time.Now()
	p, err := load(*verif, *repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(3)
	}
	if *verbose {
		fmt.Fprintln(os.Stderr, "loaded in", time.Since(t0))
	}
	var fns []*ssa.Function
	for _, pre := range strings.Split(*run, ",") {
		for _, n := range p.harnessNames("Verif_" + pre) {
			fns = append(fns, p.harness[n])
		}
	}
	if len(fns) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *run)
		os.Exit(3)
	}
	cfg := &Config{verbose: *verbose, maxDepth: *depth, maxSteps: *steps, tier: *tier, workers: *workers, solverBin: *solver, toMS: *toMS,
		perHarn: time.Duration(*per) * time.Second, deadline: t0.Add(time.Duration(*budget) * time.Second), crossEach: *cross, samples: *samples}
	if cfg.workers > runtime.NumCPU() {
		cfg.workers = runtime.NumCPU()
	}
	ex := &Explorer{p: p, cfg: cfg}
	ex.run(fns)
	res := report(ex, fns, *verbose)
	res.Dropped = p.dropped
	res.LoadS = time.Since(t0).Seconds()
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		os.WriteFile(*out, b, 0644)
	}
}

// HarnessResult is the outcome of one harness.
type HarnessResult struct {
	Name       string           `json:"name"`
	Paths      int64            `json:"paths"`
	Completed  int64            `json:"completed"`
	Assumed    int64            `json:"assumed_away"`
	Steps      int64            `json:"ssa_steps"`
	Asserts    int64            `json:"asserts"`
	Proved     int64            `json:"proved_by_solver"`
	Folded     int64            `json:"constant_on_path"`
	Queries    int64            `json:"solver_queries"`
	Domain     int64            `json:"domain_decisions"`
	Crossed    int64            `json:"paths_rechecked"`
	SolverS    float64          `json:"solver_s"`
	MaxQueryS  float64          `json:"max_query_s"`
	WallS      float64          `json:"wall_s"`
	Labels     map[string]int64 `json:"labels"`
	Sat        []string         `json:"witnessed"`
	Unsup      map[string]int64 `json:"unsupported,omitempty"`
	Limits     map[string]int64 `json:"limits,omitempty"`
	Unknown    map[string]int64 `json:"unknown,omitempty"`
	Truncated  bool             `json:"truncated"`
	Functions  []string         `json:"functions"`
	NFuncs     int              `json:"functions_all"`
	Violations []caseRec        `json:"violations,omitempty"`
	Cases      []caseRec        `json:"cases,omitempty"`
}

// Result is written for the driver.
type Result struct {
	Harnesses []HarnessResult `json:"harnesses"`
	LoadS     float64         `json:"wall_s"`
	Dropped   []string        `json:"dropped,omitempty"`
}

func report(ex *Explorer, fns []*ssa.Function, verbose bool) *Result {
	r := &Result{}
	id := 0
	for _, f := range fns {
		s := ex.stats[f.Name()]
		h := HarnessResult{Name: s.name, Paths: s.paths, Completed: s.ended, Assumed: s.assumed, Steps: s.steps, Asserts: s.asserts, Proved: s.proved, Folded: s.folded,
			Queries: s.queries, Domain: s.domDec, Crossed: s.crossed, SolverS: s.solverTime.Seconds(), MaxQueryS: s.maxQuery.Seconds(), Labels: s.labels, Unsup: s.unsup, Limits: s.limits, Unknown: s.unknown,
			Truncated: s.truncated, WallS: ex.ended[f.Name()].Sub(ex.started[f.Name()]).Seconds()}
		for l := range s.sat {
			h.Sat = append(h.Sat, l)
		}
		sort.Strings(h.Sat)
		for c := range s.funcs {
			h.NFuncs++
			if c.repo && !strings.Contains(c.name, "Verif_") && !strings.Contains(c.name, "verif") {
				h.Functions = append(h.Functions, strings.ReplaceAll(c.name, modPath, "."))
			}
		}
		sort.Strings(h.Functions)
		for _, v := range s.viol {
			id++
			v.ID = id
			h.Violations = append(h.Violations, v)
		}
		for i, v := range s.cases {
			if i >= 60 {
				break
			}
			id++
			v.ID = id
			h.Cases = append(h.Cases, v)
		}
		r.Harnesses = append(r.Harnesses, h)
		if verbose {
			fmt.Printf("%s: paths=%d ended=%d assumed=%d steps=%d asserts=%d (proved %d, folded %d) queries=%d dom=%d solver=%.2fs max=%.2fs wall=%.1fs viol=%d trunc=%v funcs=%d\n", h.Name, h.Paths, h.Completed, h.Assumed, h.Steps, h.Asserts, h.Proved, h.Folded, h.Queries, h.Domain, h.SolverS, h.MaxQueryS, h.WallS, len(h.Violations), h.Truncated, h.NFuncs)
			for _, k := range sortedKeys(s.unsup) {
				fmt.Printf("   UNSUP %d %s\n", s.unsup[k], k)
			}
			for _, k := range sortedKeys(s.limits) {
				fmt.Printf("   LIMIT %d %s\n", s.limits[k], k)
			}
			for _, k := range sortedKeys(s.unknown) {
				fmt.Printf("   UNKNOWN %d %s\n", s.unknown[k], k)
			}
			for _, k := range sortedKeys(s.labels) {
				w := ""
				if !s.sat[k] {
					w = "  (NOT WITNESSED)"
				}
				fmt.Printf("   label %s: %d%s\n", k, s.labels[k], w)
			}
			for _, v := range h.Violations {
				fmt.Printf("   VIOL %s: %s vec=%v obs=%v\n", v.Label, v.Detail, v.Vec, v.Obs)
			}
			type kv struct {
				k string
				n int64
			}
			var fk []kv
			for k, n := range s.forks {
				fk = append(fk, kv{k, n})
			}
			sort.Slice(fk, func(i, j int) bool { return fk[i].n > fk[j].n })
			for i, x := range fk {
				if i > 5 {
					break
				}
				fmt.Printf("   forks %d in %s\n", x.n, x.k)
			}
		}
	}
	return r
}
