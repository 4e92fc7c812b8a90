package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Config of a run.
type Config struct {
	verbose   bool
	maxDepth  int
	maxSteps  int64
	maxPaths  int64
	tier      int
	workers   int
	deadline  time.Time
	perHarn   time.Duration
	solverBin string
	toMS      int
	crossEach int64
	samples   int
}

// caseRec is a concrete input vector for native replay.
type caseRec struct {
	ID      int      `json:"id"`
	Harness string   `json:"harness"`
	Vec     []string `json:"vec"`
	Obs     []string `json:"obs,omitempty"`
	Label   string   `json:"label,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	Tier    int      `json:"tier"`
	MapOrd  int      `json:"mapord,omitempty"`
	loop    bool
}

// hstats aggregates the exploration of one harness.
type hstats struct {
	mu         sync.Mutex
	name       string
	paths      int64
	ended      int64
	assumed    int64
	unsup      map[string]int64
	limits     map[string]int64
	unknown    map[string]int64
	steps      int64
	asserts    int64
	proved     int64
	folded     int64
	queries    int64
	domDec     int64
	labels     map[string]int64
	sat        map[string]bool
	viol       []caseRec
	violBy     map[string]int
	cases      []caseRec
	truncated  bool
	funcs      map[*fnCode]int64
	solverTime time.Duration
	maxQuery   time.Duration
	wall       time.Duration
	crossed    int64
	forks      map[string]int64
}

func newStats(name string) *hstats {
	return &hstats{name: name, unsup: map[string]int64{}, limits: map[string]int64{}, unknown: map[string]int64{}, labels: map[string]int64{},
		violBy: map[string]int{}, funcs: map[*fnCode]int64{}, forks: map[string]int64{}, sat: map[string]bool{}}
}

func (a *hstats) merge(b *hstats) {
	a.paths += b.paths
	a.ended += b.ended
	a.assumed += b.assumed
	a.steps += b.steps
	a.asserts += b.asserts
	a.proved += b.proved
	a.folded += b.folded
	a.queries += b.queries
	a.domDec += b.domDec
	a.crossed += b.crossed
	a.truncated = a.truncated || b.truncated
	a.solverTime += b.solverTime
	if b.maxQuery > a.maxQuery {
		a.maxQuery = b.maxQuery
	}
	for k, v := range b.unsup {
		a.unsup[k] += v
	}
	for k, v := range b.limits {
		a.limits[k] += v
	}
	for k, v := range b.unknown {
		a.unknown[k] += v
	}
	for k, v := range b.labels {
		a.labels[k] += v
	}
	for k := range b.sat {
		a.sat[k] = true
	}
	for k, v := range b.funcs {
		a.funcs[k] += v
	}
	for k, v := range b.forks {
		a.forks[k] += v
	}
	for _, v := range b.viol {
		if a.violBy[v.Label] < 8 {
			a.violBy[v.Label]++
			a.viol = append(a.viol, v)
		}
	}
	a.cases = append(a.cases, b.cases...)
}

// job is a subtree of a harness' decision tree.
type job struct {
	fn     *ssa.Function
	prefix []decision
}

// Explorer shares the job queue between workers.
type Explorer struct {
	p       *Program
	cfg     *Config
	mu      sync.Mutex
	cond    *sync.Cond
	jobs    []job
	active  int
	idle    int
	stats   map[string]*hstats
	started map[string]time.Time
	ended   map[string]time.Time
	pathCnt map[string]*int64
}

type worker struct {
	ex  *Explorer
	in  *Interp
	id  int
	fn  *ssa.Function
	st  *hstats
	tot *int64
}

func (ex *Explorer) run(fns []*ssa.Function) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.stats = map[string]*hstats{}
	ex.started = map[string]time.Time{}
	ex.ended = map[string]time.Time{}
	for _, f := range fns {
		ex.stats[f.Name()] = newStats(f.Name())
		ex.jobs = append(ex.jobs, job{fn: f})
	}
	var wg sync.WaitGroup
	for i := 0; i < ex.cfg.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &worker{ex: ex, id: i}
			w.loop()
		}(i)
	}
	wg.Wait()
}

func (w *worker) loop() {
	ex := w.ex
	for {
		ex.mu.Lock()
		for len(ex.jobs) == 0 {
			ex.idle++
			if ex.active == 0 {
				ex.cond.Broadcast()
				ex.mu.Unlock()
				if w.in != nil {
					w.in.solver.close()
				}
				return
			}
			ex.cond.Wait()
			ex.idle--
			if len(ex.jobs) == 0 && ex.active == 0 {
				ex.idle++
				ex.mu.Unlock()
				if w.in != nil {
					w.in.solver.close()
				}
				return
			}
		}
		j := ex.jobs[0]
		ex.jobs = ex.jobs[1:]
		ex.active++
		if ex.started[j.fn.Name()].IsZero() {
			ex.started[j.fn.Name()] = time.Now()
		}
		ex.mu.Unlock()
		if w.in == nil {
			w.in = newInterp(ex.p, ex.cfg)
			w.in.w = w
		}
		w.explore(j)
		ex.mu.Lock()
		ex.active--
		ex.ended[j.fn.Name()] = time.Now()
		if ex.active == 0 && len(ex.jobs) == 0 {
			ex.cond.Broadcast()
		}
		ex.mu.Unlock()
	}
}

func newInterp(p *Program, cfg *Config) *Interp {
	ts := newTS()
	s, err := newSolver(ts, cfg.solverBin, cfg.toMS)
	if err != nil {
		fmt.Fprintln(os.Stderr, "solver:", err)
		os.Exit(2)
	}
	in := &Interp{p: p, ts: ts, solver: s, cfg: cfg, globals: map[*ssa.Global]Ptr{}, initState: map[*ssa.Package]int{}, initFail: map[*ssa.Package]string{},
		maxStep: cfg.maxSteps, lmat: map[*Term]Value{}, syncMaps: map[Ptr]*Map{}, locks: map[Ptr]*lockState{}}
	in.gen = 0
	in.lmat = map[*Term]Value{}
	in.dom = map[*Term]*domain{}
	return in
}

// prelude initialises the repository's packages needed by a harness, dependencies first.
func (in *Interp) prelude(fn *ssa.Function) {
	seen := map[*ssa.Package]bool{}
	var visit func(pk *ssa.Package)
	visit = func(pk *ssa.Package) {
		if seen[pk] {
			return
		}
		seen[pk] = true
		for _, q := range in.p.imports[pk] {
			if strings.HasPrefix(q.Pkg.Path(), modPath) || eagerInit[q.Pkg.Path()] {
				visit(q)
			}
		}
		if in.initState[pk] == 0 {
			in.maxStep = in.cfg.maxSteps * 20
			in.initPkg(pk)
			in.steps = 0
			in.maxStep = in.cfg.maxSteps
		}
	}
	visit(fn.Pkg)
}

func (in *Interp) resetPath() {
	// restore the heap
	for i := len(in.undo) - 1; i >= 0; i-- {
		*in.undo[i].p = in.undo[i].v
	}
	in.undo = in.undo[:0]
	for i := len(in.mapUndo) - 1; i >= 0; i-- {
		m := in.mapUndo[i]
		o := m.old
		m.ents, m.idx, m.sym, m.gen, m.old = o.ents, o.idx, o.sym, o.gen, nil
	}
	in.mapUndo = in.mapUndo[:0]
	in.gen++
	in.pc = in.pc[:0]
	in.pos = 0
	in.nd = in.nd[:0]
	in.obs = in.obs[:0]
	in.nvar = 0
	in.steps = 0
	in.depth = 0
	in.curFr = nil
	in.mapOrder = 0
	in.terminate = false
	in.labels = map[string]bool{}
	in.env = nil
	in.par, in.preemptions, in.detail = nil, 1, ""
	for k := range in.locks {
		delete(in.locks, k)
	}
	for k := range in.dom {
		delete(in.dom, k)
	}
	for k := range in.lmat {
		delete(in.lmat, k)
	}
	in.maxStep = in.cfg.maxSteps
}

func (w *worker) explore(j job) {
	in, ex := w.in, w.ex
	st := newStats(j.fn.Name())
	in.st = nil
	in.resetPath()
	in.prelude(j.fn)
	in.st = st
	w.fn = j.fn
	q0, t0 := in.solver.Queries, in.solver.Time
	in.solver.MaxT = 0
	in.trail = append([]decision{}, j.prefix...)
	base := 0 // decisions below base belong to other jobs
	for i := range in.trail {
		in.trail[i].alt = false
	}
	base = len(in.trail)
	in.solver.popTo(0)
	if in.ts.n > 3000000 {
		in.solver.close()
		n := newTS()
		in.ts = n
		in.solver, _ = newSolver(n, in.cfg.solverBin, in.cfg.toMS)
		q0, t0 = 0, 0
	}
	in.model = nil
	if base == 0 {
		in.model = map[*Term]uint64{}
	}
	hstart := time.Now()
	ex.mu.Lock()
	hstart = ex.started[j.fn.Name()]
	ex.mu.Unlock()
	n := 0
	for {
		w.runPath(j.fn, st)
		n++
		now := time.Now()
		if now.Sub(hstart) > in.cfg.perHarn || now.After(in.cfg.deadline) {
			for i := base; i < len(in.trail); i++ {
				if in.trail[i].alt {
					st.truncated = true
				}
			}
			break
		}
		// share work with idle workers
		if n%4 == 0 && len(in.trail) > base {
			ex.mu.Lock()
			want := ex.idle > 0 && len(ex.jobs) < ex.idle
			if want {
				for i := base; i < len(in.trail); i++ {
					d := &in.trail[i]
					if !d.alt {
						continue
					}
					pf := make([]decision, i+1)
					for k := 0; k <= i; k++ {
						pf[k] = in.trail[k]
						pf[k].model = nil
						pf[k].alt = false
					}
					if d.n > 2 {
						pf[i].choice++
						// remaining choices beyond choice+1 stay with us: take only the next one
						for c := d.choice + 2; c < d.n; c++ {
							q := append([]decision{}, pf...)
							q[i].choice = c
							ex.jobs = append(ex.jobs, job{fn: j.fn, prefix: q})
						}
					} else {
						pf[i].choice = 1 - d.choice
					}
					d.alt = false
					ex.jobs = append(ex.jobs, job{fn: j.fn, prefix: pf})
					ex.cond.Broadcast()
					break
				}
			}
			ex.mu.Unlock()
		}
		// backtrack
		i := len(in.trail) - 1
		for i >= base && !in.trail[i].alt {
			i--
		}
		if i < base {
			break
		}
		d := &in.trail[i]
		in.trail = in.trail[:i+1]
		in.solver.popTo(min(in.solver.depth, d.pcLen))
		if d.n > 2 {
			d.choice++
			d.alt = d.choice+1 < d.n
		} else {
			d.choice = 1 - d.choice
			d.alt = false
		}
		in.model = d.model
	}
	in.resetPath()
	in.solver.popTo(0)
	st.queries = int64(in.solver.Queries - q0)
	st.solverTime = in.solver.Time - t0
	st.maxQuery = in.solver.MaxT
	ex.mu.Lock()
	ex.stats[j.fn.Name()].merge(st)
	ex.mu.Unlock()
}

func (w *worker) runPath(fn *ssa.Function, st *hstats) {
	in := w.in
	m := in.model
	in.resetPath()
	in.model = m
	st.paths++
	defer func() {
		st.steps += in.steps
	}()
	var ab *abort
	var tp *targetPanic
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *abort:
					ab = x
				case *targetPanic:
					tp = x
				default:
					msg := fmt.Sprint(r)
					if in.cfg.verbose {
						fmt.Fprintln(os.Stderr, "internal:", msg, in.where())
						if st.unsup["internal: "+msg] == 0 {
							debug.PrintStack()
						}
					}
					ab = &abort{abInternal, "internal: " + msg + in.where()}
				}
			}
		}()
		in.call(nil, fn, nil, nil)
	}()
	if in.pos < len(in.trail) && ab == nil {
		ab = &abort{abInternal, "replay divergence"}
	}
	if in.pos < len(in.trail) {
		in.trail = in.trail[:in.pos]
	}
	switch {
	case tp != nil:
		if in.feasibleNow(st) {
			w.violation(st, "panic", in.panicText(tp), false)
		}
	case ab != nil:
		switch ab.kind {
		case abAssume:
			st.assumed++
			return
		case abLimit:
			if in.terminate && in.feasibleNow(st) {
				w.violation(st, "termination", ab.msg, true)
				return
			}
			st.limits[ab.msg]++
			return
		case abStop:
			return
		case abDeadlock:
			if in.feasibleNow(st) {
				w.violation(st, "termination", ab.msg, true)
			}
			return
		default:
			st.unsup[ab.msg]++
			return
		}
	}
	st.ended++
	// vacuity witness and cross-check: the path condition must be satisfiable for the solver
	need := false
	for l := range in.labels {
		if !st.sat[l] {
			need = true
		}
	}
	if need || (in.cfg.crossEach > 0 && st.ended%in.cfg.crossEach == 0) {
		var r string
		m := in.model
		if m != nil && in.floatPath() && in.satisfies(m, in.ts.True) {
			r = "sat" // a witness is at hand and the solver is slow on floating point: replaying it natively is the cross-check
		} else {
			r, m = in.solver.check(in.pc, nil, in.ts.vars, true)
			st.crossed++
		}
		switch r {
		case "sat":
			in.model = m
			for l := range in.labels {
				st.sat[l] = true
			}
		case "unsat":
			st.unsup["engine: path condition of a completed path is unsatisfiable"]++
			return
		default:
			st.unknown["path condition"]++
		}
	}
	if tp == nil && len(st.cases) < in.cfg.samples && (st.ended < 20 || st.ended%7 == 0) {
		st.cases = append(st.cases, in.mkCase(""))
	}
}

// feasibleNow confirms the current path condition (only needed when the model is missing).
func (in *Interp) feasibleNow(st *hstats) bool {
	if in.model != nil && in.satisfies(in.model, in.ts.True) {
		return true
	}
	r, m := in.solver.check(in.pc, nil, in.ts.vars, true)
	if r == "sat" {
		in.model = m
		return true
	}
	if r == "unknown" {
		st.unknown["path condition of a panic"]++
		return in.model != nil
	}
	st.unsup["engine: infeasible path panicked"]++
	return false
}

func (w *worker) violation(st *hstats, label, detail string, loop bool) {
	st.violBy[label]++
	if st.violBy[label] > 6 {
		return
	}
	c := w.in.mkCase(label)
	c.Detail = detail
	c.loop = loop
	st.viol = append(st.viol, c)
}

// mkCase extracts the concrete inputs of the current path from the model.
func (in *Interp) mkCase(label string) caseRec {
	c := caseRec{Harness: in.w.fn.Name(), Label: label, Tier: in.cfg.tier, MapOrd: in.mapOrder}
	m := in.needModel()
	in.ts.epoch++
	for _, n := range in.nd {
		v := n.c
		if n.t != nil {
			v = in.ts.eval(n.t, m)
		}
		c.Vec = append(c.Vec, fmt.Sprintf("%s:%d", n.Kind, v))
	}
	for _, o := range in.obs {
		c.Obs = append(c.Obs, o.name+"="+in.render(o.v, types.Typ[types.Int], 0))
	}
	return c
}

// needModel returns a model of the current path condition.
func (in *Interp) needModel() map[*Term]uint64 {
	if in.model == nil {
		r, m := in.solver.check(in.pc, nil, in.ts.vars, true)
		if r != "sat" {
			if r == "unsat" {
				panic(&abort{abInternal, "engine: no model for the path condition"})
			}
			in.noteUnknown("model")
			panic(&abort{abStop, "unknown"})
		}
		in.model = m
	}
	return in.model
}

func (in *Interp) noteUnknown(what string) {
	if in.st != nil {
		in.st.unknown[what+in.where()]++
	}
}

func (in *Interp) domOf(v *Term) *domain {
	d := in.dom[v]
	if d == nil {
		d = &domain{tab: ttable{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}}
		if v.sort < 8 {
			d.tab = ttable{}
			for i := uint64(0); i <= mask(v.sort); i++ {
				d.tab[i>>6] |= 1 << (i & 63)
			}
		}
		in.dom[v] = d
	}
	return d
}

// push adds c to the path condition.
func (in *Interp) push(c *Term) {
	if c == in.ts.True {
		return
	}
	in.pc = append(in.pc, c)
	if c.nv == 1 && c.v1.sort >= 1 && c.v1.sort <= 8 {
		d := in.domOf(c.v1)
		t := in.ts.table(c)
		d.tab = d.tab.and(t)
		return
	}
	in.tangle(c)
}

func (in *Interp) tangle(c *Term) {
	in.ts.epoch++
	ep := in.ts.epoch
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.nv == 0 || t.epoch == ep {
			return
		}
		t.epoch = ep
		if t.op == oVar {
			if t.sort >= 1 && t.sort <= 8 {
				in.domOf(t).tangled = true
			}
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(c)
}

func (in *Interp) trailVal() uint64 { return in.trail[in.pos].val }

func (in *Interp) branch(c *Term) bool { return in.branchVal(c, 0) }

// branchVal decides c on this path, scheduling the other feasible side.
func (in *Interp) branchVal(c *Term, val uint64) bool {
	if c.isC() {
		return c.val != 0
	}
	ts := in.ts
	if in.symInit > 0 {
		in.unsupported("symbolic branch during init")
	}
	if in.pos < len(in.trail) {
		d := &in.trail[in.pos]
		in.pos++
		r := d.choice == 1
		if !d.implied {
			if r {
				in.push(c)
			} else {
				in.push(ts.Not(c))
			}
		}
		return r
	}
	if in.pos != len(in.trail) {
		panic("trail position")
	}
	rec := func(side bool, implied, alt bool, model map[*Term]uint64) bool {
		in.trail = append(in.trail, decision{choice: int(b2u(side)), n: 2, alt: alt, implied: implied, pcLen: len(in.pc), model: model, val: val})
		in.pos++
		if !implied {
			if side {
				in.push(c)
			} else {
				in.push(ts.Not(c))
			}
		}
		return side
	}
	if c.nv == 1 && c.v1.sort >= 1 && c.v1.sort <= 8 {
		d := in.domOf(c.v1)
		t := ts.table(c)
		nt := t.not()
		pos, neg := d.tab.and(t), d.tab.and(&nt)
		if pos.empty() {
			in.st.domDec++
			return rec(false, true, false, nil)
		}
		if neg.empty() {
			in.st.domDec++
			return rec(true, true, false, nil)
		}
		if !d.tangled {
			in.st.domDec++
			m := in.needModel()
			side := t.has(m[c.v1])
			other := &neg
			if !side {
				other = &pos
			}
			alt := make(map[*Term]uint64, len(m)+1)
			for k, v := range m {
				alt[k] = v
			}
			alt[c.v1] = uint64(other.first())
			in.noteFork()
			return rec(side, false, true, alt)
		}
	}
	if r := in.implied(c); r != 0 {
		in.st.domDec++
		return rec(r > 0, true, false, nil)
	}
	m := in.needModel()
	side := ts.eval(c, m) != 0
	o := c
	if side {
		o = ts.Not(c)
	}
	if gm := in.guess(m, o); gm != nil {
		in.st.domDec++
		in.noteFork()
		return rec(side, false, true, gm)
	}
	r, om := in.solver.check(in.pc, []*Term{o}, ts.vars, true)
	switch r {
	case "unsat":
		return rec(side, true, false, nil)
	case "sat":
		in.noteFork()
		return rec(side, false, true, om)
	}
	// unknown: ask the other solvers whether the other side can be dropped
	if in.second(o) == "unsat" {
		return rec(side, true, false, nil)
	}
	in.noteUnknown("branch side not decided")
	return rec(side, false, false, nil)
}

// floatPath says whether the path condition holds floating point arithmetic.
func (in *Interp) floatPath() bool {
	in.ts.epoch++
	ep := in.ts.epoch
	found := false
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || found || t.epoch == ep {
			return
		}
		t.epoch = ep
		if t.sort == sF64 && t.op != oConst {
			found = true
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, c := range in.pc {
		walk(c)
	}
	return found
}

func (in *Interp) noteFork() {
	if in.cfg.verbose && in.curFr != nil && in.curFr.code != nil {
		in.st.forks[in.curFr.code.name]++
	}
}

// second consults other solvers on pc and c.
func (in *Interp) second(c *Term) string {
	script := dumpQuery(in.pc, []*Term{c})
	to := time.Duration(in.cfg.toMS) * time.Millisecond * 2
	if left := time.Until(in.cfg.deadline); left < to {
		to = left
	}
	if to <= 0 {
		return "unknown"
	}
	r := oneShot("z3-new", nil, script, to)
	if r == "unknown" {
		r = oneShot("cvc5", []string{"--fp-exp"}, script, to)
	}
	if r == "sat" && len(in.ts.ufTerms(in.pc, []*Term{c})) > 0 {
		// The functions may not have the values of that model
		return "unknown"
	}
	return r
}

// choose is an n-way nondeterministic choice.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.trail) {
		d := &in.trail[in.pos]
		in.pos++
		return d.choice
	}
	if n == 2 {
		// keep the binary representation distinct from boolean branches
		in.trail = append(in.trail, decision{choice: 0, n: 2, alt: true, implied: true, pcLen: len(in.pc), model: in.model})
	} else {
		in.trail = append(in.trail, decision{choice: 0, n: n, alt: true, implied: true, pcLen: len(in.pc), model: in.model})
	}
	in.pos++
	return 0
}

func (in *Interp) assume(v Value) {
	c := in.term(v, sBool)
	if c == in.ts.True {
		return
	}
	if c == in.ts.False {
		panic(&abort{abAssume, ""})
	}
	if in.pos < len(in.trail) {
		in.push(c)
		return
	}
	if c.nv == 1 && c.v1.sort >= 1 && c.v1.sort <= 8 {
		d := in.domOf(c.v1)
		t := in.ts.table(c)
		pos := d.tab.and(t)
		if pos.empty() {
			panic(&abort{abAssume, ""})
		}
		if !d.tangled {
			if in.model != nil && !pos.has(in.model[c.v1]) {
				m := make(map[*Term]uint64, len(in.model)+1)
				for k, v := range in.model {
					m[k] = v
				}
				m[c.v1] = uint64(pos.first())
				in.model = m
			}
			in.push(c)
			return
		}
	}
	if in.model != nil && in.ts.eval(c, in.model) != 0 {
		in.push(c)
		return
	}
	if in.model != nil {
		if gm := in.guess(in.model, c); gm != nil {
			in.push(c)
			in.model = gm
			return
		}
	}
	r, m := in.solver.check(in.pc, []*Term{c}, in.ts.vars, true)
	switch r {
	case "unsat":
		panic(&abort{abAssume, ""})
	case "sat":
		in.push(c)
		in.model = m
		return
	}
	in.noteUnknown("assumption not decided")
	panic(&abort{abStop, "unknown"})
}

// assert discharges a property obligation on this path.
func (in *Interp) assert(v Value, label string) {
	in.labels[label] = true
	c := in.term(v, sBool)
	if in.pos < len(in.trail) {
		if c == in.ts.False {
			panic(&abort{abInternal, "failed assertion inside a replayed prefix"})
		}
		if c != in.ts.True {
			d := &in.trail[in.pos]
			in.pos++
			if !d.implied {
				in.push(c)
			}
		}
		return
	}
	st := in.st
	st.asserts++
	st.labels[label]++
	if c == in.ts.True {
		st.folded++
		return
	}
	if c == in.ts.False {
		// the path itself is the counterexample, if feasible
		if in.feasibleNow(st) {
			in.w.violation(st, label, strings.TrimSpace("assertion false "+in.detail), false)
		}
		panic(&abort{abStop, "violated"})
	}
	implied := true
	if in.implied(c) > 0 {
		st.proved++
		in.trail = append(in.trail, decision{choice: 1, n: 2, implied: true, pcLen: len(in.pc)})
		in.pos++
		return
	}
	r, m := "", map[*Term]uint64(nil)
	if m = in.guess(in.needModel(), in.ts.Not(c)); m != nil {
		r = "sat"
	} else {
		r, m = in.solver.check(in.pc, []*Term{in.ts.Not(c)}, in.ts.vars, true)
	}
	if r == "unknown" {
		r = in.second(in.ts.Not(c))
		if r == "sat" {
			r = "unknown"
		}
	}
	switch r {
	case "unsat":
		st.proved++
	case "sat":
		old := in.model
		in.model = m
		in.w.violation(st, label, "assertion violated", false)
		in.model = old
		implied = false
	default:
		st.unknown["assertion "+label]++
	}
	pl := len(in.pc)
	if !implied { // continue on the side where it holds
		in.assume(c)
	}
	in.trail = append(in.trail, decision{choice: 1, n: 2, implied: implied, pcLen: pl})
	in.pos++
}

func sortedKeys(m map[string]int64) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
