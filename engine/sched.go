package main

import (
	"bytes"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

// Threads of verifrt.Parallel. Each runs in a goroutine of the engine, but only the one that holds the baton executes; the baton
// changes hands at synchronisation operations called from the repository's code, the choice being a variable of the path.
// Every access to memory is recorded for the analysis of data races.

type lockState struct {
	owner   int // thread+1 holding it for writing, 0 when free
	readers map[int]int
}

type thread struct {
	id      int
	fn      Value
	resume  chan bool
	done    bool
	wait    func() bool // blocked until true
	fr      *frame
	depth   int
	panicV  *targetPanic
	clock   []int         // vector clock
	seg     int           // number of synchronisation operations executed
	held    []interface{} // locks held
	shared  []interface{} // locks held for reading
	started bool
}

type syncEvent struct {
	tid, pos int
	kind     byte // a acquire, r release (exclusive), A R (shared), o ordered operation
	obj      interface{}
}

type access struct {
	tid, pos, seg int
	write         bool
	clock         []int
	held, shared  []interface{}
	loc           string
}

// guarded tells if a lock held during both accesses keeps them apart.
func guarded(a, b access) bool {
	common := func(x, y []interface{}) bool {
		for _, l := range x {
			for _, m := range y {
				if l == m {
					return true
				}
			}
		}
		return false
	}
	return common(a.held, b.held) || common(a.held, b.shared) || common(a.shared, b.held)
}

func without(l []interface{}, obj interface{}) (r []interface{}) {
	done := false
	for _, x := range l {
		if x == obj && !done {
			done = true
			continue
		}
		r = append(r, x)
	}
	return
}

type cellLog struct {
	accs []access
	last [8]int32 // per thread: 1 + 2*seg (+1 when written) of the last access recorded
}

type parState struct {
	threads []*thread
	cur     *thread
	bound   int
	preempt int
	main    chan interface{}
	pos     int
	events  []syncEvent
	cells   map[interface{}]*cellLog
	vcs     map[interface{}][]int // released clocks
	rvcs    map[interface{}][]int // clocks released by readers
	killed  bool
	atomics map[interface{}]bool
}

// killed ends the goroutine of a thread whose path is over.
type killThread struct{}

func joinClock(a, b []int) {
	for i := range b {
		if b[i] > a[i] {
			a[i] = b[i]
		}
	}
}

func (in *Interp) schedChoose(n int) int {
	if n <= 1 {
		return 0
	}
	c := in.choose(n)
	in.nd = append(in.nd, nondet{Kind: "s", c: uint64(c)})
	return c
}

// parallel runs the functions as concurrent threads; returns when all have ended.
func (in *Interp) parallel(fr *frame, fns []Value) {
	if in.par != nil {
		in.unsupported("nested parallel threads")
	}
	if len(fns) > 8 {
		in.unsupported("more than 8 threads")
	}
	p := &parState{bound: in.preemptions, main: make(chan interface{}), cells: map[interface{}]*cellLog{}, vcs: map[interface{}][]int{}, rvcs: map[interface{}][]int{}, atomics: map[interface{}]bool{}}
	fr0, depth := in.curFr, in.depth
	for i, f := range fns {
		t := &thread{id: i, fn: f, resume: make(chan bool), clock: make([]int, len(fns)), depth: depth, fr: fr0}
		t.clock[i] = 1
		p.threads = append(p.threads, t)
	}
	if len(fns) == 0 {
		return
	}
	in.par = p
	for _, t := range p.threads {
		t := t
		go func() {
			var out interface{}
			defer func() {
				if r := recover(); r != nil {
					out = r
				}
				in.threadEnd(p, t, out)
			}()
			if !<-t.resume {
				panic(killThread{})
			}
			in.callValue(fr, t.fn, nil, nil)
		}()
	}
	first := p.threads[in.schedChoose(len(p.threads))]
	p.cur = first
	in.curFr, in.depth = fr0, depth
	first.resume <- true
	out := <-p.main
	// end the threads that are suspended
	p.killed = true
	for _, t := range p.threads {
		if !t.done {
			t.resume <- false
			<-p.main
		}
	}
	in.par = nil
	in.curFr, in.depth = fr0, depth
	if out != nil {
		panic(out)
	}
	in.races(p)
	for _, t := range p.threads {
		if t.panicV != nil {
			panic(t.panicV)
		}
	}
}

// threadEnd passes the baton when a thread ends.
func (in *Interp) threadEnd(p *parState, t *thread, out interface{}) {
	t.done = true
	if p.killed {
		p.main <- nil
		return
	}
	if tp, ok := out.(*targetPanic); ok {
		t.panicV = tp
		out = nil
	}
	if out != nil {
		p.main <- out
		return
	}
	// choosing may abort
	var next *thread
	func() {
		defer func() {
			if r := recover(); r != nil {
				out = r
			}
		}()
		next = in.nextThread(p, t)
	}()
	if out != nil || next == nil {
		p.main <- out
		return
	}
	in.baton(p, next)
}

// runnable lists the threads that can run, except one.
func (p *parState) runnable(but *thread) (r []*thread) {
	for _, t := range p.threads {
		if t != but && !t.done && (t.wait == nil || t.wait()) {
			r = append(r, t)
		}
	}
	return
}

// nextThread chooses the thread to run when t cannot; nil when all ended.
func (in *Interp) nextThread(p *parState, t *thread) *thread {
	r := p.runnable(t)
	if len(r) == 0 {
		for _, o := range p.threads {
			if !o.done {
				panic(&abort{abDeadlock, "all the threads are blocked" + in.where()})
			}
		}
		return nil
	}
	return r[in.schedChoose(len(r))]
}

func (in *Interp) baton(p *parState, to *thread) {
	p.cur = to
	in.curFr, in.depth = to.fr, to.depth
	to.resume <- true
}

func (in *Interp) switchTo(p *parState, to *thread) {
	me := p.cur
	if to == me {
		return
	}
	me.fr, me.depth = in.curFr, in.depth
	in.baton(p, to)
	if !<-me.resume {
		panic(killThread{})
	}
	in.curFr, in.depth = me.fr, me.depth
}

// schedPoint lets another thread run before a synchronisation operation of the repository's code.
func (in *Interp) schedPoint(fr *frame) {
	p := in.par
	if p == nil || in.noUndo > 0 || fr == nil || !fr.code.repo || p.preempt >= p.bound {
		return
	}
	r := p.runnable(p.cur)
	if len(r) == 0 {
		return
	}
	if c := in.schedChoose(1 + len(r)); c > 0 {
		p.preempt++
		in.switchTo(p, r[c-1])
	}
}

// waitFor blocks the current thread until the condition holds.
func (in *Interp) waitFor(cond func() bool, what string) {
	if cond() {
		return
	}
	p := in.par
	if p == nil || in.noUndo > 0 {
		panic(&abort{abDeadlock, what + " never ends" + in.where()})
	}
	me := p.cur
	me.wait = cond
	for !cond() {
		in.switchTo(p, in.nextThread(p, me))
	}
	me.wait = nil
}

func (in *Interp) tid() int {
	if in.par != nil {
		return in.par.cur.id
	}
	return 100
}

func (in *Interp) lockOf(p Ptr) *lockState {
	l := in.locks[p]
	if l == nil {
		l = &lockState{readers: map[int]int{}}
		in.locks[p] = l
	}
	return l
}

// syncOp records a synchronisation operation: acquire joins the released clocks, release publishes ours.
func (in *Interp) syncOp(kind byte, obj interface{}) {
	p := in.par
	if p == nil || in.noUndo > 0 {
		return
	}
	t := p.cur
	switch kind {
	case 'a':
		joinClock(t.clock, p.vcs[obj])
		joinClock(t.clock, p.rvcs[obj])
		t.held = append(without(t.held, nil), obj)
	case 'A':
		joinClock(t.clock, p.vcs[obj])
		t.shared = append(without(t.shared, nil), obj)
	case 'r':
		t.held = without(t.held, obj)
		p.vcs[obj] = append([]int{}, t.clock...)
	case 'R':
		t.shared = without(t.shared, obj)
		if p.rvcs[obj] == nil {
			p.rvcs[obj] = make([]int, len(p.threads))
		}
		joinClock(p.rvcs[obj], t.clock)
	case 'o':
		joinClock(t.clock, p.vcs[obj])
		p.vcs[obj] = append([]int{}, t.clock...)
	}
	t.clock = append([]int{}, t.clock...)
	t.clock[t.id]++
	t.seg++
	p.pos++
	p.events = append(p.events, syncEvent{t.id, p.pos, kind, obj})
}

func (in *Interp) lock(fr *frame, p Ptr, shared bool) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	in.schedPoint(fr)
	l := in.lockOf(p)
	if shared {
		in.waitFor(func() bool { return l.owner == 0 }, "waiting for a lock")
		l.readers[in.tid()]++
		in.syncOp('A', p)
		return
	}
	in.waitFor(func() bool { return l.owner == 0 && len(l.readers) == 0 }, "waiting for a lock")
	l.owner = in.tid() + 1
	in.syncOp('a', p)
}

func (in *Interp) unlock(p Ptr, shared bool) {
	l := in.lockOf(p)
	if shared {
		t := in.tid()
		if len(l.readers) == 0 {
			panic(&abort{abDeadlock, "fatal error: sync: RUnlock of unlocked RWMutex" + in.where()})
		}
		if l.readers[t] == 0 {
			for t = range l.readers {
				break
			}
		}
		if l.readers[t]--; l.readers[t] == 0 {
			delete(l.readers, t)
		}
		in.syncOp('R', p)
		return
	}
	if l.owner == 0 {
		panic(&abort{abDeadlock, "fatal error: sync: unlock of unlocked mutex" + in.where()})
	}
	l.owner = 0
	in.syncOp('r', p)
}

// once runs f the first time; the other calls wait for the end of the first one.
func (in *Interp) once(fr *frame, p Ptr, f Value) {
	in.schedPoint(fr)
	l := in.lockOf(p)
	m := in.syncMap(p)
	if len(m.ents) == 0 && l.owner == 0 {
		l.owner = in.tid() + 1
		defer func() {
			in.mapSet(m, "done", true, onceMap)
			l.owner = 0
			in.syncOp('o', p)
		}()
		in.callValue(fr, f, nil, nil)
		return
	}
	if l.owner == in.tid()+1 {
		panic(&abort{abDeadlock, "recursive call of Once.Do" + in.where()})
	}
	in.waitFor(func() bool { return len(m.ents) > 0 }, "waiting for the first call of Once.Do")
	in.syncOp('o', p)
}

// atomicOp is an atomic operation on a cell (whose accesses are then no more recorded).
func (in *Interp) atomicOp(fr *frame, p Ptr) {
	if in.par == nil || in.noUndo > 0 {
		return
	}
	for fr != nil && fr.code != nil && strings.HasPrefix(fr.code.name, "(*sync/atomic.") {
		fr = fr.caller // method of an atomic type
	}
	in.schedPoint(fr)
	in.par.atomics[p] = true
	in.syncOp('o', p)
}

// note records an access to a cell of memory (or to a map as a whole).
func (in *Interp) note(cell interface{}, write bool) {
	p := in.par
	if in.noUndo > 0 {
		return
	}
	t := p.cur
	c := p.cells[cell]
	if c == nil {
		c = &cellLog{}
		p.cells[cell] = c
	}
	k := int32(1 + 2*t.seg)
	if write {
		k++
	}
	if l := c.last[t.id]; l == k || (l == k+1 && !write) {
		return
	}
	c.last[t.id] = k
	p.pos++
	c.accs = append(c.accs, access{tid: t.id, pos: p.pos, seg: t.seg, write: write, clock: t.clock, held: t.held, shared: t.shared, loc: in.repoWhere()})
}

// noteVal records the access to every cell of the value held at p.
func (in *Interp) noteVal(p Ptr, write bool) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			in.noteVal(&x[i], write)
		}
	case Array:
		for i := range x {
			in.noteVal(&x[i], write)
		}
	default:
		in.note(p, write)
	}
}

// repoWhere names the function being executed and the nearest one of the repository.
func (in *Interp) repoWhere() string {
	fr := in.curFr
	if fr == nil || fr.code == nil {
		return ""
	}
	n := fr.code.name
	for f := fr; f != nil; f = f.caller {
		if f.code != nil && f.code.repo {
			if f != fr {
				n += " < " + f.code.name
			}
			break
		}
	}
	return n
}

// races asserts that no two conflicting accesses can happen at the same time: those that no synchronisation orders in this
// schedule are races; for the others, the solver decides whether another schedule, in which each thread reads the same values and
// the locks are respected, makes them simultaneous.
func (in *Interp) races(p *parState) {
	const label = "no data race"
	type cand struct{ a, b access }
	var cands []cand
	type rd struct {
		r  access
		ws []access
		w  int // index in ws of the write it reads, -1 for the initial value
	}
	var reads []rd
	seen := map[string]bool{}
	var bad []string
	for cell, c := range p.cells {
		w, multi := false, false
		for _, a := range c.accs {
			w = w || a.write
			multi = multi || a.tid != c.accs[0].tid
		}
		if !w || !multi || p.atomics[cell] {
			continue
		}
		sig := ""
		for _, a := range c.accs {
			sig += fmt.Sprintf("%d.%d.%v ", a.tid, a.seg, a.write)
		}
		for i, a := range c.accs {
			for _, b := range c.accs[i+1:] {
				if a.tid == b.tid || !(a.write || b.write) {
					continue
				}
				if a.clock[a.tid] > b.clock[a.tid] && b.clock[b.tid] > a.clock[b.tid] {
					bad = append(bad, fmt.Sprintf("%s and %s (%T)", a.loc, b.loc, cell))
				} else if !seen[sig] && !guarded(a, b) {
					cands = append(cands, cand{a, b})
				}
			}
		}
		if !seen[sig] {
			var ws []access
			for _, a := range c.accs {
				if a.write {
					ws = append(ws, a)
				}
			}
			for _, a := range c.accs {
				if a.write {
					continue
				}
				x := rd{r: a, ws: ws, w: -1}
				for i, q := range ws {
					if q.pos < a.pos {
						x.w = i
					}
				}
				reads = append(reads, x)
			}
		}
		seen[sig] = true
	}
	if len(bad) > 0 {
		sort.Strings(bad)
		in.raceDetail = bad[0]
		if in.cfg.verbose {
			for i, b := range bad {
				if i == 0 || bad[i-1] != b {
					fmt.Println("race:", b)
				}
			}
		}
		in.assertWith(false, label, "conflicting accesses without synchronisation: "+bad[0])
		return
	}
	if len(cands) == 0 {
		in.assertWith(true, label, "")
		return
	}
	sort.Slice(cands, func(i, j int) bool {
		return cands[i].a.pos < cands[j].a.pos || cands[i].a.pos == cands[j].a.pos && cands[i].b.pos < cands[j].b.pos
	})
	// order variables, named after their thread and rank in it: schedules that differ only by the order give the same query
	evs := map[int][]int{} // thread -> positions
	tidOf := map[int]int{}
	add := func(tid, pos int) {
		if _, ok := tidOf[pos]; !ok {
			tidOf[pos] = tid
			evs[tid] = append(evs[tid], pos)
		}
	}
	for _, e := range p.events {
		add(e.tid, e.pos)
	}
	for _, c := range cands {
		add(c.a.tid, c.a.pos)
		add(c.b.tid, c.b.pos)
	}
	for _, r := range reads {
		add(r.r.tid, r.r.pos)
		for _, w := range r.ws {
			add(w.tid, w.pos)
		}
	}
	name := map[int]string{}
	var decls, lines []string
	say := func(f string, a ...interface{}) { lines = append(lines, fmt.Sprintf(f, a...)) }
	for tid, l := range evs {
		sort.Ints(l)
		for i, q := range l {
			name[q] = fmt.Sprintf("o%d_%d", tid, i)
			decls = append(decls, "(declare-const "+name[q]+" Int)")
			if i > 0 {
				say("(assert (< %s %s))", name[l[i-1]], name[q])
			}
		}
	}
	// critical sections
	type section struct {
		tid, acq, rel int
		shared        bool
	}
	secs := map[interface{}][]section{}
	lastO := map[interface{}]int{}
	for _, e := range p.events {
		switch e.kind {
		case 'a', 'A':
			secs[e.obj] = append(secs[e.obj], section{e.tid, e.pos, 0, e.kind == 'A'})
		case 'r', 'R':
			s := secs[e.obj]
			for i := len(s) - 1; i >= 0; i-- {
				if s[i].tid == e.tid && s[i].rel == 0 {
					s[i].rel = e.pos
					break
				}
			}
		case 'o':
			if l := lastO[e.obj]; l != 0 {
				say("(assert (< %s %s))", name[l], name[e.pos])
			}
			lastO[e.obj] = e.pos
		}
	}
	for _, s := range secs {
		for i, x := range s {
			for _, y := range s[i+1:] {
				if x.tid == y.tid || x.shared && y.shared || x.rel == 0 || y.rel == 0 {
					continue
				}
				if x.tid > y.tid {
					x, y := y, x
					say("(assert (or (< %s %s) (< %s %s)))", name[x.rel], name[y.acq], name[y.rel], name[x.acq])
					continue
				}
				say("(assert (or (< %s %s) (< %s %s)))", name[x.rel], name[y.acq], name[y.rel], name[x.acq])
			}
		}
	}
	// the reads before the race see the same writes
	for _, r := range reads {
		var cs []string
		if r.w >= 0 {
			cs = append(cs, fmt.Sprintf("(< %s %s)", name[r.ws[r.w].pos], name[r.r.pos]))
		}
		for i, w := range r.ws {
			if i == r.w || r.w >= 0 && w.tid == r.r.tid && r.ws[r.w].tid == w.tid {
				continue
			}
			c := fmt.Sprintf("(< %s %s)", name[r.r.pos], name[w.pos])
			if r.w >= 0 {
				c = fmt.Sprintf("(or %s (< %s %s))", c, name[w.pos], name[r.ws[r.w].pos])
			}
			cs = append(cs, c)
		}
		if len(cs) > 0 {
			sort.Strings(cs)
			say("(assert (or (>= %s T) (and %s)))", name[r.r.pos], strings.Join(cs, " "))
		}
	}
	pair := func(c cand) string {
		x, y := name[c.a.pos], name[c.b.pos]
		if x > y {
			x, y = y, x
		}
		return fmt.Sprintf("(and (= %s T) (= %s T))", x, y)
	}
	sort.Slice(cands, func(i, j int) bool { return pair(cands[i]) < pair(cands[j]) })
	sort.Strings(decls)
	sort.Strings(lines)
	var b bytes.Buffer
	b.WriteString("(set-logic QF_IDL)\n(declare-const T Int)\n" + strings.Join(decls, "\n") + "\n" + strings.Join(lines, "\n") + "\n(assert (or")
	for _, c := range cands {
		b.WriteString(" " + pair(c))
	}
	b.WriteString("))\n(check-sat)\n")
	key := b.String()
	if _, ok := in.p.raceFree.Load(key); ok {
		in.assertWith(true, label, "")
		return
	}
	for _, c := range cands {
		b.WriteString("(eval " + pair(c) + ")\n")
	}
	t0 := time.Now()
	cmd := exec.Command(in.cfg.solverBin, "-in", "-T:60")
	cmd.Stdin = &b
	out, _ := cmd.Output()
	in.solver.Queries++
	in.solver.Time += time.Since(t0)
	lines = strings.Split(strings.TrimSpace(string(out)), "\n")
	switch lines[0] {
	case "unsat":
		in.p.raceFree.Store(key, true)
		in.st.proved++
		in.assertWith(true, label, "")
	case "sat":
		what := ""
		for i, l := range lines[1:] {
			if l == "true" && i < len(cands) {
				what = cands[i].a.loc + " and " + cands[i].b.loc
			}
		}
		in.assertWith(false, label, "conflicting accesses that another schedule makes simultaneous: "+what)
	default:
		in.st.unknown["race analysis: "+lines[0]]++
	}
}

func (in *Interp) assertWith(ok bool, label, detail string) {
	in.detail = detail
	in.assert(ok, label)
	in.detail = ""
}
