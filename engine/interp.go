package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct {
	v  Value // Iface
	at string
}

type abortKind int

const (
	abAssume abortKind = iota
	abUnsupported
	abLimit
	abStop
	abInternal
	abDeadlock
)

// abort ends the current path without running defers.
type abort struct {
	kind abortKind
	msg  string
}

type undoRec struct {
	p *Value
	v Value
}

// nondet is one recorded input.
type nondet struct {
	Kind string `json:"k"`
	t    *Term
	base int64
	c    uint64
}

type obsRec struct {
	name string
	v    Value
}

// Interp executes one path at a time.
type Interp struct {
	p      *Program
	ts     *TS
	solver *Solver
	cfg    *Config

	rng       uint64
	globals   map[*ssa.Global]Ptr
	initState map[*ssa.Package]int // 1 running 2 done 3 failed
	initFail  map[*ssa.Package]string
	stored    map[*ssa.Global]bool

	undo     []undoRec
	mapUndo  []*Map
	noUndo   int
	gen      int
	symInit  int
	initing  *ssa.Package
	quiet    bool
	lmat     map[*Term]Value
	syncMaps map[Ptr]*Map
	targs    []types.Type

	pc      []*Term
	trail   []decision
	pos     int
	model   map[*Term]uint64
	dom     map[*Term]*domain
	nd      []nondet
	obs     []obsRec
	nvar    int
	steps   int64
	depth   int
	maxStep int64

	mapOrder  int
	terminate bool
	labels    map[string]bool
	curFr     *frame
	env       map[string]Value

	par         *parState
	locks       map[Ptr]*lockState
	preemptions int
	detail      string
	raceDetail  string

	st *hstats
	w  *worker
}

type decision struct {
	choice  int
	n       int // >2: n-way choice
	alt     bool
	implied bool
	val     uint64
	pcLen   int
	model   map[*Term]uint64 // model for the alternative
}

type domain struct {
	tab     ttable
	tangled bool
}

func (in *Interp) unsupported(format string, a ...interface{}) {
	panic(&abort{abUnsupported, fmt.Sprintf(format, a...) + in.where()})
}

func (in *Interp) where() string {
	var s []string
	for fr := in.curFr; fr != nil && len(s) < 8; fr = fr.caller {
		if fr.code != nil {
			s = append(s, fr.code.name)
		}
	}
	return " @ " + strings.Join(s, " < ")
}

type deferRec struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
	next *deferRec
}

type frame struct {
	in        *Interp
	code      *fnCode
	regs      []Value
	caller    *frame
	defers    *deferRec
	result    Value
	panicking bool
	panicV    *targetPanic
	prev      int
	recovered bool
}

type instr func(fr *frame)

type phiCode struct {
	dst   int
	edges []opnd
}

type blockCode struct {
	phis  []phiCode
	ins   []instr
	term  func(fr *frame) int
	preds []int
}

type fnCode struct {
	fn      *ssa.Function
	name    string
	intr    intrinsic
	nregs   int
	blocks  []blockCode
	recover int
	nparams int
	pkg     *ssa.Package
	pkgInit bool
	repo    bool
}

type opnd struct {
	k uint8 // 0 reg 1 const 2 global
	i int
	c Value
	g *ssa.Global
}

func (o *opnd) get(fr *frame) Value {
	switch o.k {
	case 0:
		return fr.regs[o.i]
	case 1:
		return o.c
	}
	return fr.in.global(o.g)
}

func (in *Interp) global(g *ssa.Global) Ptr {
	if p, ok := in.globals[g]; ok {
		return p
	}
	if in.initState[g.Pkg] == 0 {
		in.initPkg(g.Pkg)
		if p, ok := in.globals[g]; ok {
			return p
		}
	}
	if m, ok := in.initFail[g.Pkg]; ok {
		in.unsupported("global %s of package whose init failed (%s)", g, m)
	}
	v := new(Value)
	*v = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = v
	return v
}

// initPkg runs a package initialiser (dependencies lazily), outside the path's undo log.
var initWith = map[string]string{"go/internal/scannerhooks": "go/scanner"}

func (in *Interp) initPkg(pk *ssa.Package) {
	if pk == nil || in.initState[pk] != 0 {
		return
	}
	in.initState[pk] = 1
	if other := initWith[pk.Pkg.Path()]; other != "" {
		// its variables are set by the initialisation of another package
		defer in.initPkg(in.p.byPath[other])
	}
	pk.Build()
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			if in.globals[g] == nil {
				v := new(Value)
				*v = zero(g.Type().(*types.Pointer).Elem())
				in.globals[g] = v
			}
		}
	}
	if skipInit[pk.Pkg.Path()] {
		in.initState[pk] = 2
		return
	}
	in.noUndo++
	og := in.gen
	in.gen = 0
	steps := in.steps
	in.symInit++
	fr0 := in.curFr
	depth := in.depth
	ini := in.initing
	in.initing = pk
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case *abort:
					if x.kind == abStop {
						panic(r)
					}
					in.initFail[pk] = x.msg
				case *targetPanic:
					in.initFail[pk] = "panic in init: " + in.panicText(x)
				default:
					panic(r)
				}
				if _, dup := in.p.initSeen.LoadOrStore(pk, true); in.cfg.verbose && !dup {
					fmt.Println("init failed:", pk.Pkg.Path(), in.initFail[pk])
				}
				for _, m := range pk.Members {
					if g, ok := m.(*ssa.Global); ok {
						z := *in.globals[g]
						if isZeroish(z) {
							delete(in.globals, g)
						}
					}
				}
			}
		}()
		in.call(in.curFr, pk.Func("init"), nil, nil)
	}()
	in.initing = ini
	in.curFr = fr0
	in.depth = depth
	in.steps = steps
	in.symInit--
	in.noUndo--
	in.gen = og
	in.initState[pk] = 2
}

func isZeroish(v Value) bool {
	switch x := v.(type) {
	case Ptr:
		return x == nil
	case *Map:
		return x == nil
	case Slice:
		return x == nil
	case Iface:
		return x.t == nil
	case *Closure:
		return x == nil
	case string:
		return x == ""
	case Struct:
		for _, f := range x {
			if !isZeroish(f) {
				return false
			}
		}
		return true
	case Array:
		return true
	}
	return false
}

// store writes v through p (structs and arrays are copied in place).
func (in *Interp) store(p Ptr, v Value) {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			// fields may alias when copying from itself
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.set(p, copyVal(v))
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				in.store(&d[i], x[i])
			}
			return
		}
		in.set(p, copyVal(v))
	default:
		in.set(p, v)
	}
}

func (in *Interp) set(p Ptr, v Value) {
	if in.noUndo == 0 {
		in.undo = append(in.undo, undoRec{p, *p})
	}
	if in.par != nil {
		in.note(p, true)
	}
	*p = v
}

func (in *Interp) load(p Ptr) Value {
	if p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	if in.par != nil {
		in.noteVal(p, false)
	}
	return copyVal(*p)
}

func (in *Interp) rtPanic(format string, a ...interface{}) {
	if os.Getenv("GOSYM_AT") != "" {
		fmt.Println("runtime panic:", fmt.Sprintf(format, a...), in.where())
	}
	panic(&targetPanic{v: Iface{in.p.errString, fmt.Sprintf(format, a...)}, at: in.where()})
}

func (in *Interp) panicText(tp *targetPanic) string {
	i, _ := tp.v.(Iface)
	switch s := i.v.(type) {
	case string:
		if os.Getenv("GOSYM_AT") != "" {
			return s + tp.at
		}
		return s
	}
	return fmt.Sprintf("%v", i.t) + " " + in.render(i.v, i.t, 0) + tp.at
}

// code returns the compiled form of fn.
func (p *Program) code(fn *ssa.Function) *fnCode {
	if c, ok := p.codes.Load(fn); ok {
		return c.(*fnCode)
	}
	c := p.compile(fn)
	q, _ := p.codes.LoadOrStore(fn, c)
	return q.(*fnCode)
}

// call runs fn on args with captured env.
func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	return in.callCode(caller, in.p.code(fn), args, env)
}

type notHandledT struct{}

var notHandled Value = notHandledT{}

func (in *Interp) callCode(caller *frame, c *fnCode, args []Value, env []Value) Value {
	if c.intr != nil {
		oc := in.curFr
		r := c.intr(in, caller, args)
		in.curFr = oc
		if _, nh := r.(notHandledT); !nh {
			return r
		}
	}
	if c.pkgInit && c.pkg != in.initing {
		return nil // dependencies are initialised lazily, when one of their globals is read
	}
	if c.blocks == nil {
		in.unsupported("no body: %s", c.name)
	}
	if c.pkg != nil && in.initState[c.pkg] == 0 && c.fn.Synthetic != "package initializer" {
		if c.repo || eagerInit[c.pkg.Pkg.Path()] {
			in.initPkg(c.pkg)
		}
	}
	fr := &frame{in: in, code: c, caller: caller}
	fr.regs = make([]Value, c.nregs)
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	in.depth++
	if in.depth > in.cfg.maxDepth {
		panic(&abort{abLimit, "depth limit" + in.where()})
	}
	if in.st != nil {
		in.st.funcs[c]++
	}
	oc := in.curFr
	in.curFr = fr
	blk := 0
	for {
		blk = runBlocks(fr, blk)
		if blk < 0 {
			break
		}
	}
	in.curFr = oc
	in.depth--
	return fr.result
}

// runBlocks executes from block blk until return; a recovered panic continues at the recover block.
func runBlocks(fr *frame, blk int) (next int) {
	if fr.code.recover == -2 { // no defers: run without a native recover
		execBlocks(fr, blk)
		return -1
	}
	depth := fr.in.depth
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				if _, isAbort := r.(*abort); !isAbort {
					if re, isRt := r.(error); isRt {
						_ = re
					}
				}
				panic(r)
			}
			fr.in.depth = depth
			fr.in.curFr = fr
			fr.panicking = true
			fr.panicV = tp
			runDefers(fr)
			// recovered
			if fr.code.recover >= 0 {
				next = fr.code.recover
			} else {
				fr.result = zeroResult(fr.code.fn)
				next = -1
			}
		}
	}()
	execBlocks(fr, blk)
	return -1
}

func zeroResult(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// runDefers runs the deferred calls; panics again unless recovered.
func runDefers(fr *frame) {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.next
		runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicV)
	}
}

func runDefer(fr *frame, d *deferRec) {
	ok := false
	depth := fr.in.depth
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(*targetPanic)
			if !isT {
				panic(r)
			}
			fr.in.depth = depth
			fr.in.curFr = fr
			fr.panicking = true
			fr.panicV = tp
		}
	}()
	fr.in.callValue(fr, d.fn, d.args, d.call)
	ok = true
}

func execBlocks(fr *frame, blk int) {
	in := fr.in
	for {
		b := &fr.code.blocks[blk]
		if len(b.phis) > 0 {
			pi := -1
			for i, p := range b.preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			if len(b.phis) == 1 {
				ph := &b.phis[0]
				fr.regs[ph.dst] = ph.edges[pi].get(fr)
			} else {
				var buf [8]Value
				tmp := buf[:0]
				for i := range b.phis {
					tmp = append(tmp, b.phis[i].edges[pi].get(fr))
				}
				for i := range b.phis {
					fr.regs[b.phis[i].dst] = tmp[i]
				}
			}
		}
		in.steps += int64(len(b.ins)) + 1
		if in.steps > in.maxStep {
			panic(&abort{abLimit, "step limit" + in.where()})
		}
		for _, i := range b.ins {
			i(fr)
		}
		fr.prev = blk
		blk = b.term(fr)
		if blk < 0 {
			return
		}
	}
}

// callValue calls a function value (closure, builtin or bound method).
func (in *Interp) callValue(fr *frame, f Value, args []Value, cc *ssa.CallCommon) Value {
	switch x := f.(type) {
	case *Closure:
		if x == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		if x.native != nil {
			return x.native(in, fr, args)
		}
		return in.call(fr, x.fn, args, x.env)
	case *ssa.Builtin:
		return in.builtin(fr, x, args, cc)
	}
	in.unsupported("call of %T", f)
	return nil
}

// invoke calls method m on an interface value.
func (in *Interp) invoke(fr *frame, recv Iface, m *types.Func, args []Value) Value {
	if recv.t == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := in.p.lookupMethod(recv.t, m)
	if fn == nil {
		in.unsupported("method %s of %s", m.Name(), recv.t)
	}
	a := make([]Value, 0, len(args)+1)
	a = append(append(a, recv.v), args...)
	return in.call(fr, fn, a, nil)
}

// identical compares dynamic types.
func identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	_, n1 := a.(*types.Named)
	_, n2 := b.(*types.Named)
	if n1 && n2 {
		x, y := a.(*types.Named), b.(*types.Named)
		if x.Obj() != y.Obj() {
			return false
		}
		if x.TypeArgs() == nil && y.TypeArgs() == nil {
			return true
		}
	} else if n1 != n2 {
		if _, al := a.(*types.Alias); !al {
			if _, al := b.(*types.Alias); !al {
				return false
			}
		}
	}
	return types.Identical(a, b)
}

// ---- compilation ----

type compiler struct {
	p    *Program
	fn   *ssa.Function
	reg  map[ssa.Value]int
	n    int
	code *fnCode
}

func (p *Program) compile(fn *ssa.Function) *fnCode {
	c := &fnCode{fn: fn, name: fn.String(), recover: -2, nparams: len(fn.Params), pkgInit: fn.Synthetic == "package initializer"}
	if t := osRedirect(p, fn, c.name); t != nil {
		c.intr = func(in *Interp, fr *frame, a []Value) Value { return in.callCode(fr, p.code(t), a, nil) }
	} else {
		c.intr = findIntrinsic(fn, c.name)
	}
	c.pkg = fn.Pkg
	if c.pkg == nil {
		if o := fn.Origin(); o != nil {
			c.pkg = o.Pkg
		}
	}
	if c.pkg != nil {
		c.pkg.Build()
		c.repo = strings.HasPrefix(c.pkg.Pkg.Path(), modPath)
	}
	if len(fn.Blocks) == 0 {
		return c
	}
	k := &compiler{p: p, fn: fn, reg: map[ssa.Value]int{}, code: c}
	for _, x := range fn.Params {
		k.newReg(x)
	}
	for _, x := range fn.FreeVars {
		k.newReg(x)
	}
	hasDefer := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				k.newReg(v)
			}
			if _, ok := i.(*ssa.Defer); ok {
				hasDefer = true
			}
		}
	}
	c.blocks = make([]blockCode, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bc := &c.blocks[bi]
		for _, q := range b.Preds {
			bc.preds = append(bc.preds, q.Index)
		}
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Phi:
				ph := phiCode{dst: k.reg[x]}
				for _, e := range x.Edges {
					ph.edges = append(ph.edges, k.op(e))
				}
				bc.phis = append(bc.phis, ph)
			case *ssa.DebugRef:
			case *ssa.If:
				cond := k.op(x.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				bc.term = func(fr *frame) int {
					v := cond.get(fr)
					if bv, ok := v.(bool); ok {
						if bv {
							return t
						}
						return f
					}
					if fr.in.branch(v.(*Term)) {
						return t
					}
					return f
				}
			case *ssa.Jump:
				t := b.Succs[0].Index
				bc.term = func(fr *frame) int { return t }
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
					bc.term = func(fr *frame) int { return -1 }
				case 1:
					o := k.op(x.Results[0])
					bc.term = func(fr *frame) int { fr.result = o.get(fr); return -1 }
				default:
					os := k.ops(x.Results)
					bc.term = func(fr *frame) int {
						r := make(Tuple, len(os))
						for i := range os {
							r[i] = os[i].get(fr)
						}
						fr.result = r
						return -1
					}
				}
			case *ssa.Panic:
				o := k.op(x.X)
				bc.term = func(fr *frame) int {
					panic(&targetPanic{v: o.get(fr), at: fr.in.where()})
				}
			default:
				if f := k.instr(i); f != nil {
					bc.ins = append(bc.ins, f)
				}
			}
		}
		if bc.term == nil {
			bc.term = func(fr *frame) int { fr.in.unsupported("no terminator"); return -1 }
		}
	}
	if hasDefer {
		c.recover = -1
		if fn.Recover != nil {
			c.recover = fn.Recover.Index
		}
	}
	c.nregs = k.n
	return c
}

func (k *compiler) newReg(v ssa.Value) { k.reg[v] = k.n; k.n++ }

func (k *compiler) ops(vs []ssa.Value) []opnd {
	r := make([]opnd, len(vs))
	for i, v := range vs {
		r[i] = k.op(v)
	}
	return r
}

func (k *compiler) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{k: 1, c: constVal(x)}
	case *ssa.Global:
		return opnd{k: 2, g: x}
	case *ssa.Function:
		return opnd{k: 1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return opnd{k: 1, c: x}
	case nil:
		return opnd{k: 1, c: nil}
	}
	i, ok := k.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %T %v in %v", v, v, k.fn))
	}
	return opnd{i: i}
}

func (k *compiler) instr(i ssa.Instruction) instr {
	switch x := i.(type) {
	case *ssa.UnOp:
		return k.unop(x)
	case *ssa.BinOp:
		dst, a, b := k.reg[x], k.op(x.X), k.op(x.Y)
		op, t := x.Op, x.X.Type()
		ti := typeInfo(t)
		switch op {
		case token.EQL, token.NEQ:
			neg := op == token.NEQ
			yt := x.Y.Type()
			_, xi := t.Underlying().(*types.Interface)
			_, yi := yt.Underlying().(*types.Interface)
			if xi != yi { // mixed comparison: box the concrete side
				return func(fr *frame) {
					av, bv := a.get(fr), b.get(fr)
					if !xi {
						av = Iface{t, av}
					} else {
						bv = Iface{yt, bv}
					}
					fr.regs[dst] = fr.in.notIf(fr.in.eq(t, av, bv), neg)
				}
			}
			return func(fr *frame) {
				av, bv := a.get(fr), b.get(fr)
				if p, ok := av.(uint64); ok {
					if q, ok := bv.(uint64); ok {
						fr.regs[dst] = (p == q) != neg
						return
					}
				}
				fr.regs[dst] = fr.in.notIf(fr.in.eq(t, av, bv), neg)
			}
		}
		yti := typeInfo(x.Y.Type())
		return func(fr *frame) { fr.regs[dst] = fr.in.binop(op, ti, yti, a.get(fr), b.get(fr)) }
	case *ssa.Alloc:
		dst := k.reg[x]
		t := x.Type().Underlying().(*types.Pointer).Elem()
		if _, ok := t.Underlying().(*types.Basic); ok {
			z := zero(t)
			return func(fr *frame) {
				v := new(Value)
				*v = z
				fr.regs[dst] = v
			}
		}
		return func(fr *frame) {
			v := new(Value)
			*v = zero(t)
			fr.regs[dst] = v
		}
	case *ssa.Store:
		a, v := k.op(x.Addr), k.op(x.Val)
		return func(fr *frame) {
			p, ok := a.get(fr).(Ptr)
			if !ok {
				fr.in.unsupported("store through %T", a.get(fr))
			}
			fr.in.store(p, v.get(fr))
		}
	case *ssa.FieldAddr:
		dst, o, f := k.reg[x], k.op(x.X), x.Field
		return func(fr *frame) {
			p, ok := o.get(fr).(Ptr)
			if !ok {
				fr.in.unsupported("field address of %T", o.get(fr))
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			s, ok := (*p).(Struct)
			if !ok {
				fr.in.unsupported("field %d of %T", f, *p)
			}
			fr.regs[dst] = &s[f]
		}
	case *ssa.Field:
		dst, o, f := k.reg[x], k.op(x.X), x.Field
		return func(fr *frame) {
			s, ok := o.get(fr).(Struct)
			if !ok {
				fr.in.unsupported("field of %T", o.get(fr))
			}
			fr.regs[dst] = copyVal(s[f])
		}
	case *ssa.IndexAddr:
		dst, o, ix := k.reg[x], k.op(x.X), k.op(x.Index)
		iti := typeInfo(x.Index.Type())
		return func(fr *frame) {
			var s []Value
			switch b := o.get(fr).(type) {
			case Slice:
				s = b
			case Ptr:
				if b == nil {
					fr.in.rtPanic("invalid memory address or nil pointer dereference")
				}
				ar, ok := (*b).(Array)
				if !ok {
					fr.in.unsupported("index of %T", *b)
				}
				s = ar
			default:
				fr.in.unsupported("indexaddr of %T", b)
			}
			fr.regs[dst] = &s[fr.in.index(ix.get(fr), iti, len(s))]
		}
	case *ssa.Index:
		dst, o, ix := k.reg[x], k.op(x.X), k.op(x.Index)
		iti := typeInfo(x.Index.Type())
		eti := typeInfo(x.Type())
		return func(fr *frame) { fr.regs[dst] = fr.in.indexVal(o.get(fr), ix.get(fr), iti, eti) }
	case *ssa.Lookup:
		dst, o, ix := k.reg[x], k.op(x.X), k.op(x.Index)
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		if !isMap {
			iti := typeInfo(x.Index.Type())
			return func(fr *frame) {
				fr.regs[dst] = fr.in.indexVal(o.get(fr), ix.get(fr), iti, tinfo{cInt, 8, false})
			}
		}
		ok := x.CommaOk
		return func(fr *frame) {
			m, _ := o.get(fr).(*Map)
			v, found := fr.in.mapGet(m, ix.get(fr), mt)
			if !found {
				v = zero(mt.Elem())
			}
			v = copyVal(v)
			if ok {
				fr.regs[dst] = Tuple{v, found}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		o, kx, v := k.op(x.Map), k.op(x.Key), k.op(x.Value)
		mt := x.Map.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			m, _ := o.get(fr).(*Map)
			if m == nil {
				panic(&targetPanic{v: Iface{fr.in.p.errString, "assignment to entry in nil map"}, at: fr.in.where()})
			}
			fr.in.mapSet(m, copyVal(kx.get(fr)), copyVal(v.get(fr)), mt)
		}
	case *ssa.MakeMap:
		dst := k.reg[x]
		return func(fr *frame) { fr.regs[dst] = fr.in.newMap() }
	case *ssa.MakeSlice:
		dst, l, cp := k.reg[x], k.op(x.Len), k.op(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		lti, cti := typeInfo(x.Len.Type()), typeInfo(x.Cap.Type())
		return func(fr *frame) {
			n := fr.in.makeLen(l.get(fr), lti)
			c := fr.in.makeLen(cp.get(fr), cti)
			fr.regs[dst] = makeSlice(et, n, c)
		}
	case *ssa.MakeChan:
		dst, sz := k.reg[x], k.op(x.Size)
		return func(fr *frame) { fr.regs[dst] = &Chan{cap: int(sz.get(fr).(uint64))} }
	case *ssa.MakeInterface:
		dst, o, t := k.reg[x], k.op(x.X), types.Unalias(x.X.Type())
		return func(fr *frame) { fr.regs[dst] = Iface{t, o.get(fr)} }
	case *ssa.ChangeInterface:
		dst, o := k.reg[x], k.op(x.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.ChangeType:
		dst, o := k.reg[x], k.op(x.X)
		return func(fr *frame) { fr.regs[dst] = o.get(fr) }
	case *ssa.Convert:
		dst, o, from, to := k.reg[x], k.op(x.X), x.X.Type(), x.Type()
		fi, tti := typeInfo(from), typeInfo(to)
		return func(fr *frame) { fr.regs[dst] = fr.in.convert(o.get(fr), from, to, fi, tti) }
	case *ssa.MultiConvert:
		dst, o, from, to := k.reg[x], k.op(x.X), x.X.Type(), x.Type()
		fi, tti := typeInfo(from), typeInfo(to)
		return func(fr *frame) { fr.regs[dst] = fr.in.convert(o.get(fr), from, to, fi, tti) }
	case *ssa.SliceToArrayPointer:
		dst, o := k.reg[x], k.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := o.get(fr).(Slice)
			if len(s) < n {
				fr.in.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n)
			}
			if s == nil {
				fr.regs[dst] = Ptr(nil)
				return
			}
			v := new(Value)
			*v = Array(s[:n:n])
			fr.regs[dst] = v
		}
	case *ssa.TypeAssert:
		dst, o := k.reg[x], k.op(x.X)
		at := types.Unalias(x.AssertedType)
		it, isI := at.Underlying().(*types.Interface)
		ok := x.CommaOk
		z := zero(at)
		return func(fr *frame) {
			i, isIf := o.get(fr).(Iface)
			if !isIf {
				fr.in.unsupported("type assert on %T", o.get(fr))
			}
			var v Value
			good := false
			if i.t != nil {
				if isI {
					if fr.in.p.implements(i.t, it) {
						good, v = true, i
					}
				} else if identical(i.t, at) {
					good, v = true, copyVal(i.v)
				}
			}
			if !good {
				if !ok {
					dyn := "nil"
					if i.t != nil {
						dyn = i.t.String()
					}
					panic(&targetPanic{v: Iface{fr.in.p.errString, fmt.Sprintf("interface conversion: interface is %s, not %s", dyn, at)}, at: fr.in.where()})
				}
				v = copyVal(z)
			}
			if ok {
				fr.regs[dst] = Tuple{v, good}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.Extract:
		dst, o, n := k.reg[x], k.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[dst] = o.get(fr).(Tuple)[n] }
	case *ssa.Slice:
		return k.slice(x)
	case *ssa.MakeClosure:
		dst, fn, bs := k.reg[x], x.Fn.(*ssa.Function), k.ops(x.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
		}
	case *ssa.Range:
		dst, o := k.reg[x], k.op(x.X)
		mt, isMap := x.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			if !isMap {
				fr.regs[dst] = &strIter{s: fr.in.force(o.get(fr))}
				return
			}
			m, _ := o.get(fr).(*Map)
			fr.regs[dst] = fr.in.mapRange(m, mt)
		}
	case *ssa.Next:
		dst, o, isStr := k.reg[x], k.op(x.Iter), x.IsString
		var zk, zv Value
		if !isStr {
			tt := x.Type().(*types.Tuple)
			zk, zv = safeZero(tt.At(1).Type()), safeZero(tt.At(2).Type())
		}
		return func(fr *frame) {
			if isStr {
				fr.regs[dst] = o.get(fr).(*strIter).next(fr.in)
				return
			}
			it := o.get(fr).(*mapIter)
			for it.i < len(it.ents) {
				e := it.ents[it.i]
				it.i++
				if !fr.in.mapHas(it.m, e) {
					continue
				}
				fr.regs[dst] = Tuple{true, copyVal(e.k), copyVal(fr.in.mapEnt(it.m, e))}
				return
			}
			fr.regs[dst] = Tuple{false, zk, zv}
		}
	case *ssa.Call:
		return k.call(x)
	case *ssa.Defer:
		fv, args, cc := k.callee(&x.Call)
		return func(fr *frame) {
			f := fv(fr)
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			if b, ok := f.(*boundRecv); ok {
				f, as = b.fn, append([]Value{b.recv}, as...)
			}
			fr.defers = &deferRec{fn: f, args: as, call: cc, next: fr.defers}
		}
	case *ssa.RunDefers:
		return func(fr *frame) {
			for fr.defers != nil {
				d := fr.defers
				fr.defers = d.next
				runDeferNormal(fr, d)
			}
		}
	case *ssa.Go:
		return func(fr *frame) { fr.in.unsupported("go statement") }
	case *ssa.Send:
		c, v := k.op(x.Chan), k.op(x.X)
		return func(fr *frame) {
			ch, _ := c.get(fr).(*Chan)
			if ch == nil || len(ch.buf) >= ch.cap {
				fr.in.unsupported("blocking send")
			}
			ch.buf = append(ch.buf, v.get(fr))
		}
	case *ssa.Select:
		return func(fr *frame) { fr.in.unsupported("select") }
	}
	what := fmt.Sprintf("instruction %T", i)
	return func(fr *frame) { fr.in.unsupported("%s", what) }
}

func safeZero(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return zero(t)
}

// runDeferNormal runs a deferred call on normal exit; a panic inside makes the frame panic with the remaining defers pending.
func runDeferNormal(fr *frame, d *deferRec) {
	fr.in.callValue(fr, d.fn, d.args, d.call)
}

type boundRecv struct {
	fn   *Closure
	recv Value
}

// callee resolves the function part of a call.
func (k *compiler) callee(cc *ssa.CallCommon) (func(fr *frame) Value, []opnd, *ssa.CallCommon) {
	args := k.ops(cc.Args)
	if cc.IsInvoke() {
		o, m := k.op(cc.Value), cc.Method
		return func(fr *frame) Value {
			r := o.get(fr).(Iface)
			if r.t == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := fr.in.p.lookupMethod(r.t, m)
			if fn == nil {
				fr.in.unsupported("method %s of %s", m.Name(), r.t)
			}
			return &boundRecv{&Closure{fn: fn}, copyVal(r.v)}
		}, args, cc
	}
	o := k.op(cc.Value)
	return func(fr *frame) Value { return o.get(fr) }, args, cc
}

func (k *compiler) call(x *ssa.Call) instr {
	dst := k.reg[x]
	cc := &x.Call
	args := k.ops(cc.Args)
	if cc.IsInvoke() {
		o, m := k.op(cc.Value), cc.Method
		var lastT types.Type
		var lastC *fnCode
		_ = lastT
		_ = lastC
		return func(fr *frame) {
			r, ok := o.get(fr).(Iface)
			if !ok {
				fr.in.unsupported("invoke on %T", o.get(fr))
			}
			if r.t == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := fr.in.p.lookupMethod(r.t, m)
			if fn == nil {
				fr.in.unsupported("method %s of %s", m.Name(), r.t)
			}
			as := make([]Value, len(args)+1)
			as[0] = copyVal(r.v)
			for i := range args {
				as[i+1] = args[i].get(fr)
			}
			fr.regs[dst] = fr.in.call(fr, fn, as, nil)
		}
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		var code *fnCode
		return func(fr *frame) {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			c := code
			if c == nil {
				c = fr.in.p.code(f)
				code = c // benign race: same pointer
			}
			fr.regs[dst] = fr.in.callCode(fr, c, as, nil)
		}
	case *ssa.Builtin:
		return func(fr *frame) {
			as := make([]Value, len(args))
			for i := range args {
				as[i] = args[i].get(fr)
			}
			fr.regs[dst] = fr.in.builtin(fr, f, as, cc)
		}
	}
	o := k.op(cc.Value)
	return func(fr *frame) {
		f := o.get(fr)
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(fr)
		}
		fr.regs[dst] = fr.in.callValue(fr, f, as, cc)
	}
}

func (k *compiler) unop(x *ssa.UnOp) instr {
	dst, o := k.reg[x], k.op(x.X)
	switch x.Op {
	case token.MUL:
		return func(fr *frame) {
			p, ok := o.get(fr).(Ptr)
			if !ok {
				fr.in.unsupported("load through %T", o.get(fr))
			}
			if p == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			if fr.in.par != nil {
				fr.in.noteVal(p, false)
			}
			fr.regs[dst] = copyVal(*p)
		}
	case token.NOT:
		return func(fr *frame) {
			v := o.get(fr)
			if b, ok := v.(bool); ok {
				fr.regs[dst] = !b
			} else {
				fr.regs[dst] = fr.in.ts.Not(v.(*Term))
			}
		}
	case token.SUB:
		ti := typeInfo(x.X.Type())
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case uint64:
				fr.regs[dst] = -v & mask(ti.sort)
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			case *Term:
				if ti.cls == cFloat {
					fr.regs[dst] = fr.in.ts.Op1(oFNeg, ti.sort, v, 0)
				} else {
					fr.regs[dst] = fr.in.ts.Op1(oNeg, ti.sort, v, 0)
				}
			}
		}
	case token.XOR:
		ti := typeInfo(x.X.Type())
		return func(fr *frame) {
			switch v := o.get(fr).(type) {
			case uint64:
				fr.regs[dst] = ^v & mask(ti.sort)
			case *Term:
				fr.regs[dst] = fr.in.ts.Op1(oBnot, ti.sort, v, 0)
			}
		}
	case token.ARROW:
		ok := x.CommaOk
		et := x.X.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) {
			ch, _ := o.get(fr).(*Chan)
			if ch == nil || (len(ch.buf) == 0 && !ch.closed) {
				fr.in.unsupported("blocking receive")
			}
			var v Value
			got := len(ch.buf) > 0
			if got {
				v = ch.buf[0]
				ch.buf = ch.buf[1:]
			} else {
				v = zero(et)
			}
			if ok {
				fr.regs[dst] = Tuple{v, got}
			} else {
				fr.regs[dst] = v
			}
		}
	}
	return func(fr *frame) { fr.in.unsupported("unop %v", x.Op) }
}

func (k *compiler) slice(x *ssa.Slice) instr {
	dst, o, lo, hi, mx := k.reg[x], k.op(x.X), k.op(x.Low), k.op(x.High), k.op(x.Max)
	hasLo, hasHi, hasMax := x.Low != nil, x.High != nil, x.Max != nil
	var lti, hti, mti tinfo
	if hasLo {
		lti = typeInfo(x.Low.Type())
	}
	if hasHi {
		hti = typeInfo(x.High.Type())
	}
	if hasMax {
		mti = typeInfo(x.Max.Type())
	}
	return func(fr *frame) {
		in := fr.in
		v := in.force(o.get(fr))
		n, c := 0, 0
		var s []Value
		isStr := false
		switch b := v.(type) {
		case string:
			n, c, isStr = len(b), len(b), true
		case *Str:
			n, c, isStr = len(b.b), len(b.b), true
		case Slice:
			s, n, c = b, len(b), cap(b)
		case Ptr:
			if b == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			a := (*b).(Array)
			s, n, c = a, len(a), len(a)
		default:
			in.unsupported("slice of %T", v)
		}
		l, h, m := 0, n, c
		if hasMax {
			m = in.bound(mx.get(fr), mti, c, "slice bounds out of range [::%d] with capacity %d")
		}
		if hasHi {
			h = in.bound(hi.get(fr), hti, m, "slice bounds out of range [:%d] with capacity %d")
		}
		if hasLo {
			l = in.bound(lo.get(fr), lti, h, "slice bounds out of range [%d:%d]")
		}
		if l > h || h > m {
			in.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		if isStr {
			fr.regs[dst] = in.ssub(v, l, h)
			return
		}
		if sv, ok := v.(Slice); ok && sv == nil {
			fr.regs[dst] = Slice(nil)
			return
		}
		fr.regs[dst] = Slice(s[l:h:m])
	}
}
