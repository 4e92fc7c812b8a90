package main

import (
	"bytes"
	"fmt"
	"go/types"
	"math"
	"math/big"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, a []Value) Value

var intrinsics = map[string]intrinsic{}

// pkgStubs: every function of these packages becomes a no-op returning zero values (logging, colours, ...).
var pkgStubs = map[string]bool{
	"github.com/coveooss/multilogger":        true,
	"github.com/coveooss/multilogger/errors": false,
	"github.com/sirupsen/logrus":             true,
	"log":                                    true,
	"log/internal":                           true,
}

// skipInit: package initialisers that are not run (their globals stay zero).
var skipInit = map[string]bool{
	"runtime": true, "runtime/debug": true, "internal/cpu": true, "internal/poll": true, "internal/godebug": true, "internal/bisect": true,
	"sync": true, "reflect": true, "internal/reflectlite": true, "internal/syscall/unix": true, "internal/testlog": true, "runtime/internal/sys": true,
	"github.com/coveooss/multilogger": true, "github.com/sirupsen/logrus": true, "internal/abi": true, "internal/bytealg": true, "log": true,
	"internal/godebugs": true, "hash/maphash": true, "internal/runtime/maps": true, "internal/runtime/sys": true, "time": false,
}

var eagerInit = map[string]bool{}

func findIntrinsic(fn *ssa.Function, name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[o.String()]; ok {
			return withTypeArgs(f, fn)
		}
	}
	pk := fn.Pkg
	if pk == nil {
		if fn.Signature.Recv() != nil {
			// wrappers keep a nil package: find it from the receiver
			if obj := fn.Object(); obj != nil && obj.Pkg() != nil && pkgStubs[obj.Pkg().Path()] {
				return stubZero(fn)
			}
		}
		return nil
	}
	if pkgStubs[pk.Pkg.Path()] && fn.Synthetic != "package initializer" && fn.Name() != "ParseBool" {
		return stubZero(fn)
	}
	return nil
}

func withTypeArgs(f intrinsic, fn *ssa.Function) intrinsic {
	return func(in *Interp, fr *frame, a []Value) Value {
		in.curTypeArgs(fn)
		return f(in, fr, a)
	}
}

func (in *Interp) curTypeArgs(fn *ssa.Function) { in.targs = fn.TypeArgs() }

func stubZero(fn *ssa.Function) intrinsic {
	res := fn.Signature.Results()
	return func(in *Interp, fr *frame, a []Value) Value {
		if fn.Signature.Recv() != nil && res.Len() == 1 && len(a) > 0 && types.Identical(res.At(0).Type(), fn.Signature.Recv().Type()) {
			return a[0]
		}
		switch res.Len() {
		case 0:
			return nil
		case 1:
			t := res.At(0).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				v := new(Value)
				*v = zero(p.Elem())
				return v
			}
			return zero(t)
		}
		return zero(res)
	}
}

func reg(name string, f intrinsic) { intrinsics[name] = f }

// natConcrete: native call when every argument is concrete, otherwise interpret the real code.
func regNative(name string, f interface{}) {
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	reg(name, func(in *Interp, fr *frame, a []Value) Value {
		args := make([]reflect.Value, len(a))
		for i := range a {
			nv, ok := toNative(in, a[i], ft.In(i))
			if !ok {
				return notHandled
			}
			args[i] = nv
		}
		var outs []reflect.Value
		if ft.IsVariadic() {
			outs = fv.CallSlice(args)
		} else {
			outs = fv.Call(args)
		}
		r := make(Tuple, len(outs))
		for i, o := range outs {
			v, ok := fromNative(o)
			if !ok {
				return notHandled
			}
			r[i] = v
		}
		switch len(r) {
		case 0:
			return nil
		case 1:
			return r[0]
		}
		return r
	})
}

func toNative(in *Interp, v Value, t reflect.Type) (reflect.Value, bool) {
	r := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		if l, ok := v.(*LStr); ok {
			v = in.force(l)
		}
		s, ok := v.(string)
		if !ok {
			return r, false
		}
		r.SetString(s)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u, ok := v.(uint64)
		if !ok {
			return r, false
		}
		r.SetInt(sx(u, Sort(t.Bits())))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		u, ok := v.(uint64)
		if !ok {
			return r, false
		}
		r.SetUint(u)
	case reflect.Float64, reflect.Float32:
		f, ok := v.(float64)
		if !ok {
			return r, false
		}
		r.SetFloat(f)
	case reflect.Bool:
		b, ok := v.(bool)
		if !ok {
			return r, false
		}
		r.SetBool(b)
	case reflect.Slice:
		s, ok := v.(Slice)
		if !ok {
			return r, false
		}
		if s == nil {
			return r, true
		}
		r = reflect.MakeSlice(t, len(s), len(s))
		for i := range s {
			e, ok := toNative(in, s[i], t.Elem())
			if !ok {
				return r, false
			}
			r.Index(i).Set(e)
		}
	default:
		return r, false
	}
	return r, true
}

func fromNative(r reflect.Value) (Value, bool) {
	switch r.Kind() {
	case reflect.String:
		return r.String(), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return uint64(r.Int()) & mask(Sort(r.Type().Bits())), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return r.Uint(), true
	case reflect.Float64, reflect.Float32:
		return r.Float(), true
	case reflect.Bool:
		return r.Bool(), true
	case reflect.Slice:
		if r.IsNil() {
			return Slice(nil), true
		}
		s := make(Slice, r.Len())
		for i := range s {
			v, ok := fromNative(r.Index(i))
			if !ok {
				return nil, false
			}
			s[i] = v
		}
		return s, true
	case reflect.Interface:
		if r.IsNil() {
			return Iface{}, true
		}
	}
	return nil, false
}

func (in *Interp) newErr(msg string) Iface {
	v := new(Value)
	*v = Struct{msg}
	return Iface{in.p.errorsStr, v}
}

func cstr(in *Interp, v Value) string {
	// The paths fork on each value of the symbolic bytes
	s, ok := in.concreteStr(v).(string)
	if !ok {
		in.unsupported("string from %T", v)
	}
	return s
}

func cint(in *Interp, v Value) int {
	switch x := v.(type) {
	case uint64:
		return int(int64(x))
	case *Term:
		return int(sx(in.concretize(x), x.sort))
	}
	in.unsupported("int from %T", v)
	return 0
}

func boolInt(b bool) uint64 { return b2u(b) }

func (in *Interp) newVar(kind string, s Sort) *Term {
	in.nvar++
	v := in.ts.Var(fmt.Sprintf("%s%d_%d", kind, in.nvar, s), s)
	return v
}

func (in *Interp) intRange(lo, hi int64) Value {
	if lo > hi {
		panic(&abort{abAssume, ""})
	}
	if lo == hi {
		in.nd = append(in.nd, nondet{Kind: "i", c: uint64(lo)})
		return uint64(lo)
	}
	ts := in.ts
	if n := uint64(hi - lo); n < 256 && hi-lo > 0 {
		v := in.newVar("r", 8)
		t := ts.Op2(oAdd, 64, ts.Op1(oZext, 64, v, 0), ts.C(64, uint64(lo)))
		in.nd = append(in.nd, nondet{Kind: "i", t: t})
		if n < 255 {
			in.assume(ts.Op2(oUle, sBool, v, ts.C(8, n)))
		}
		return t
	}
	if lo != math.MinInt64 || hi != math.MaxInt64 {
		w := 1
		for w < 64 && (lo < -1<<uint(w-1) || hi > 1<<uint(w-1)-1) {
			w++
		}
		if w < 60 {
			v := in.newVar("i", Sort(w))
			t := ts.Op1(oSext, 64, v, 0)
			in.nd = append(in.nd, nondet{Kind: "i", t: t})
			if lo != -1<<uint(w-1) || hi != 1<<uint(w-1)-1 {
				in.assume(ts.And(ts.Op2(oSle, sBool, ts.C(v.sort, uint64(lo)&mask(v.sort)), v), ts.Op2(oSle, sBool, v, ts.C(v.sort, uint64(hi)&mask(v.sort)))))
			}
			return t
		}
	}
	v := in.newVar("i", 64)
	in.nd = append(in.nd, nondet{Kind: "i", t: v})
	if lo != math.MinInt64 || hi != math.MaxInt64 {
		in.assume(ts.And(ts.Op2(oSle, sBool, ts.C(64, uint64(lo)), v), ts.Op2(oSle, sBool, v, ts.C(64, uint64(hi)))))
	}
	return v
}

func (in *Interp) byteIn(al string) Value {
	if len(al) == 1 {
		in.nd = append(in.nd, nondet{Kind: "b", c: uint64(al[0])})
		return uint64(al[0])
	}
	v := in.newVar("b", 8)
	in.nd = append(in.nd, nondet{Kind: "b", t: v})
	if al == "" {
		return v
	}
	var tab [256]bool
	for i := 0; i < len(al); i++ {
		tab[al[i]] = true
	}
	c := in.ts.False
	for i := 0; i < 256; {
		if !tab[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && tab[j+1] {
			j++
		}
		var k *Term
		if i == j {
			k = in.ts.Eq(v, in.ts.C(8, uint64(i)))
		} else {
			k = in.ts.And(in.ts.Op2(oUle, sBool, in.ts.C(8, uint64(i)), v), in.ts.Op2(oUle, sBool, v, in.ts.C(8, uint64(j))))
		}
		c = in.ts.Or(c, k)
		i = j + 1
	}
	in.assume(c)
	return v
}

func (in *Interp) ndStr(n int, al string) Value {
	b := make([]Value, n)
	for i := range b {
		b[i] = in.byteIn(al)
	}
	return mkStr(b)
}

func init() {
	rt := func(n string, f intrinsic) { reg(rtPath+"."+n, f) }
	rt("Bool", func(in *Interp, fr *frame, a []Value) Value {
		v := in.newVar("r", 8)
		t := in.ts.Eq(v, in.ts.C(8, 1))
		in.nd = append(in.nd, nondet{Kind: "t", t: t})
		in.assume(in.ts.Op2(oUle, sBool, v, in.ts.C(8, 1)))
		return t
	})
	rt("Int", func(in *Interp, fr *frame, a []Value) Value { return in.intRange(math.MinInt64, math.MaxInt64) })
	rt("Int64", func(in *Interp, fr *frame, a []Value) Value { return in.intRange(math.MinInt64, math.MaxInt64) })
	rt("Uint64", func(in *Interp, fr *frame, a []Value) Value { return in.intRange(math.MinInt64, math.MaxInt64) })
	rt("IntRange", func(in *Interp, fr *frame, a []Value) Value {
		return in.intRange(int64(a[0].(uint64)), int64(a[1].(uint64)))
	})
	rt("Byte", func(in *Interp, fr *frame, a []Value) Value { return in.byteIn("") })
	rt("ByteIn", func(in *Interp, fr *frame, a []Value) Value { return in.byteIn(a[0].(string)) })
	rt("Choose", func(in *Interp, fr *frame, a []Value) Value {
		c := in.choose(cint(in, a[0]))
		in.nd = append(in.nd, nondet{Kind: "c", c: uint64(c)})
		return uint64(c)
	})
	rt("Str", func(in *Interp, fr *frame, a []Value) Value {
		n := in.choose(cint(in, a[0]) + 1)
		in.nd = append(in.nd, nondet{Kind: "c", c: uint64(n)})
		return in.ndStr(n, a[1].(string))
	})
	rt("StrN", func(in *Interp, fr *frame, a []Value) Value { return in.ndStr(cint(in, a[0]), a[1].(string)) })
	rt("Float64", func(in *Interp, fr *frame, a []Value) Value {
		v := in.newVar("f", 64)
		in.nd = append(in.nd, nondet{Kind: "f", t: v})
		return in.ts.Op1(oFFromBits, sF64, v, 0)
	})
	rt("Assume", func(in *Interp, fr *frame, a []Value) Value { in.assume(a[0]); return nil })
	rt("Assert", func(in *Interp, fr *frame, a []Value) Value { in.assert(a[0], in.labelOf(a[1])); return nil })
	rt("Fail", func(in *Interp, fr *frame, a []Value) Value { in.assert(false, in.labelOf(a[0])); return nil })
	rt("Reach", func(in *Interp, fr *frame, a []Value) Value { in.assert(true, in.labelOf(a[0])); return nil })
	rt("Observe", func(in *Interp, fr *frame, a []Value) Value {
		v := a[1].(Iface)
		in.obs = append(in.obs, obsRec{cstr(in, a[0]), Iface{v.t, in.snapshot(v.v, 0)}})
		return nil
	})
	rt("Tier", func(in *Interp, fr *frame, a []Value) Value { return uint64(in.cfg.tier) })
	rt("MapOrder", func(in *Interp, fr *frame, a []Value) Value { in.mapOrder = cint(in, a[0]); return nil })
	rt("Terminates", func(in *Interp, fr *frame, a []Value) Value {
		in.terminate = true
		if n := cint(in, a[0]); n > 0 {
			in.maxStep = int64(n)
		}
		return nil
	})
	rt("Symbolic", func(in *Interp, fr *frame, a []Value) Value { return true })
	rt("And", func(in *Interp, fr *frame, a []Value) Value { return in.and(a[0], a[1]) })
	rt("Or", func(in *Interp, fr *frame, a []Value) Value {
		return in.norm(in.ts.Or(in.term(a[0], sBool), in.term(a[1], sBool)))
	})
	rt("Implies", func(in *Interp, fr *frame, a []Value) Value {
		return in.norm(in.ts.Or(in.ts.Not(in.term(a[0], sBool)), in.term(a[1], sBool)))
	})
	rt("IteInt", func(in *Interp, fr *frame, a []Value) Value {
		return in.ite(a[0], a[1], a[2], tinfo{cInt, 64, true})
	})
	rt("Printf", func(in *Interp, fr *frame, a []Value) Value { return nil })
	rt("Register", func(in *Interp, fr *frame, a []Value) Value { return nil })
	rt("Concretize", func(in *Interp, fr *frame, a []Value) Value { return uint64(cint(in, a[0])) })
	rt("ConcreteStr", func(in *Interp, fr *frame, a []Value) Value { return in.concreteStr(a[0]) })
	rt("Catch", func(in *Interp, fr *frame, a []Value) (res Value) {
		depth, cf := in.depth, in.curFr
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				in.depth, in.curFr = depth, cf
				_ = tp
				res = true
			}
		}()
		in.callValue(fr, a[0], nil, nil)
		return false
	})
	rt("PanicText", func(in *Interp, fr *frame, a []Value) Value { return in.force(a[0]) })

	// ---- low level ----
	noop := func(in *Interp, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.Gosched", "(*strings.Builder).copyCheck", "(*internal/godebug.Setting).IncNonDefault",
		"runtime.SetFinalizer", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*bytes.Buffer).tryGrowByReslice.dummy",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable"} {
		reg(n, noop)
	}
	for _, n := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+n+").Lock", func(in *Interp, fr *frame, a []Value) Value { in.lock(fr, a[0].(Ptr), false); return nil })
		reg("(*sync."+n+").Unlock", func(in *Interp, fr *frame, a []Value) Value { in.unlock(a[0].(Ptr), false); return nil })
		reg("(*sync."+n+").TryLock", func(in *Interp, fr *frame, a []Value) Value {
			in.schedPoint(fr)
			if l := in.lockOf(a[0].(Ptr)); l.owner != 0 || len(l.readers) > 0 {
				return false
			}
			in.lock(nil, a[0].(Ptr), false)
			return true
		})
	}
	reg("(*sync.RWMutex).RLock", func(in *Interp, fr *frame, a []Value) Value { in.lock(fr, a[0].(Ptr), true); return nil })
	reg("(*sync.RWMutex).RUnlock", func(in *Interp, fr *frame, a []Value) Value { in.unlock(a[0].(Ptr), true); return nil })
	rt("Parallel", func(in *Interp, fr *frame, a []Value) Value { in.parallel(fr, a[0].(Slice)); return nil })
	rt("Preemptions", func(in *Interp, fr *frame, a []Value) Value { in.preemptions = cint(in, a[0]); return nil })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, fr *frame, a []Value) Value { return "" })
	reg("(*internal/godebug.Setting).Name", func(in *Interp, fr *frame, a []Value) Value { return "" })
	reg("internal/godebug.New", func(in *Interp, fr *frame, a []Value) Value {
		v := new(Value)
		*v = zero(in.p.byPath["internal/godebug"].Type("Setting").Type())
		return v
	})
	// a pool of the repository gives back the last value put (as the runtime does when nothing intervenes); those of the libraries are empty
	poolMap := types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil))
	reg("(*sync.Pool).Put", func(in *Interp, fr *frame, a []Value) Value {
		if fr == nil || !fr.code.repo || in.noUndo > 0 || a[1].(Iface).t == nil {
			return nil
		}
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		m := in.syncMap(a[0].(Ptr))
		in.mapSet(m, fmt.Sprintf("%06d", len(m.ents)), a[1], poolMap)
		return nil
	})
	reg("(*sync.Pool).Get", func(in *Interp, fr *frame, a []Value) Value {
		if fr != nil && fr.code.repo && in.noUndo == 0 {
			in.schedPoint(fr)
			in.syncOp('o', a[0])
			if m := in.syncMap(a[0].(Ptr)); len(m.ents) > 0 {
				k := fmt.Sprintf("%06d", len(m.ents)-1)
				v, _ := in.mapGet(m, k, poolMap)
				in.mapDelete(m, k, poolMap)
				return v
			}
		}
		p := (*a[0].(Ptr)).(Struct)
		st := in.p.byPath["sync"].Type("Pool").Type().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				c, _ := p[i].(*Closure)
				if c == nil {
					return Iface{}
				}
				return in.callValue(fr, c, nil, nil)
			}
		}
		return Iface{}
	})
	reg("(*sync.Once).Do", func(in *Interp, fr *frame, a []Value) Value { in.once(fr, a[0].(Ptr), a[1]); return nil })
	anyMap := types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))
	reg("(*sync.Map).Load", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		v, ok := in.mapGet(in.syncMap(a[0].(Ptr)), a[1], anyMap)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	})
	reg("(*sync.Map).Store", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		in.mapSet(in.syncMap(a[0].(Ptr)), a[1], a[2], anyMap)
		return nil
	})
	reg("(*sync.Map).LoadOrStore", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		m := in.syncMap(a[0].(Ptr))
		v, ok := in.mapGet(m, a[1], anyMap)
		if ok {
			return Tuple{v, true}
		}
		in.mapSet(m, a[1], a[2], anyMap)
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).Delete", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		in.mapDelete(in.syncMap(a[0].(Ptr)), a[1], anyMap)
		return nil
	})
	reg("(*sync.Map).LoadAndDelete", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		m := in.syncMap(a[0].(Ptr))
		v, ok := in.mapGet(m, a[1], anyMap)
		if !ok {
			return Tuple{Iface{}, false}
		}
		in.mapDelete(m, a[1], anyMap)
		return Tuple{v, true}
	})
	reg("(*sync.Map).Swap", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		m := in.syncMap(a[0].(Ptr))
		v, ok := in.mapGet(m, a[1], anyMap)
		in.mapSet(m, a[1], a[2], anyMap)
		if !ok {
			return Tuple{Iface{}, false}
		}
		return Tuple{v, true}
	})
	reg("(*sync.Map).Clear", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		m := in.syncMap(a[0].(Ptr))
		for len(m.ents) > 0 {
			in.mapDelete(m, m.ents[0].k, anyMap)
		}
		return nil
	})
	reg("(*sync.Map).Range", func(in *Interp, fr *frame, a []Value) Value {
		in.schedPoint(fr)
		in.syncOp('o', a[0])
		for _, e := range append([]*mapEntry{}, in.syncMap(a[0].(Ptr)).ents...) {
			if !in.truth(in.callValue(fr, a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return nil
	})
	// atomics
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+t, func(in *Interp, fr *frame, a []Value) Value { in.atomicOp(fr, a[0].(Ptr)); return in.load(a[0].(Ptr)) })
		reg("sync/atomic.Store"+t, func(in *Interp, fr *frame, a []Value) Value {
			in.atomicOp(fr, a[0].(Ptr))
			in.store(a[0].(Ptr), a[1])
			return nil
		})
		w := Sort(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		reg("sync/atomic.Add"+t, func(in *Interp, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicOp(fr, p)
			in.store(p, ((*p).(uint64)+a[1].(uint64))&mask(w))
			return *p
		})
		reg("sync/atomic.Swap"+t, func(in *Interp, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicOp(fr, p)
			o := *p
			in.store(p, a[1])
			return o
		})
		reg("sync/atomic.CompareAndSwap"+t, func(in *Interp, fr *frame, a []Value) Value {
			p := a[0].(Ptr)
			in.atomicOp(fr, p)
			if in.truth(in.eq(nil, *p, a[1])) {
				in.store(p, a[2])
				return true
			}
			return false
		})
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, a []Value) Value {
		in.atomicOp(fr, &(*a[0].(Ptr)).(Struct)[0])
		return (*a[0].(Ptr)).(Struct)[0]
	})
	reg("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, a []Value) Value {
		s := (*a[0].(Ptr)).(Struct)
		in.atomicOp(fr, &s[0])
		in.store(&s[0], a[1])
		return nil
	})
	atomicPtr := func(n string, f func(in *Interp, s Struct, a []Value) Value) {
		reg("(*sync/atomic.Pointer[T])."+n, func(in *Interp, fr *frame, a []Value) Value {
			st := (*a[0].(Ptr)).(Struct)
			in.atomicOp(fr, &st[len(st)-1])
			return f(in, st, a)
		})
	}
	ptrField := func(s Struct) *Value { return &s[len(s)-1] }
	unwrap := func(v Value) Value {
		if u, ok := v.(UPtr); ok {
			if u.v == nil {
				return Ptr(nil)
			}
			return u.v
		}
		return v
	}
	atomicPtr("Load", func(in *Interp, s Struct, a []Value) Value { return unwrap(*ptrField(s)) })
	atomicPtr("Store", func(in *Interp, s Struct, a []Value) Value { in.store(ptrField(s), UPtr{a[1]}); return nil })
	atomicPtr("Swap", func(in *Interp, s Struct, a []Value) Value {
		o := unwrap(*ptrField(s))
		in.store(ptrField(s), UPtr{a[1]})
		return o
	})
	atomicPtr("CompareAndSwap", func(in *Interp, s Struct, a []Value) Value {
		if unwrap(*ptrField(s)) == a[1] {
			in.store(ptrField(s), UPtr{a[2]})
			return true
		}
		return false
	})

	// ---- errors / runtime ----
	reg("(runtime.errorString).Error", func(in *Interp, fr *frame, a []Value) Value { return in.sconcat("runtime error: ", a[0]) })
	reg("runtime.Callers", func(in *Interp, fr *frame, a []Value) Value { return uint64(0) })
	reg("runtime.Stack", func(in *Interp, fr *frame, a []Value) Value { return uint64(0) })
	reg("runtime/debug.Stack", func(in *Interp, fr *frame, a []Value) Value { return Slice{} })
	reg("runtime.Caller", func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(0), "", uint64(0), false} })
	reg("runtime.NumCPU", func(in *Interp, fr *frame, a []Value) Value { return uint64(1) })
	reg("runtime.GOMAXPROCS", func(in *Interp, fr *frame, a []Value) Value { return uint64(1) })

	// ---- math ----
	fun1 := func(name string, f func(float64) float64, op Op, mode uint64) {
		if op == oConst {
			op, mode = oUF, newUF(name, f, nil)
		}
		reg("math."+name, func(in *Interp, fr *frame, a []Value) Value {
			switch x := a[0].(type) {
			case float64:
				return f(x)
			case *Term:
				return in.norm(in.ts.Op1(op, sF64, x, mode))
			}
			in.unsupported("math.%s of symbolic", name)
			return nil
		})
	}
	fun1("Floor", math.Floor, oFRound, 3)
	fun1("Ceil", math.Ceil, oFRound, 2)
	fun1("Trunc", math.Trunc, oFRound, 4)
	fun1("Round", math.Round, oFRound, 1)
	fun1("RoundToEven", math.RoundToEven, oFRound, 0)
	fun1("Abs", math.Abs, oFAbs, 0)
	fun1("Sqrt", math.Sqrt, oFSqrt, 0)
	for n, f := range map[string]func(float64) float64{"floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "Exp": math.Exp, "Exp2": math.Exp2, "Expm1": math.Expm1, "Log": math.Log, "Log10": math.Log10, "Log2": math.Log2,
		"Log1p": math.Log1p, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Asin": math.Asin, "Acos": math.Acos, "Atan": math.Atan,
		"Sinh": math.Sinh, "Cosh": math.Cosh, "Tanh": math.Tanh, "Asinh": math.Asinh, "Acosh": math.Acosh, "Atanh": math.Atanh, "Cbrt": math.Cbrt,
		"Gamma": math.Gamma, "Erf": math.Erf, "Erfc": math.Erfc, "J0": math.J0, "J1": math.J1, "Y0": math.Y0, "Y1": math.Y1} {
		fun1(n, f, oConst, 0)
	}
	fun2 := func(name string, f func(a, b float64) float64) {
		uf := -1
		if name == "Hypot" || name == "Atan2" || name == "Remainder" || name == "Pow" || name == "Mod" {
			uf = int(newUF(name, nil, f))
		}
		reg("math."+name, func(in *Interp, fr *frame, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return f(x, y)
			}
			if name == "Mod" && !ok1 && ok2 && y == math.Trunc(y) && y != 0 && math.Abs(y) < 1<<52 {
				if t := a[0].(*Term); t.op == oSToF {
					ts, n := in.ts, in.ts.asInt64(t)
					if l, h := interval(n, 0); l > -exact53 && h < exact53 {
						r := ts.Op2(oSrem, 64, n, ts.C(64, uint64(int64(y))))
						z := ts.C(64, 0)
						return in.norm(ts.Ite(ts.And(ts.Eq(r, z), ts.Op2(oSlt, sBool, n, z)), ts.C(sF64, 1<<63), ts.Op1(oSToF, sF64, r, 0)))
					}
				}
			}
			if uf >= 0 {
				return in.norm(in.ts.mk(oUF, sF64, in.term(a[0], sF64), in.term(a[1], sF64), nil, uint64(uf), ""))
			}
			return notHandled
		})
	}
	for n, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Hypot": math.Hypot, "Atan2": math.Atan2, "Dim": math.Dim,
		"Remainder": math.Remainder, "Nextafter": math.Nextafter, "Copysign": math.Copysign} {
		fun2(n, f)
	}
	pair := func(name string, f func(float64) (float64, float64), second Sort) {
		u1 := newUF(name+"1", func(x float64) float64 { a, _ := f(x); return a }, nil)
		u2 := newUF(name+"2", func(x float64) float64 { _, b := f(x); return b }, nil)
		reg("math."+name, func(in *Interp, fr *frame, a []Value) Value {
			if x, ok := a[0].(float64); ok {
				r1, r2 := f(x)
				if second != sF64 {
					return Tuple{r1, uint64(int64(r2))}
				}
				return Tuple{r1, r2}
			}
			x := in.term(a[0], sF64)
			r1, r2 := in.norm(in.ts.Op1(oUF, sF64, x, u1)), in.norm(in.ts.Op1(oUF, sF64, x, u2))
			if second != sF64 {
				r2 = in.norm(in.ts.Ite(in.ts.Op2(oFLt, sBool, in.term(r2, sF64), in.ts.C(sF64, 0)), in.ts.C(64, ^uint64(0)), in.ts.C(64, 1)))
			}
			return Tuple{r1, r2}
		})
	}
	pair("Sincos", math.Sincos, sF64)
	pair("Lgamma", func(x float64) (float64, float64) { v, s := math.Lgamma(x); return v, float64(s) }, 64)
	bessel := func(name string, f func(int, float64) float64) {
		u := newUF(name, nil, func(n, x float64) float64 { return f(int(n), x) })
		reg("math."+name, func(in *Interp, fr *frame, a []Value) Value {
			n := in.norm(in.ts.Op1(oSToF, sF64, in.term(a[0], 64), 0))
			x, ok1 := n.(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				return f(int(x), y)
			}
			return in.norm(in.ts.mk(oUF, sF64, in.term(n, sF64), in.term(a[1], sF64), nil, u, ""))
		})
	}
	bessel("Jn", math.Jn)
	bessel("Yn", math.Yn)
	ldexp := newUF("Ldexp", nil, func(x, n float64) float64 { return math.Ldexp(x, int(n)) })
	reg("math.Ldexp", func(in *Interp, fr *frame, a []Value) Value {
		n := in.norm(in.ts.Op1(oSToF, sF64, in.term(a[1], 64), 0))
		x, ok1 := a[0].(float64)
		y, ok2 := n.(float64)
		if ok1 && ok2 {
			return math.Ldexp(x, int(y))
		}
		if ok2 && y >= -1022 && y <= 1023 {
			return in.norm(in.ts.Op2(oFMul, sF64, in.term(a[0], sF64), in.ts.C(sF64, math.Float64bits(math.Ldexp(1, int(y))))))
		}
		return in.norm(in.ts.mk(oUF, sF64, in.term(a[0], sF64), in.term(n, sF64), nil, ldexp, ""))
	})
	minmax := func(name string, isMin bool) {
		reg("math."+name, func(in *Interp, fr *frame, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				if isMin {
					return math.Min(x, y)
				}
				return math.Max(x, y)
			}
			p, q, ts := in.term(a[0], sF64), in.term(a[1], sF64), in.ts
			// same value: they differ only when both are zeros of opposite signs; a sum p+q of such zeros is +0
			var same *Term = p
			if !(p.op == oSToF || q.op == oSToF || p.isC() && p.val<<1 != 0 || q.isC() && q.val<<1 != 0) {
				neg := func(t *Term) *Term {
					return ts.Op2(oSlt, sBool, ts.Op1(oFToBits, 64, t, 0), ts.C(64, 0))
				}
				if isMin {
					same = ts.Ite(neg(p), p, q)
				} else {
					same = ts.Ite(neg(p), q, p)
				}
			} else if p.op == oSToF {
				if !isMin || q.isC() && q.val == 0 {
					same = p
				} else if q.op != oSToF {
					same = q
				}
			} else if isMin && q.isC() && q.val<<1 == 0 {
				same = q
			}
			first, second := ts.Op2(oFLt, sBool, p, q), ts.Op2(oFLt, sBool, q, p)
			if !isMin {
				first, second = second, first
			}
			r := ts.Ite(first, p, ts.Ite(second, q, same))
			inf := math.Inf(1)
			if isMin {
				inf = math.Inf(-1)
			}
			nan := ts.Or(ts.Op1(oFIsNaN, sBool, p, 0), ts.Op1(oFIsNaN, sBool, q, 0))
			i := ts.C(sF64, fb(inf, sF64))
			isInf := ts.Or(ts.Op2(oFEq, sBool, p, i), ts.Op2(oFEq, sBool, q, i))
			return in.norm(ts.Ite(isInf, i, ts.Ite(nan, ts.C(sF64, fb(math.NaN(), sF64)), r)))
		})
	}
	minmax("Min", true)
	minmax("Max", false)
	reg("math.IsNaN", func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.IsNaN(f)
		}
		return in.norm(in.ts.Op1(oFIsNaN, sBool, a[0].(*Term), 0))
	})
	reg("math.Float64bits", func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return math.Float64bits(f)
		}
		return in.norm(in.ts.Op1(oFToBits, 64, a[0].(*Term), 0))
	})
	reg("math.Float64frombits", func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(uint64); ok {
			return math.Float64frombits(f)
		}
		return in.norm(in.ts.Op1(oFFromBits, sF64, a[0].(*Term), 0))
	})
	reg("math.Float32bits", func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(float64); ok {
			return uint64(math.Float32bits(float32(f)))
		}
		return in.norm(in.ts.Op1(oFToBits, 32, a[0].(*Term), 0))
	})
	reg("math.Float32frombits", func(in *Interp, fr *frame, a []Value) Value {
		if f, ok := a[0].(uint64); ok {
			return float64(math.Float32frombits(uint32(f)))
		}
		return in.norm(in.ts.Op1(oFFromBits, sF32, a[0].(*Term), 0))
	})
	regNative("math/bits.LeadingZeros64", func(x uint64) int { return reflectBitsLZ(x) })
	for n, f := range map[string]interface{}{
		"strings.Repeat": strings.Repeat, "strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split,
		"strings.SplitN": strings.SplitN, "strings.Join": strings.Join, "strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim,
		"strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight, "strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix,
		"strings.Fields": strings.Fields, "strings.Title": strings.Title, "strings.EqualFold": strings.EqualFold, "strings.ContainsAny": strings.ContainsAny,
		"strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex, "strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix,
		"strings.ContainsRune": strings.ContainsRune, "strings.IndexRune": strings.IndexRune, "strings.SplitAfter": strings.SplitAfter,
		"strings.ToTitle": strings.ToTitle, "strings.SplitAfterN": strings.SplitAfterN,
		"strconv.Quote": strconv.Quote, "strconv.CanBackquote": strconv.CanBackquote, "strconv.FormatFloat": strconv.FormatFloat, "strconv.AppendInt": strconv.AppendInt,
		"strconv.AppendFloat": strconv.AppendFloat, "strconv.AppendQuote": strconv.AppendQuote, "strconv.Unquote": strconv.Unquote,
		"strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool, "strconv.ParseFloat": strconv.ParseFloat, "strconv.Atoi": strconv.Atoi,
		"strconv.AppendQuoteRune": strconv.AppendQuoteRune, "strconv.AppendUint": strconv.AppendUint, "strconv.IsPrint": strconv.IsPrint,
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter,
		"unicode.IsDigit": unicode.IsDigit, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.ToUpper": unicode.ToUpper,
		"unicode.ToLower": unicode.ToLower, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsSymbol": unicode.IsSymbol, "unicode.ToTitle": unicode.ToTitle,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
		"unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeRune": utf8.DecodeRune, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
		"unicode/utf8.RuneCount": utf8.RuneCount, "unicode/utf8.Valid": utf8.Valid, "unicode/utf8.AppendRune": utf8.AppendRune,
		"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Ext": filepath.Ext,
		"path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs, "path.Join": path.Join, "path.Base": path.Base, "path.Clean": path.Clean, "path.Dir": path.Dir, "path.Ext": path.Ext,
		"path/filepath.Match": filepath.Match, "path.Match": path.Match, "path/filepath.Split": filepath.Split, "path/filepath.Rel": filepath.Rel,
		"bytes.Equal": bytes.Equal, "bytes.Index": bytes.Index, "bytes.IndexByte": bytes.IndexByte, "bytes.TrimSpace": bytes.TrimSpace, "bytes.HasPrefix": bytes.HasPrefix,
		"math.Modf": math.Modf, "math.Frexp": math.Frexp, "math.Inf": math.Inf, "math.NaN": math.NaN, "math.IsInf.x": math.IsInf,
		"math.Signbit.x": math.Signbit, "math.Ilogb": math.Ilogb,
		"math/bits.Mul64": mul64, "math/bits.Add64": add64,
	} {
		if !strings.HasSuffix(n, ".x") {
			regNative(n, f)
		}
	}
	reg("math.Inf", func(in *Interp, fr *frame, a []Value) Value { return math.Inf(int(sx(a[0].(uint64), 64))) })
	reg("math.NaN", func(in *Interp, fr *frame, a []Value) Value { return math.NaN() })

	symFirst := func(name string, f intrinsic) {
		old := intrinsics[name]
		reg(name, func(in *Interp, fr *frame, a []Value) Value {
			if old != nil {
				if r := old(in, fr, a); r != notHandled {
					return r
				}
			}
			return f(in, fr, a)
		})
	}
	symFirst("strconv.FormatFloat", func(in *Interp, fr *frame, a []Value) Value {
		if t, ok := a[0].(*Term); ok && t.sort == sF64 {
			if x := in.ts.intOf(t); x != nil && a[2] == Value(^uint64(0)) && a[1] == Value(uint64('f')) {
				if l, h := interval(x, 0); l >= -exact53 && h <= exact53 {
					return &LStr{t: x, signed: true}
				}
			}
		}
		return notHandled
	})
	// the text of an integer has digits and a sign only
	notInDecimal := func(f intrinsic) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			l, ok := a[0].(*LStr)
			sep, ok2 := a[1].(string)
			if !ok || !ok2 || l.float || !strings.ContainsFunc(sep, func(r rune) bool { return r != '-' && (r < '0' || r > '9') }) {
				return notHandled
			}
			return f(in, fr, a)
		}
	}
	symFirst("strings.SplitN", notInDecimal(func(in *Interp, fr *frame, a []Value) Value {
		if n, ok := a[2].(uint64); !ok || int64(n) < 1 && int64(n) != -1 {
			return notHandled
		}
		return Slice{a[0]}
	}))
	symFirst("strings.Split", notInDecimal(func(in *Interp, fr *frame, a []Value) Value { return Slice{a[0]} }))
	symFirst("strings.Contains", notInDecimal(func(in *Interp, fr *frame, a []Value) Value { return false }))
	symFirst("strings.Index", notInDecimal(func(in *Interp, fr *frame, a []Value) Value { return ^uint64(0) }))
	// symbolic ASCII versions
	asciiMap := func(lo, hi byte, delta int) intrinsic {
		return func(in *Interp, fr *frame, a []Value) Value {
			s := in.sbytes(a[0])
			r := make([]Value, len(s))
			for i, c := range s {
				switch x := c.(type) {
				case uint64:
					if x >= 0x80 {
						return notHandled
					}
					if x >= uint64(lo) && x <= uint64(hi) {
						x = uint64(int(x) + delta)
					}
					r[i] = x
				case *Term:
					if !in.branch(in.ts.Op2(oUlt, sBool, x, in.ts.C(8, 0x80))) {
						return notHandled
					}
					is := in.ts.And(in.ts.Op2(oUle, sBool, in.ts.C(8, uint64(lo)), x), in.ts.Op2(oUle, sBool, x, in.ts.C(8, uint64(hi))))
					r[i] = in.norm(in.ts.Ite(is, in.ts.Op2(oAdd, 8, x, in.ts.C(8, uint64(delta)&255)), x))
				}
			}
			return mkStr(r)
		}
	}
	regNative("strings.ToUpper", strings.ToUpper)
	regNative("strings.ToLower", strings.ToLower)
	symFirst("strings.ToUpper", asciiMap('a', 'z', -32))
	symFirst("strings.ToLower", asciiMap('A', 'Z', 32))
	// unicode classes on symbolic ASCII runes
	uni := func(name string, f func(rune) bool) {
		symFirst("unicode."+name, func(in *Interp, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			if !in.branch(in.ts.Op2(oUlt, sBool, t, in.ts.C(t.sort, 0x80))) {
				return notHandled
			}
			b := in.ts.Op1(oExtract, 8, t, 0)
			vals := make([]Value, 128)
			for i := range vals {
				vals[i] = f(rune(i))
			}
			v, _ := in.iteTable(b, vals, tinfo{cBool, sBool, false})
			return v
		})
	}
	uni("IsSpace", unicode.IsSpace)
	uni("IsUpper", unicode.IsUpper)
	uni("IsLower", unicode.IsLower)
	uni("IsLetter", unicode.IsLetter)
	uni("IsDigit", unicode.IsDigit)
	uni("IsNumber", unicode.IsNumber)
	uni("IsPunct", unicode.IsPunct)
	uni("IsPrint", unicode.IsPrint)
	uni("IsControl", unicode.IsControl)
	uni("IsSymbol", unicode.IsSymbol)
	uniMap := func(name string, f func(rune) rune) {
		symFirst("unicode."+name, func(in *Interp, fr *frame, a []Value) Value {
			t := a[0].(*Term)
			if !in.branch(in.ts.Op2(oUlt, sBool, t, in.ts.C(t.sort, 0x80))) {
				return notHandled
			}
			r := t
			d := func(lo, hi rune) {
				delta := f(lo) - lo
				is := in.ts.And(in.ts.Op2(oUle, sBool, in.ts.C(32, uint64(lo)), t), in.ts.Op2(oUle, sBool, t, in.ts.C(32, uint64(hi))))
				r = in.ts.Ite(is, in.ts.Op2(oAdd, 32, t, in.ts.C(32, uint64(uint32(delta)))), r)
			}
			if f('a') != 'a' {
				d('a', 'z')
			} else {
				d('A', 'Z')
			}
			return in.norm(r)
		})
	}
	uniMap("ToUpper", unicode.ToUpper)
	uniMap("ToLower", unicode.ToLower)
	uniMap("ToTitle", unicode.ToTitle)

	// substring search
	index := func(in *Interp, s, sub Value) Value {
		s, sub = in.force(s), in.force(sub)
		if x, ok := s.(string); ok {
			if y, ok := sub.(string); ok {
				return uint64(strings.Index(x, y))
			}
		}
		n, m := in.slen(s), in.slen(sub)
		for i := 0; i+m <= n; i++ {
			if in.truth(in.streq(in.ssub(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	lastIndex := func(in *Interp, s, sub Value) Value {
		n, m := in.slen(s), in.slen(sub)
		for i := n - m; i >= 0; i-- {
			if in.truth(in.streq(in.ssub(s, i, i+m), sub)) {
				return uint64(i)
			}
		}
		return ^uint64(0)
	}
	bstr := func(v Value) Value {
		if s, ok := v.(Slice); ok {
			return mkStr([]Value(s))
		}
		return v
	}
	one := func(v Value) Value { return mkStr([]Value{v}) }
	reg("strings.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], a[1]) })
	reg("strings.Contains", func(in *Interp, fr *frame, a []Value) Value {
		return index(in, a[0], a[1]) != Value(^uint64(0))
	})
	symFirst("strings.LastIndex", func(in *Interp, fr *frame, a []Value) Value { return lastIndex(in, in.force(a[0]), in.force(a[1])) })
	reg("strings.IndexByte", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], one(a[1])) })
	reg("strings.LastIndexByte", func(in *Interp, fr *frame, a []Value) Value { return lastIndex(in, in.force(a[0]), one(a[1])) })
	reg("internal/bytealg.IndexByteString", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], one(a[1])) })
	reg("internal/bytealg.IndexByte", func(in *Interp, fr *frame, a []Value) Value { return index(in, bstr(a[0]), one(a[1])) })
	reg("internal/bytealg.LastIndexByteString", func(in *Interp, fr *frame, a []Value) Value { return lastIndex(in, in.force(a[0]), one(a[1])) })
	reg("internal/bytealg.LastIndexByte", func(in *Interp, fr *frame, a []Value) Value { return lastIndex(in, bstr(a[0]), one(a[1])) })
	reg("internal/bytealg.IndexString", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], a[1]) })
	reg("internal/bytealg.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, bstr(a[0]), bstr(a[1])) })
	symFirst("bytes.IndexByte", func(in *Interp, fr *frame, a []Value) Value { return index(in, bstr(a[0]), one(a[1])) })
	symFirst("bytes.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, bstr(a[0]), bstr(a[1])) })
	symFirst("bytes.Equal", func(in *Interp, fr *frame, a []Value) Value { return in.streq(bstr(a[0]), bstr(a[1])) })
	reg("bytes.Compare", func(in *Interp, fr *frame, a []Value) Value { return in.strcmp(bstr(a[0]), bstr(a[1])) })
	reg("strings.Compare", func(in *Interp, fr *frame, a []Value) Value { return in.strcmp(a[0], a[1]) })
	reg("internal/bytealg.CompareString", func(in *Interp, fr *frame, a []Value) Value { return in.strcmp(a[0], a[1]) })
	reg("internal/stringslite.Index", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], a[1]) })
	reg("internal/stringslite.IndexByte", func(in *Interp, fr *frame, a []Value) Value { return index(in, a[0], one(a[1])) })
	reg("internal/stringslite.Clone", func(in *Interp, fr *frame, a []Value) Value { return a[0] })
	reg("strings.Clone", func(in *Interp, fr *frame, a []Value) Value { return a[0] })
	count := func(in *Interp, s, sub Value) Value {
		s = in.force(s)
		n, m := in.slen(s), in.slen(sub)
		c := uint64(0)
		for i := 0; i+m <= n; {
			if in.truth(in.streq(in.ssub(s, i, i+m), sub)) {
				c++
				i += m
			} else {
				i++
			}
		}
		return c
	}
	reg("internal/bytealg.CountString", func(in *Interp, fr *frame, a []Value) Value { return count(in, a[0], one(a[1])) })
	reg("internal/bytealg.Count", func(in *Interp, fr *frame, a []Value) Value { return count(in, bstr(a[0]), one(a[1])) })
	symFirst("strings.HasPrefix", func(in *Interp, fr *frame, a []Value) Value {
		s, p := in.force(a[0]), in.force(a[1])
		if in.slen(s) < in.slen(p) {
			return false
		}
		return in.streq(in.ssub(s, 0, in.slen(p)), p)
	})
	symFirst("strings.HasSuffix", func(in *Interp, fr *frame, a []Value) Value {
		s, p := in.force(a[0]), in.force(a[1])
		if in.slen(s) < in.slen(p) {
			return false
		}
		return in.streq(in.ssub(s, in.slen(s)-in.slen(p), in.slen(s)), p)
	})
	reg("(*strings.Builder).String", func(in *Interp, fr *frame, a []Value) Value {
		b := (*a[0].(Ptr)).(Struct)
		s, _ := b[1].(Slice)
		return mkStr(append([]Value{}, s...))
	})
	reg("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, a []Value) Value {
		return makeSlice(types.Typ[types.Byte], cint(in, a[0]), cint(in, a[0]))
	})
	reg("bytes.growSlice", func(in *Interp, fr *frame, a []Value) Value {
		b := a[0].(Slice)
		n := cint(in, a[1])
		c := len(b) + n
		if c < 2*cap(b) {
			c = 2 * cap(b)
		}
		r := makeSlice(types.Typ[types.Byte], len(b), c)
		copy(r, b)
		return r
	})
	// strconv on symbolic integers
	lz := func(v Value, signed bool) Value {
		switch x := v.(type) {
		case uint64:
			if signed {
				return strconv.FormatInt(int64(x), 10)
			}
			return strconv.FormatUint(x, 10)
		case *Term:
			return &LStr{t: x, signed: signed}
		}
		return notHandled
	}
	reg("strconv.Itoa", func(in *Interp, fr *frame, a []Value) Value { return lz(a[0], true) })
	reg("strconv.FormatInt", func(in *Interp, fr *frame, a []Value) Value {
		if a[1] == Value(uint64(10)) {
			return lz(a[0], true)
		}
		if x, ok := a[0].(uint64); ok {
			return strconv.FormatInt(int64(x), cint(in, a[1]))
		}
		return notHandled
	})
	reg("strconv.FormatUint", func(in *Interp, fr *frame, a []Value) Value {
		if a[1] == Value(uint64(10)) {
			return lz(a[0], false)
		}
		if x, ok := a[0].(uint64); ok {
			return strconv.FormatUint(x, cint(in, a[1]))
		}
		return notHandled
	})
	parse := func(name string) {
		old := intrinsics["strconv."+name]
		reg("strconv."+name, func(in *Interp, fr *frame, a []Value) Value {
			if l, ok := a[0].(*LStr); ok {
				if r := in.parseLazy(name, l, a); r != nil {
					return r
				}
				a[0] = in.force(l)
			}
			return old(in, fr, a)
		})
	}
	for _, n := range []string{"Atoi", "ParseInt", "ParseUint", "ParseFloat", "ParseBool"} {
		parse(n)
	}
	// sorting helpers
	reg("internal/reflectlite.Swapper", func(in *Interp, fr *frame, a []Value) Value { return in.swapper(a[0]) })
	reg("reflect.Swapper", func(in *Interp, fr *frame, a []Value) Value { return in.swapper(a[0]) })
	// time
	reg("time.Now", func(in *Interp, fr *frame, a []Value) Value {
		return zero(in.p.byPath["time"].Type("Time").Type())
	})
	reg("time.Sleep", noop)
	reg("(time.Time).String", func(in *Interp, fr *frame, a []Value) Value { return "now" })
	reg("math/rand.Intn", func(in *Interp, fr *frame, a []Value) Value { return uint64(0) })
	reg("github.com/fatih/color.New", func(in *Interp, fr *frame, a []Value) Value {
		v := new(Value)
		*v = zero(in.p.byPath["github.com/fatih/color"].Type("Color").Type())
		return v
	})
	_ = big.NewInt
}

func mul64(x, y uint64) (uint64, uint64) {
	hi := new(big.Int).Mul(new(big.Int).SetUint64(x), new(big.Int).SetUint64(y))
	lo := new(big.Int).And(hi, new(big.Int).SetUint64(math.MaxUint64)).Uint64()
	return new(big.Int).Rsh(hi, 64).Uint64(), lo
}
func add64(x, y, c uint64) (uint64, uint64) {
	s := x + y + c
	return s, ((x & y) | ((x | y) &^ s)) >> 63
}

func reflectBitsLZ(x uint64) int {
	n := 0
	for i := 63; i >= 0 && x>>uint(i)&1 == 0; i-- {
		n++
	}
	return n
}

func (in *Interp) labelOf(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return in.evalStr(v)
}

func (in *Interp) strcmp(a, b Value) Value {
	if in.truth(in.streq(a, b)) {
		return uint64(0)
	}
	if in.truth(in.strless(a, b, false)) {
		return ^uint64(0)
	}
	return uint64(1)
}

var onceMap = types.NewMap(types.Typ[types.String], types.Typ[types.Bool])

func (in *Interp) syncMap(p Ptr) *Map {
	m := in.syncMaps[p]
	if m == nil {
		m = in.newMap()
		m.sync = true
		if in.noUndo > 0 {
			m.gen = 0
		} else {
			m.gen = in.gen - 1 // snapshot the empty map so that the path's changes are undone
		}
		in.syncMaps[p] = m
	}
	return m
}

func (in *Interp) swapper(v Value) Value {
	s, _ := v.(Iface).v.(Slice)
	return &Closure{name: "swapper", native: func(in *Interp, fr *frame, a []Value) Value {
		i, j := cint(in, a[0]), cint(in, a[1])
		if i < 0 || j < 0 || i >= len(s) || j >= len(s) {
			in.rtPanic("reflect: slice index out of range")
		}
		x, y := copyVal(s[i]), copyVal(s[j])
		in.store(&s[i], y)
		in.store(&s[j], x)
		return nil
	}}
}

// concreteStr forks until every byte of the string is concrete.
func (in *Interp) concreteStr(v Value) Value {
	v = in.force(v)
	s, ok := v.(*Str)
	if !ok {
		return v
	}
	b := make([]byte, len(s.b))
	for i, x := range s.b {
		switch y := x.(type) {
		case uint64:
			b[i] = byte(y)
		case *Term:
			b[i] = byte(in.concretize(y))
		}
	}
	return string(b)
}

// snapshot copies a value deeply (for observations).
func (in *Interp) snapshot(v Value, d int) Value {
	if d > 8 {
		return v
	}
	switch x := v.(type) {
	case Slice:
		r := make(Slice, len(x))
		for i := range x {
			r[i] = in.snapshot(x[i], d+1)
		}
		return r
	case Iface:
		return Iface{x.t, in.snapshot(x.v, d+1)}
	case *Map:
		if x == nil {
			return x
		}
		m := &Map{}
		for _, e := range x.ents {
			m.ents = append(m.ents, &mapEntry{in.snapshot(e.k, d+1), in.snapshot(e.v, d+1)})
		}
		return m
	}
	return copyVal(v)
}

// parseLazy inverts the decimal rendering of a symbolic number.
func (in *Interp) parseLazy(name string, l *LStr, a []Value) Value {
	ts := in.ts
	if l.float {
		if name == "ParseFloat" {
			return Tuple{l.t, Iface{}}
		}
		return nil
	}
	t := l.t
	if t.sort < 64 {
		if l.signed {
			t = ts.Op1(oSext, 64, t, 0)
		} else {
			t = ts.Op1(oZext, 64, t, 0)
		}
	}
	switch name {
	case "Atoi":
		if l.signed {
			return Tuple{in.norm(t), Iface{}}
		}
	case "ParseInt":
		base, bits := cint(in, a[1]), cint(in, a[2])
		if !l.signed || base != 0 && base != 10 {
			return nil
		}
		if bits == 0 || bits == 64 {
			return Tuple{in.norm(t), Iface{}}
		}
		lim := uint64(1) << (bits - 1)
		if in.branch(ts.And(ts.Op2(oSle, sBool, ts.C(64, -lim), t), ts.Op2(oSlt, sBool, t, ts.C(64, lim)))) {
			return Tuple{in.norm(t), Iface{}}
		}
		return nil
	case "ParseUint":
		base := cint(in, a[1])
		if base != 0 && base != 10 {
			return nil
		}
		if bits := cint(in, a[2]); bits != 0 && bits != 64 {
			return nil
		}
		if l.signed {
			if in.branch(ts.Op2(oSlt, sBool, t, ts.C(64, 0))) {
				return nil
			}
		}
		return Tuple{in.norm(t), Iface{}}
	case "ParseFloat":
		if cint(in, a[1]) != 64 {
			return nil
		}
		if l.signed {
			return Tuple{in.norm(ts.Op1(oSToF, sF64, t, 0)), Iface{}}
		}
		return Tuple{in.norm(ts.Op1(oUToF, sF64, t, 0)), Iface{}}
	}
	return nil
}
