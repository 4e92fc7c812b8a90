package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// Value is a runtime value: uint64/bool/float64/string for concrete scalars, *Term for symbolic scalars,
// *Str / *LStr for symbolic strings, Struct/Array (inline aggregates), Slice, *Map, *Value (pointer), Iface, *Closure, Tuple...
type Value interface{}

// Struct and Array are stored inline in their slot; loads and stores copy them.
type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Ptr = *Value

// Str is a string with at least one symbolic byte.
type Str struct{ b []Value }

// LStr is the decimal text of a symbolic integer (or the shortest text of a symbolic float), materialised on demand.
type LStr struct {
	t      *Term
	signed bool
	float  bool
}

// Iface is an interface value.
type Iface struct {
	t types.Type
	v Value
}

// Closure is a function value.
type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(in *Interp, fr *frame, args []Value) Value
	name   string
	sig    *types.Signature // native closures
}

// UPtr is an unsafe.Pointer wrapping a pointer or slice.
type UPtr struct{ v Value }

// Chan is a (non blocking) channel model.
type Chan struct {
	buf    []Value
	cap    int
	closed bool
}

type mapEntry struct {
	k, v Value
}

// Map keeps insertion order.
type Map struct {
	ents  []*mapEntry
	idx   map[interface{}]int // concrete hashable keys -> index in ents (nil when a symbolic key is present)
	sym   bool
	saved bool // snapshot taken on this path
	old   *Map
	gen   int
	sync  bool // private to a synchronisation object
}

// Opaque wraps an engine-native object.
type Opaque struct {
	kind string
	v    interface{}
}

// class of a basic type.
type class uint8

const (
	cOther class = iota
	cInt
	cFloat
	cString
	cBool
	cComplex
	cIface
	cPtr
	cUnsafe
)

type tinfo struct {
	cls    class
	sort   Sort
	signed bool
}

func typeInfo(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{cBool, sBool, false}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{cInt, 64, true}
		case types.Int32, types.UntypedRune:
			return tinfo{cInt, 32, true}
		case types.Int16:
			return tinfo{cInt, 16, true}
		case types.Int8:
			return tinfo{cInt, 8, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{cInt, 64, false}
		case types.Uint32:
			return tinfo{cInt, 32, false}
		case types.Uint16:
			return tinfo{cInt, 16, false}
		case types.Uint8:
			return tinfo{cInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return tinfo{cFloat, sF64, true}
		case types.Float32:
			return tinfo{cFloat, sF32, true}
		case types.String, types.UntypedString:
			return tinfo{cString, 0, false}
		case types.UnsafePointer:
			return tinfo{cUnsafe, 0, false}
		case types.Complex128, types.Complex64:
			return tinfo{cComplex, 0, false}
		}
	case *types.Interface:
		return tinfo{cIface, 0, false}
	case *types.Pointer:
		return tinfo{cPtr, 0, false}
	}
	return tinfo{}
}

// zero returns the zero value of a type.
func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti := typeInfo(u)
		switch ti.cls {
		case cBool:
			return false
		case cInt:
			return uint64(0)
		case cFloat:
			return float64(0)
		case cString:
			return ""
		case cUnsafe:
			return UPtr{}
		case cComplex:
			return complex(0, 0)
		}
		if u.Kind() == types.UntypedNil {
			return Iface{}
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Array:
		a := make(Array, u.Len())
		z := zero(u.Elem())
		for i := range a {
			a[i] = copyVal(z)
		}
		return a
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero: %v", t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

// mkStr normalises a byte sequence to a string value.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &Str{b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(uint64))
	}
	return string(r)
}

func bytesVals(s string) []Value {
	r := make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = uint64(s[i])
	}
	return r
}

// sbytes returns the bytes of a string value (materialising lazy strings).
func (in *Interp) sbytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		return bytesVals(s)
	case *Str:
		return s.b
	case *LStr:
		return in.sbytes(in.materialize(s))
	}
	panic(fmt.Sprintf("sbytes: %T", v))
}

// force materialises lazy strings.
func (in *Interp) force(v Value) Value {
	if l, ok := v.(*LStr); ok {
		return in.materialize(l)
	}
	return v
}

func (in *Interp) slen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *Str:
		return len(s.b)
	case *LStr:
		return in.slen(in.materialize(s))
	}
	panic(fmt.Sprintf("slen: %T", v))
}

func (in *Interp) sat(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *Str:
		return s.b[i]
	}
	panic(fmt.Sprintf("sat: %T", v))
}

func (in *Interp) ssub(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *Str:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(fmt.Sprintf("ssub: %T", v))
}

func (in *Interp) sconcat(a, b Value) Value {
	a, b = in.force(a), in.force(b)
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	p, q := in.sbytes(a), in.sbytes(b)
	r := make([]Value, 0, len(p)+len(q))
	return mkStr(append(append(r, p...), q...))
}

// materialize turns a lazy decimal text into bytes, forking on its sign and length.
func (in *Interp) materialize(l *LStr) Value {
	ts := in.ts
	if v, ok := in.lmat[l.t]; ok {
		return v
	}
	if l.float {
		// whole floats of small magnitude print like integers; decide the common classes, otherwise give up
		x := l.t
		r := ts.Op1(oFRound, sF64, x, 4)
		if in.branch(ts.And(ts.Op2(oFEq, sBool, r, x), ts.Op2(oFLt, sBool, ts.Op1(oFAbs, sF64, x, 0), ts.C(sF64, math.Float64bits(1e6))))) {
			// note -0 prints "-0"
			if in.branch(ts.And(ts.Op2(oFEq, sBool, x, ts.C(sF64, 0)), ts.Not(ts.Eq(ts.Op1(oFToBits, 64, x, 0), ts.C(64, 0))))) {
				return "-0"
			}
			return in.materialize(&LStr{t: in.fToInt(x, 64, true).(*Term), signed: true})
		}
		in.unsupported("text of symbolic float")
	}
	t := l.t
	neg := false
	if l.signed {
		if in.branch(ts.Op2(oSlt, sBool, t, ts.C(t.sort, 0))) {
			neg = true
			t = ts.Op1(oNeg, t.sort, t, 0)
		}
	}
	if t.sort < 64 {
		t = ts.Op1(oZext, 64, t, 0)
	}
	nd := 1
	p := uint64(10)
	for nd < 20 {
		if in.branch(ts.Op2(oUlt, sBool, t, ts.C(64, p))) {
			break
		}
		nd++
		if nd == 20 {
			break
		}
		p *= 10
	}
	// p = 10^nd bounds the value
	w := Sort(64)
	if nd < 20 {
		w = 4
		for w < 64 && p > uint64(1)<<w {
			w += 4
		}
	}
	x := t
	if w < 64 {
		x = ts.Op1(oExtract, w, t, 0)
	}
	digs := make([]Value, 0, nd+1)
	if neg {
		digs = append(digs, uint64('-'))
	}
	pow := uint64(1)
	for i := 1; i < nd; i++ {
		pow *= 10
	}
	for i := 0; i < nd; i++ {
		d := ts.Op2(oUrem, w, ts.Op2(oUdiv, w, x, ts.C(w, pow)), ts.C(w, 10))
		if i == 0 {
			d = ts.Op2(oUdiv, w, x, ts.C(w, pow))
		}
		var d8 *Term
		if w < 8 {
			d8 = ts.Op1(oZext, 8, d, 0)
		} else {
			d8 = ts.Op1(oExtract, 8, d, 0)
		}
		digs = append(digs, in.norm(ts.Op2(oAdd, 8, d8, ts.C(8, '0'))))
		pow /= 10
	}
	r := mkStr(digs)
	in.lmat[l.t] = r
	return r
}

// norm turns constant terms back into Go scalars.
func (in *Interp) norm(t *Term) Value {
	if !t.isC() {
		return t
	}
	switch t.sort {
	case sBool:
		return t.val != 0
	case sF64:
		return math.Float64frombits(t.val)
	case sF32:
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return t.val
}

// term lifts a scalar to a term of the given sort.
func (in *Interp) term(v Value, s Sort) *Term {
	switch x := v.(type) {
	case *Term:
		if x.sort != s {
			panic(fmt.Sprintf("term: sort %d, want %d", x.sort, s))
		}
		return x
	case uint64:
		return in.ts.C(s, x)
	case bool:
		return in.ts.C(sBool, b2u(x))
	case float64:
		return in.ts.C(s, fb(x, s))
	}
	panic(fmt.Sprintf("term: %T", v))
}

func isSym(v Value) bool { _, ok := v.(*Term); return ok }

// hkey makes a Go map key for a concrete value; ok=false when symbolic or unhashable here.
func hkey(v Value) (interface{}, bool) {
	switch x := v.(type) {
	case uint64, bool, string, float64, Ptr:
		return x, true
	case Iface:
		if x.t == nil {
			return "nil-iface", true
		}
		k, ok := hkey(x.v)
		if !ok {
			return nil, false
		}
		return [2]interface{}{typeKey(x.t), k}, true
	case Struct:
		s := "S"
		for _, f := range x {
			k, ok := hkey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	case Array:
		s := "A"
		for _, f := range x {
			k, ok := hkey(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("|%T:%v", k, k)
		}
		return s, true
	case *Opaque:
		return x, true
	case *RType:
		return x, true
	case *Map, *Closure, *Chan:
		return x, true
	case UPtr:
		return hkey(x.v)
	}
	return nil, false
}

func typeKey(t types.Type) interface{} {
	if n, ok := t.(*types.Named); ok && n.TypeArgs() == nil {
		return n
	}
	return types.TypeString(t, nil)
}

func fmtFloat(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }
