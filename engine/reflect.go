package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RType is the reflect representation of a type.
type RType struct{ t types.Type }

// RV is the content of a valid reflect.Value.
type RV struct {
	t    types.Type
	v    Value
	addr Ptr // addressable location, if any
	ro   bool
	kind string // "" ordinary, "method"
}

func (r *RV) get() Value {
	if r.addr != nil {
		return copyVal(*r.addr)
	}
	return r.v
}

func mkRV(r *RV) Value {
	if r == nil {
		return Struct{Ptr(nil), UPtr{}, uint64(0)}
	}
	return Struct{&Opaque{kind: "rv", v: r}, UPtr{}, uint64(0)}
}

func getRV(v Value) *RV {
	s, ok := v.(Struct)
	if !ok {
		if p, isP := v.(Ptr); isP && p != nil {
			return getRV(*p)
		}
		panic(fmt.Sprintf("not a reflect.Value: %T", v))
	}
	if o, ok := s[0].(*Opaque); ok {
		return o.v.(*RV)
	}
	return nil
}

// rIndex is a concrete index, -1 when out of range.
func (in *Interp) rIndex(v Value, n int) int {
	if t, ok := v.(*Term); ok && !in.branch(in.inRange(t, tinfo{cInt, 64, true}, n)) {
		return -1
	}
	return cint(in, v)
}

func (in *Interp) typeIface(t types.Type) Iface { return Iface{in.p.rtypePtr, in.p.rtype(t)} }

func rt(v Value) *RType {
	switch x := v.(type) {
	case *RType:
		return x
	case Iface:
		if x.t == nil {
			return nil
		}
		return rt(x.v)
	}
	return nil
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Pointer:
		return reflect.Ptr
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func rtypeString(t types.Type) string {
	switch u := types.Unalias(t).(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "uint8"
		}
		if u.Kind() == types.Int32 {
			return "int32"
		}
		if u.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return u.Name()
	case *types.Named:
		n := u.Obj().Name()
		if u.Obj().Pkg() != nil {
			n = u.Obj().Pkg().Name() + "." + n
		}
		if a := u.TypeArgs(); a != nil {
			var s []string
			for i := 0; i < a.Len(); i++ {
				s = append(s, types.TypeString(a.At(i), nil))
			}
			n += "[" + strings.Join(s, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + rtypeString(u.Elem())
	case *types.Slice:
		return "[]" + rtypeString(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), rtypeString(u.Elem()))
	case *types.Map:
		return "map[" + rtypeString(u.Key()) + "]" + rtypeString(u.Elem())
	case *types.Chan:
		switch u.Dir() {
		case types.SendOnly:
			return "chan<- " + rtypeString(u.Elem())
		case types.RecvOnly:
			return "<-chan " + rtypeString(u.Elem())
		}
		return "chan " + rtypeString(u.Elem())
	case *types.Interface:
		if u.NumMethods() == 0 {
			return "interface {}"
		}
		var s []string
		for i := 0; i < u.NumMethods(); i++ {
			s = append(s, u.Method(i).Name()+strings.TrimPrefix(rtypeString(u.Method(i).Type()), "func"))
		}
		return "interface { " + strings.Join(s, "; ") + " }"
	case *types.Struct:
		var s []string
		for i := 0; i < u.NumFields(); i++ {
			x := u.Field(i).Name() + " " + rtypeString(u.Field(i).Type())
			if u.Tag(i) != "" {
				x += fmt.Sprintf(" %q", u.Tag(i))
			}
			s = append(s, x)
		}
		if len(s) == 0 {
			return "struct {}"
		}
		return "struct { " + strings.Join(s, "; ") + " }"
	case *types.Signature:
		var ps []string
		for i := 0; i < u.Params().Len(); i++ {
			pt := u.Params().At(i).Type()
			if u.Variadic() && i == u.Params().Len()-1 {
				ps = append(ps, "..."+rtypeString(pt.(*types.Slice).Elem()))
			} else {
				ps = append(ps, rtypeString(pt))
			}
		}
		r := "func(" + strings.Join(ps, ", ") + ")"
		switch u.Results().Len() {
		case 0:
		case 1:
			r += " " + rtypeString(u.Results().At(0).Type())
		default:
			var rs []string
			for i := 0; i < u.Results().Len(); i++ {
				rs = append(rs, rtypeString(u.Results().At(i).Type()))
			}
			r += " (" + strings.Join(rs, ", ") + ")"
		}
		return r
	}
	return t.String()
}

// exportedMethods lists the exported methods of a type sorted by name.
func (in *Interp) exportedMethods(t types.Type) []*types.Selection {
	ms := in.p.methodSet(t)
	var r []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			r = append(r, ms.At(i))
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Obj().Name() < r[j].Obj().Name() })
	return r
}

func (in *Interp) reflectPanic(format string, a ...interface{}) {
	panic(&targetPanic{v: Iface{types.Typ[types.String], fmt.Sprintf("reflect: "+format, a...)}, at: in.where()})
}

// assignTo converts v of type from for storage in a location of type to.
func (in *Interp) assignTo(v Value, from, to types.Type) Value {
	if _, ok := to.Underlying().(*types.Interface); ok {
		if i, isI := from.Underlying().(*types.Interface); isI {
			_ = i
			return v
		}
		return Iface{from, v}
	}
	return v
}

func (in *Interp) assignable(from, to types.Type) bool {
	if identical(from, to) {
		return true
	}
	if it, ok := to.Underlying().(*types.Interface); ok {
		return in.p.implements(from, it)
	}
	return types.AssignableTo(from, to)
}

func (in *Interp) rvOf(i Iface) Value {
	if i.t == nil {
		return mkRV(nil)
	}
	return mkRV(&RV{t: i.t, v: i.v})
}

func (in *Interp) rvIface(r *RV) Iface {
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		i, _ := r.get().(Iface)
		return i
	}
	return Iface{r.t, r.get()}
}

func (in *Interp) rvMethod(r *RV, sel *types.Selection) Value {
	var recv Value
	rtyp := r.t
	var sig *types.Signature
	var cl *Closure
	if _, ok := r.t.Underlying().(*types.Interface); ok {
		i, _ := r.get().(Iface)
		m := sel.Obj().(*types.Func)
		sig = m.Type().(*types.Signature)
		cl = &Closure{name: m.Name(), native: func(in *Interp, fr *frame, a []Value) Value { return in.invoke(fr, i, m, a) }}
	} else {
		recv = r.get()
		fn := in.p.methodValue(sel)
		sig = sel.Type().(*types.Signature)
		cl = &Closure{name: fn.Name(), native: func(in *Interp, fr *frame, a []Value) Value {
			return in.call(fr, fn, append([]Value{copyVal(recv)}, a...), nil)
		}}
	}
	_ = rtyp
	nsig := types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())
	return mkRV(&RV{t: nsig, v: cl})
}

func (in *Interp) selMethods(t types.Type) []*types.Selection { return in.exportedMethods(t) }

func (in *Interp) rvCall(fr *frame, f *RV, args []*RV, spread bool) Slice {
	sig, ok := f.t.Underlying().(*types.Signature)
	if !ok {
		in.reflectPanic("call of Call on %s Value", kindOf(f.t))
	}
	np := sig.Params().Len()
	var as []Value
	n := np
	if sig.Variadic() {
		n--
	}
	if len(args) < n {
		in.reflectPanic("Call with too few input arguments")
	}
	if !sig.Variadic() && len(args) > n {
		in.reflectPanic("Call with too many input arguments")
	}
	conv := func(a *RV, pt types.Type) Value {
		if a == nil {
			in.reflectPanic("Call using zero Value argument")
		}
		if !in.assignable(a.t, pt) {
			in.reflectPanic("Call using %s as type %s", rtypeString(a.t), rtypeString(pt))
		}
		return in.assignTo(a.get(), a.t, pt)
	}
	for i := 0; i < n; i++ {
		as = append(as, conv(args[i], sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		st := sig.Params().At(np - 1).Type()
		if spread {
			as = append(as, args[n].get())
		} else {
			et := st.(*types.Slice).Elem()
			s := Slice{}
			for _, a := range args[n:] {
				s = append(s, conv(a, et))
			}
			if len(args) == n {
				s = nil
			}
			as = append(as, s)
		}
	}
	c, _ := f.get().(*Closure)
	if c == nil {
		in.reflectPanic("call of nil function")
	}
	res := in.callValue(fr, c, as, nil)
	out := Slice{}
	switch sig.Results().Len() {
	case 0:
	case 1:
		out = append(out, mkRV(&RV{t: sig.Results().At(0).Type(), v: res}))
	default:
		for i, x := range res.(Tuple) {
			out = append(out, mkRV(&RV{t: sig.Results().At(i).Type(), v: x}))
		}
	}
	return out
}

func rvArgs(v Value) []*RV {
	s, _ := v.(Slice)
	r := make([]*RV, len(s))
	for i := range s {
		r[i] = getRV(s[i])
	}
	return r
}

func (in *Interp) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	// reflect.StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
	pp := ""
	if !f.Exported() && f.Pkg() != nil {
		pp = f.Pkg().Path()
	}
	return Struct{f.Name(), pp, in.typeIface(f.Type()), st.Tag(i), uint64(i * 8), Slice{uint64(i)}, f.Embedded()}
}

func (in *Interp) method(m *types.Selection, i int, recvT types.Type) Value {
	sig := m.Type().(*types.Signature)
	var ps []*types.Var
	_, isI := recvT.Underlying().(*types.Interface)
	fnv := mkRV(nil)
	if !isI {
		ps = append(ps, types.NewVar(0, nil, "", recvT))
		for j := 0; j < sig.Params().Len(); j++ {
			ps = append(ps, sig.Params().At(j))
		}
		sig = types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), sig.Results(), sig.Variadic())
		fnv = mkRV(&RV{t: sig, v: &Closure{fn: in.p.methodValue(m)}})
	}
	return Struct{m.Obj().Name(), "", in.typeIface(sig), fnv, uint64(i)}
}

// rvConvert implements Value.Convert for the simple cases.
func (in *Interp) rvConvert(r *RV, to types.Type) Value {
	if _, ok := to.Underlying().(*types.Interface); ok {
		return mkRV(&RV{t: to, v: in.rvIface(r)})
	}
	return mkRV(&RV{t: to, v: in.convert(r.get(), r.t, to, typeInfo(r.t), typeInfo(to))})
}

// isZero builds the "is zero value" condition.
func (in *Interp) isZero(v Value, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r Value = true
		for i, f := range v.(Struct) {
			r = in.and(r, in.isZero(f, u.Field(i).Type()))
		}
		return r
	case *types.Array:
		var r Value = true
		for _, f := range v.(Array) {
			r = in.and(r, in.isZero(f, u.Elem()))
		}
		return r
	}
	switch x := v.(type) {
	case Slice:
		return x == nil
	case *Map:
		return x == nil
	case Iface:
		return x.t == nil
	case *Closure:
		return x == nil
	case Ptr:
		return x == nil
	case float64:
		return math.Float64bits(x) == 0
	case *Term:
		if x.sort >= 100 {
			return in.norm(in.ts.Eq(in.ts.Op1(oFToBits, 64, x, 0), in.ts.C(64, 0)))
		}
	}
	return in.eq(t, v, zero(t))
}

// deepEqual builds reflect.DeepEqual as a condition.
func (in *Interp) deepEqual(t types.Type, a, b Value, depth int) Value {
	if depth > 100 {
		in.unsupported("deep equal depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, _ := a.(Iface)
		y, _ := b.(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		return in.deepEqual(x.t, x.v, y.v, depth+1)
	case *types.Pointer:
		x, ok1 := a.(Ptr)
		y, ok2 := b.(Ptr)
		if !ok1 || !ok2 {
			return in.eq(t, a, b)
		}
		if x == y {
			return true
		}
		if x == nil || y == nil {
			return false
		}
		return in.deepEqual(u.Elem(), *x, *y, depth+1)
	case *types.Struct:
		x, y := a.(Struct), b.(Struct)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(u.Field(i).Type(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Array:
		x, y := a.(Array), b.(Array)
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		x, _ := a.(Slice)
		y, _ := b.(Slice)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return false
		}
		var r Value = true
		for i := range x {
			r = in.and(r, in.deepEqual(u.Elem(), x[i], y[i], depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Map:
		x, _ := a.(*Map)
		y, _ := b.(*Map)
		if (x == nil) != (y == nil) || in.mapLen(x) != in.mapLen(y) {
			return false
		}
		if x == y {
			return true
		}
		var r Value = true
		for _, e := range x.ents {
			v, ok := in.mapGet(y, e.k, u)
			if !ok {
				return false
			}
			r = in.and(r, in.deepEqual(u.Elem(), e.v, v, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case *types.Signature:
		x, _ := a.(*Closure)
		y, _ := b.(*Closure)
		return x == nil && y == nil
	}
	return in.eq(t, a, b)
}

func (in *Interp) sameKindCheck(r *RV, what string, ok bool) {
	if r == nil {
		in.reflectPanic("call of reflect.Value.%s on zero Value", what)
	}
	if !ok {
		in.reflectPanic("call of reflect.Value.%s on %s Value", what, kindOf(r.t))
	}
}

func isInt(k reflect.Kind) bool  { return k >= reflect.Int && k <= reflect.Int64 }
func isUint(k reflect.Kind) bool { return k >= reflect.Uint && k <= reflect.Uintptr }

func init() {
	T := func(n string, f func(in *Interp, t types.Type, a []Value) Value) {
		reg("(*reflect.rtype)."+n, func(in *Interp, fr *frame, a []Value) Value {
			r := rt(a[0])
			if r == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			return f(in, r.t, a)
		})
	}
	reg("(reflect.Kind).String", func(in *Interp, fr *frame, a []Value) Value { return reflect.Kind(a[0].(uint64)).String() })
	T("Kind", func(in *Interp, t types.Type, a []Value) Value { return uint64(kindOf(t)) })
	T("String", func(in *Interp, t types.Type, a []Value) Value { return rtypeString(t) })
	T("Name", func(in *Interp, t types.Type, a []Value) Value {
		switch u := types.Unalias(t).(type) {
		case *types.Named:
			s := rtypeString(t)
			if u.Obj().Pkg() != nil {
				s = strings.TrimPrefix(s, u.Obj().Pkg().Name()+".")
			}
			return s
		case *types.Basic:
			return rtypeString(t)
		}
		return ""
	})
	T("PkgPath", func(in *Interp, t types.Type, a []Value) Value {
		if u, ok := types.Unalias(t).(*types.Named); ok && u.Obj().Pkg() != nil {
			return u.Obj().Pkg().Path()
		}
		return ""
	})
	T("Elem", func(in *Interp, t types.Type, a []Value) Value {
		if e, ok := t.Underlying().(interface{ Elem() types.Type }); ok {
			return in.typeIface(e.Elem())
		}
		in.reflectPanic("Elem of invalid type %s", rtypeString(t))
		return nil
	})
	T("Key", func(in *Interp, t types.Type, a []Value) Value {
		return in.typeIface(t.Underlying().(*types.Map).Key())
	})
	T("Len", func(in *Interp, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Array).Len())
	})
	T("NumField", func(in *Interp, t types.Type, a []Value) Value {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			in.reflectPanic("NumField of non-struct type %s", rtypeString(t))
		}
		return uint64(s.NumFields())
	})
	T("Field", func(in *Interp, t types.Type, a []Value) Value {
		return in.structField(t.Underlying().(*types.Struct), cint(in, a[1]))
	})
	T("FieldByName", func(in *Interp, t types.Type, a []Value) Value {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			in.reflectPanic("FieldByName of non-struct type %s", rtypeString(t))
		}
		n := cstr(in, a[1])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return Tuple{in.structField(st, i), true}
			}
		}
		obj, idx, _ := types.LookupFieldOrMethod(t, false, nil, n)
		if v, ok := obj.(*types.Var); ok {
			ix := Slice{}
			for _, i := range idx {
				ix = append(ix, uint64(i))
			}
			return Tuple{Struct{v.Name(), "", in.typeIface(v.Type()), "", uint64(0), ix, v.Embedded()}, true}
		}
		return Tuple{zero(in.p.byPath["reflect"].Type("StructField").Type()), false}
	})
	T("NumMethod", func(in *Interp, t types.Type, a []Value) Value {
		if it, ok := t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(in.exportedMethods(t)))
	})
	T("Method", func(in *Interp, t types.Type, a []Value) Value {
		i := cint(in, a[1])
		return in.method(in.exportedMethods(t)[i], i, t)
	})
	T("MethodByName", func(in *Interp, t types.Type, a []Value) Value {
		n := cstr(in, a[1])
		for i, m := range in.exportedMethods(t) {
			if m.Obj().Name() == n {
				return Tuple{in.method(m, i, t), true}
			}
		}
		return Tuple{zero(in.p.byPath["reflect"].Type("Method").Type()), false}
	})
	T("NumIn", func(in *Interp, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Signature).Params().Len())
	})
	T("In", func(in *Interp, t types.Type, a []Value) Value {
		return in.typeIface(t.Underlying().(*types.Signature).Params().At(cint(in, a[1])).Type())
	})
	T("NumOut", func(in *Interp, t types.Type, a []Value) Value {
		return uint64(t.Underlying().(*types.Signature).Results().Len())
	})
	T("Out", func(in *Interp, t types.Type, a []Value) Value {
		return in.typeIface(t.Underlying().(*types.Signature).Results().At(cint(in, a[1])).Type())
	})
	T("IsVariadic", func(in *Interp, t types.Type, a []Value) Value {
		return t.Underlying().(*types.Signature).Variadic()
	})
	T("Implements", func(in *Interp, t types.Type, a []Value) Value {
		return in.p.implements(t, rt(a[1]).t.Underlying().(*types.Interface))
	})
	T("AssignableTo", func(in *Interp, t types.Type, a []Value) Value { return in.assignable(t, rt(a[1]).t) })
	T("ConvertibleTo", func(in *Interp, t types.Type, a []Value) Value { return types.ConvertibleTo(t, rt(a[1]).t) })
	T("Comparable", func(in *Interp, t types.Type, a []Value) Value { return types.Comparable(t) })
	T("Size", func(in *Interp, t types.Type, a []Value) Value { return uint64(stdSizes.Sizeof(t)) })
	T("Bits", func(in *Interp, t types.Type, a []Value) Value { return uint64(stdSizes.Sizeof(t) * 8) })

	F := func(n string, f intrinsic) { reg("reflect."+n, f) }
	F("TypeOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.typeIface(i.t)
	})
	reg("internal/reflectlite.TypeOf", func(in *Interp, fr *frame, a []Value) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return in.typeIface(i.t)
	})
	reg("internal/reflectlite.ValueOf", func(in *Interp, fr *frame, a []Value) Value { return in.rvOf(a[0].(Iface)) })
	F("ValueOf", func(in *Interp, fr *frame, a []Value) Value { return in.rvOf(a[0].(Iface)) })
	F("TypeFor", func(in *Interp, fr *frame, a []Value) Value { return in.typeIface(in.targs[0]) })
	F("Indirect", func(in *Interp, fr *frame, a []Value) Value {
		r := getRV(a[0])
		if r == nil || kindOf(r.t) != reflect.Ptr {
			return a[0]
		}
		return in.rvElem(r)
	})
	F("New", func(in *Interp, fr *frame, a []Value) Value {
		t := rt(a[0]).t
		v := new(Value)
		*v = zero(t)
		return mkRV(&RV{t: types.NewPointer(t), v: v})
	})
	F("Zero", func(in *Interp, fr *frame, a []Value) Value {
		t := rt(a[0]).t
		return mkRV(&RV{t: t, v: zero(t)})
	})
	F("MakeSlice", func(in *Interp, fr *frame, a []Value) Value {
		t := rt(a[0]).t
		return mkRV(&RV{t: t, v: makeSlice(t.Underlying().(*types.Slice).Elem(), cint(in, a[1]), cint(in, a[2]))})
	})
	F("MakeMap", func(in *Interp, fr *frame, a []Value) Value { return mkRV(&RV{t: rt(a[0]).t, v: in.newMap()}) })
	F("MakeMapWithSize", func(in *Interp, fr *frame, a []Value) Value { return mkRV(&RV{t: rt(a[0]).t, v: in.newMap()}) })
	F("SliceOf", func(in *Interp, fr *frame, a []Value) Value { return in.typeIface(types.NewSlice(rt(a[0]).t)) })
	F("PointerTo", func(in *Interp, fr *frame, a []Value) Value { return in.typeIface(types.NewPointer(rt(a[0]).t)) })
	F("PtrTo", func(in *Interp, fr *frame, a []Value) Value { return in.typeIface(types.NewPointer(rt(a[0]).t)) })
	F("MapOf", func(in *Interp, fr *frame, a []Value) Value {
		return in.typeIface(types.NewMap(rt(a[0]).t, rt(a[1]).t))
	})
	F("Append", func(in *Interp, fr *frame, a []Value) Value {
		r := getRV(a[0])
		et := r.t.Underlying().(*types.Slice).Elem()
		s, _ := r.get().(Slice)
		var y Slice
		for _, x := range rvArgs(a[1]) {
			y = append(y, in.assignTo(x.get(), x.t, et))
		}
		return mkRV(&RV{t: r.t, v: in.appendSlice(s, y, et)})
	})
	F("AppendSlice", func(in *Interp, fr *frame, a []Value) Value {
		r, q := getRV(a[0]), getRV(a[1])
		s, _ := r.get().(Slice)
		y, _ := q.get().(Slice)
		return mkRV(&RV{t: r.t, v: in.appendSlice(s, y, r.t.Underlying().(*types.Slice).Elem())})
	})
	F("Copy", func(in *Interp, fr *frame, a []Value) Value {
		d, s := getRV(a[0]), getRV(a[1])
		dv, _ := d.get().(Slice)
		sv, _ := s.get().(Slice)
		n := min(len(dv), len(sv))
		for i := 0; i < n; i++ {
			in.store(&dv[i], sv[i])
		}
		return uint64(n)
	})
	F("DeepEqual", func(in *Interp, fr *frame, a []Value) Value {
		return in.deepEqual(types.NewInterfaceType(nil, nil), a[0], a[1], 0)
	})

	V := func(n string, f func(in *Interp, fr *frame, r *RV, a []Value) Value) {
		g := func(in *Interp, fr *frame, a []Value) Value { return f(in, fr, getRV(a[0]), a) }
		reg("(reflect.Value)."+n, g)
		reg("(internal/reflectlite.Value)."+n, g)
	}
	V("IsValid", func(in *Interp, fr *frame, r *RV, a []Value) Value { return r != nil })
	V("Kind", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		if r == nil {
			return uint64(0)
		}
		return uint64(kindOf(r.t))
	})
	V("Type", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Type", true)
		return in.typeIface(r.t)
	})
	V("Interface", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Interface", true)
		if r.ro {
			in.reflectPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return in.rvIface(r)
	})
	F("TypeAssert", func(in *Interp, fr *frame, a []Value) Value {
		r, at := getRV(a[0]), types.Unalias(in.targs[0])
		in.sameKindCheck(r, "TypeAssert", r != nil)
		i := in.rvIface(r)
		if it, isI := at.Underlying().(*types.Interface); isI {
			if i.t != nil && in.p.implements(i.t, it) {
				return Tuple{i, true}
			}
		} else if i.t != nil && identical(i.t, at) {
			return Tuple{copyVal(i.v), true}
		}
		return Tuple{copyVal(zero(at)), false}
	})
	V("CanInterface", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "CanInterface", true)
		return !r.ro
	})
	V("CanAddr", func(in *Interp, fr *frame, r *RV, a []Value) Value { return r != nil && r.addr != nil })
	V("CanSet", func(in *Interp, fr *frame, r *RV, a []Value) Value { return r != nil && r.addr != nil && !r.ro })
	V("Addr", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		if r == nil || r.addr == nil {
			in.reflectPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&RV{t: types.NewPointer(r.t), v: r.addr, ro: r.ro})
	})
	V("IsNil", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "IsNil", true)
		switch x := r.get().(type) {
		case Ptr:
			return x == nil
		case Slice:
			return x == nil
		case *Map:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		case *Chan:
			return x == nil
		case UPtr:
			return isNilPtr(x.v)
		case *RType, *Opaque:
			return false
		}
		in.sameKindCheck(r, "IsNil", false)
		return nil
	})
	V("IsZero", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "IsZero", true)
		return in.isZero(r.get(), r.t)
	})
	V("Len", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Len", true)
		switch x := r.get().(type) {
		case string, *Str, *LStr:
			return uint64(in.slen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			return uint64(in.mapLen(x))
		case *Chan:
			return uint64(len(x.buf))
		case Ptr:
			if at, ok := r.t.Underlying().(*types.Pointer); ok {
				if ar, ok := at.Elem().Underlying().(*types.Array); ok {
					return uint64(ar.Len())
				}
			}
		}
		in.sameKindCheck(r, "Len", false)
		return nil
	})
	V("Cap", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		}
		in.sameKindCheck(r, "Cap", false)
		return nil
	})
	V("Index", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Index", true)
		switch x := r.get().(type) {
		case Slice:
			i := in.rIndex(a[1], len(x))
			if i < 0 || i >= len(x) {
				in.reflectPanic("slice index out of range")
			}
			return mkRV(&RV{t: r.t.Underlying().(*types.Slice).Elem(), addr: &x[i], ro: r.ro})
		case Array:
			i := in.rIndex(a[1], len(x))
			if i < 0 || i >= len(x) {
				in.reflectPanic("array index out of range")
			}
			if r.addr != nil {
				ar := (*r.addr).(Array)
				return mkRV(&RV{t: r.t.Underlying().(*types.Array).Elem(), addr: &ar[i], ro: r.ro})
			}
			return mkRV(&RV{t: r.t.Underlying().(*types.Array).Elem(), v: x[i], ro: r.ro})
		case string, *Str, *LStr:
			s := in.force(x)
			i := in.rIndex(a[1], in.slen(s))
			if i < 0 || i >= in.slen(s) {
				in.reflectPanic("string index out of range")
			}
			return mkRV(&RV{t: types.Typ[types.Uint8], v: in.sat(s, i)})
		}
		in.sameKindCheck(r, "Index", false)
		return nil
	})
	V("MapKeys", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		in.sameKindCheck(r, "MapKeys", ok)
		m, _ := r.get().(*Map)
		out := Slice{}
		for _, e := range in.mapRange(m, mt).ents {
			out = append(out, mkRV(&RV{t: mt.Key(), v: copyVal(e.k), ro: r.ro}))
		}
		return out
	})
	V("MapIndex", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		in.sameKindCheck(r, "MapIndex", ok)
		m, _ := r.get().(*Map)
		k := getRV(a[1])
		if !in.assignable(k.t, mt.Key()) {
			in.reflectPanic("value of type %s is not assignable to type %s", rtypeString(k.t), rtypeString(mt.Key()))
		}
		v, ok := in.mapGet(m, in.assignTo(k.get(), k.t, mt.Key()), mt)
		if !ok {
			return mkRV(nil)
		}
		return mkRV(&RV{t: mt.Elem(), v: copyVal(v), ro: r.ro})
	})
	V("MapRange", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		in.sameKindCheck(r, "MapRange", ok)
		m, _ := r.get().(*Map)
		v := new(Value)
		*v = Struct{a[0], &Opaque{kind: "mapiter", v: &rvMapIter{it: in.mapRange(m, mt), mt: mt}}}
		return v
	})
	reg("(*reflect.MapIter).Next", func(in *Interp, fr *frame, a []Value) Value {
		it := (*a[0].(Ptr)).(Struct)[1].(*Opaque).v.(*rvMapIter)
		if it.it.i < len(it.it.ents) {
			it.cur = it.it.ents[it.it.i]
			it.it.i++
			return true
		}
		return false
	})
	reg("(*reflect.MapIter).Key", func(in *Interp, fr *frame, a []Value) Value {
		it := (*a[0].(Ptr)).(Struct)[1].(*Opaque).v.(*rvMapIter)
		return mkRV(&RV{t: it.mt.Key(), v: copyVal(it.cur.k)})
	})
	reg("(*reflect.MapIter).Value", func(in *Interp, fr *frame, a []Value) Value {
		it := (*a[0].(Ptr)).(Struct)[1].(*Opaque).v.(*rvMapIter)
		return mkRV(&RV{t: it.mt.Elem(), v: copyVal(it.cur.v)})
	})
	V("SetMapIndex", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		mt, ok := r.t.Underlying().(*types.Map)
		in.sameKindCheck(r, "SetMapIndex", ok)
		m, _ := r.get().(*Map)
		k, v := getRV(a[1]), getRV(a[2])
		kv := in.assignTo(k.get(), k.t, mt.Key())
		if v == nil {
			in.mapDelete(m, kv, mt)
			return nil
		}
		if m == nil {
			panic(&targetPanic{v: Iface{in.p.errString, "assignment to entry in nil map"}, at: in.where()})
		}
		if !in.assignable(v.t, mt.Elem()) {
			in.reflectPanic("value of type %s is not assignable to type %s", rtypeString(v.t), rtypeString(mt.Elem()))
		}
		in.mapSet(m, kv, in.assignTo(v.get(), v.t, mt.Elem()), mt)
		return nil
	})
	V("Elem", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Elem", true)
		return in.rvElem(r)
	})
	field := func(in *Interp, r *RV, i int) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		in.sameKindCheck(r, "Field", ok)
		ro := r.ro || !st.Field(i).Exported()
		if r.addr != nil {
			return mkRV(&RV{t: st.Field(i).Type(), addr: &(*r.addr).(Struct)[i], ro: ro})
		}
		return mkRV(&RV{t: st.Field(i).Type(), v: r.v.(Struct)[i], ro: ro})
	}
	V("Field", func(in *Interp, fr *frame, r *RV, a []Value) Value { return field(in, r, cint(in, a[1])) })
	byIndex := func(in *Interp, r *RV, idx []int) Value {
		var v Value = mkRV(r)
		for n, i := range idx {
			q := getRV(v)
			if n > 0 {
				if kindOf(q.t) == reflect.Ptr {
					q = getRV(in.rvElem(q))
				}
			}
			v = field(in, q, i)
		}
		return v
	}
	V("FieldByIndex", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		var idx []int
		for _, x := range a[1].(Slice) {
			idx = append(idx, int(x.(uint64)))
		}
		return byIndex(in, r, idx)
	})
	V("FieldByIndexErr", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		var idx []int
		for _, x := range a[1].(Slice) {
			idx = append(idx, int(x.(uint64)))
		}
		return Tuple{byIndex(in, r, idx), Iface{}}
	})
	V("FieldByName", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		n := cstr(in, a[1])
		st, ok := r.t.Underlying().(*types.Struct)
		in.sameKindCheck(r, "FieldByName", ok)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				return field(in, r, i)
			}
		}
		obj, idx, _ := types.LookupFieldOrMethod(r.t, false, nil, n)
		if _, ok := obj.(*types.Var); ok {
			return byIndex(in, r, idx)
		}
		return mkRV(nil)
	})
	V("NumField", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		st, ok := r.t.Underlying().(*types.Struct)
		in.sameKindCheck(r, "NumField", ok)
		return uint64(st.NumFields())
	})
	V("NumMethod", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "NumMethod", true)
		if it, ok := r.t.Underlying().(*types.Interface); ok {
			return uint64(it.NumMethods())
		}
		return uint64(len(in.exportedMethods(r.t)))
	})
	V("Method", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		return in.rvMethod(r, in.exportedMethods(r.t)[cint(in, a[1])])
	})
	V("MethodByName", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "MethodByName", true)
		n := cstr(in, a[1])
		for _, m := range in.exportedMethods(r.t) {
			if m.Obj().Name() == n {
				return in.rvMethod(r, m)
			}
		}
		return mkRV(nil)
	})
	V("Call", func(in *Interp, fr *frame, r *RV, a []Value) Value { return in.rvCall(fr, r, rvArgs(a[1]), false) })
	V("CallSlice", func(in *Interp, fr *frame, r *RV, a []Value) Value { return in.rvCall(fr, r, rvArgs(a[1]), true) })
	V("Int", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Int", r != nil && isInt(kindOf(r.t)))
		return in.convert(r.get(), r.t, types.Typ[types.Int64], typeInfo(r.t), typeInfo(types.Typ[types.Int64]))
	})
	V("Uint", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Uint", r != nil && isUint(kindOf(r.t)))
		return in.convert(r.get(), r.t, types.Typ[types.Uint64], typeInfo(r.t), typeInfo(types.Typ[types.Uint64]))
	})
	V("Float", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Float", r != nil && (kindOf(r.t) == reflect.Float64 || kindOf(r.t) == reflect.Float32))
		return in.convert(r.get(), r.t, types.Typ[types.Float64], typeInfo(r.t), typeInfo(types.Typ[types.Float64]))
	})
	V("Complex", func(in *Interp, fr *frame, r *RV, a []Value) Value { return r.get() })
	V("Bool", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		in.sameKindCheck(r, "Bool", r != nil && kindOf(r.t) == reflect.Bool)
		return r.get()
	})
	V("String", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		if r == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == reflect.String {
			return r.get()
		}
		return "<" + rtypeString(r.t) + " Value>"
	})
	V("Bytes", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			return x
		case Array:
			if r.addr != nil {
				return Slice((*r.addr).(Array))
			}
		}
		in.sameKindCheck(r, "Bytes", false)
		return nil
	})
	V("CanInt", func(in *Interp, fr *frame, r *RV, a []Value) Value { return isInt(kindOf(r.t)) })
	V("CanUint", func(in *Interp, fr *frame, r *RV, a []Value) Value { return isUint(kindOf(r.t)) })
	V("CanFloat", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		return kindOf(r.t) == reflect.Float64 || kindOf(r.t) == reflect.Float32
	})
	V("Comparable", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		if r == nil {
			return true
		}
		t := r.t
		if _, ok := t.Underlying().(*types.Interface); ok {
			i := r.get().(Iface)
			if i.t == nil {
				return true
			}
			t = i.t
		}
		return types.Comparable(t)
	})
	V("Pointer", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		switch x := r.get().(type) {
		case *Map:
			if x == nil {
				return UPtr{}
			}
			return &Opaque{kind: "ptr", v: x}
		case Slice:
			if len(x) == 0 {
				return UPtr{}
			}
			return UPtr{&x[0]}
		case Ptr:
			if x == nil {
				return uint64(0)
			}
			return UPtr{x}
		}
		return UPtr{}
	})
	V("UnsafePointer", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		switch x := r.get().(type) {
		case Slice:
			if len(x) == 0 {
				return UPtr{}
			}
			return UPtr{&x[0]}
		case Ptr:
			return UPtr{x}
		case *Map:
			v := Value(x)
			return UPtr{&v}
		}
		return UPtr{}
	})
	setter := func(n string, conv func(in *Interp, r *RV, a []Value) Value) {
		V(n, func(in *Interp, fr *frame, r *RV, a []Value) Value {
			if r == nil || r.addr == nil || r.ro {
				in.reflectPanic("reflect.Value.%s using unaddressable value", n)
			}
			in.store(r.addr, conv(in, r, a))
			return nil
		})
	}
	setter("Set", func(in *Interp, r *RV, a []Value) Value {
		x := getRV(a[1])
		if x == nil || !in.assignable(x.t, r.t) {
			s := "zero Value"
			if x != nil {
				s = rtypeString(x.t)
			}
			in.reflectPanic("reflect.Set: value of type %s is not assignable to type %s", s, rtypeString(r.t))
		}
		return in.assignTo(x.get(), x.t, r.t)
	})
	setter("SetInt", func(in *Interp, r *RV, a []Value) Value {
		return in.convert(a[1], types.Typ[types.Int64], r.t, typeInfo(types.Typ[types.Int64]), typeInfo(r.t))
	})
	setter("SetUint", func(in *Interp, r *RV, a []Value) Value {
		return in.convert(a[1], types.Typ[types.Uint64], r.t, typeInfo(types.Typ[types.Uint64]), typeInfo(r.t))
	})
	setter("SetFloat", func(in *Interp, r *RV, a []Value) Value {
		return in.convert(a[1], types.Typ[types.Float64], r.t, typeInfo(types.Typ[types.Float64]), typeInfo(r.t))
	})
	setter("SetBool", func(in *Interp, r *RV, a []Value) Value { return a[1] })
	setter("SetString", func(in *Interp, r *RV, a []Value) Value { return a[1] })
	setter("SetBytes", func(in *Interp, r *RV, a []Value) Value { return a[1] })
	setter("SetZero", func(in *Interp, r *RV, a []Value) Value { return zero(r.t) })
	setter("SetLen", func(in *Interp, r *RV, a []Value) Value { s := r.get().(Slice); return s[:cint(in, a[1])] })
	setter("SetCap", func(in *Interp, r *RV, a []Value) Value {
		s := r.get().(Slice)
		return s[:len(s):cint(in, a[1])]
	})
	setter("Grow", func(in *Interp, r *RV, a []Value) Value {
		s := r.get().(Slice)
		n := cint(in, a[1])
		if len(s)+n <= cap(s) {
			return s
		}
		et := r.t.Underlying().(*types.Slice).Elem()
		q := makeSlice(et, len(s), growCap(cap(s), len(s)+n, et))
		copy(q, s)
		return q
	})
	V("Slice", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		i, j := cint(in, a[1]), cint(in, a[2])
		switch x := r.get().(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x) {
				in.reflectPanic("reflect.Value.Slice: slice index out of bounds")
			}
			return mkRV(&RV{t: r.t, v: x[i:j]})
		case string, *Str, *LStr:
			s := in.force(x)
			if i < 0 || j < i || j > in.slen(s) {
				in.reflectPanic("reflect.Value.Slice: string slice index out of bounds")
			}
			return mkRV(&RV{t: r.t, v: in.ssub(s, i, j)})
		case Array:
			if r.addr != nil {
				return mkRV(&RV{t: types.NewSlice(r.t.Underlying().(*types.Array).Elem()), v: Slice((*r.addr).(Array))[i:j]})
			}
		}
		in.sameKindCheck(r, "Slice", false)
		return nil
	})
	V("Slice3", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		i, j, k := cint(in, a[1]), cint(in, a[2]), cint(in, a[3])
		x := r.get().(Slice)
		return mkRV(&RV{t: r.t, v: x[i:j:k]})
	})
	V("Convert", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		to := rt(a[1]).t
		if !types.ConvertibleTo(r.t, to) {
			in.reflectPanic("reflect.Value.Convert: value of type %s cannot be converted to type %s", rtypeString(r.t), rtypeString(to))
		}
		return in.rvConvert(r, to)
	})
	V("CanConvert", func(in *Interp, fr *frame, r *RV, a []Value) Value { return types.ConvertibleTo(r.t, rt(a[1]).t) })
	ov := func(n string, w func(t types.Type) types.Type) {
		V(n, func(in *Interp, fr *frame, r *RV, a []Value) Value {
			wide := w(r.t)
			back := in.convert(in.convert(a[1], wide, r.t, typeInfo(wide), typeInfo(r.t)), r.t, wide, typeInfo(r.t), typeInfo(wide))
			return in.notIf(in.eq(wide, back, a[1]), true)
		})
	}
	ov("OverflowInt", func(types.Type) types.Type { return types.Typ[types.Int64] })
	ov("OverflowUint", func(types.Type) types.Type { return types.Typ[types.Uint64] })
	V("OverflowFloat", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		if kindOf(r.t) == reflect.Float64 {
			return false
		}
		f := a[1].(float64)
		return math.Abs(f) > math.MaxFloat32 && !math.IsInf(f, 0)
	})
	V("Equal", func(in *Interp, fr *frame, r *RV, a []Value) Value {
		q := getRV(a[1])
		if r == nil || q == nil {
			return r == nil && q == nil
		}
		return in.eq(types.NewInterfaceType(nil, nil), in.rvIface(r), in.rvIface(q))
	})
	_ = ssa.InstantiateGenerics
}

type rvMapIter struct {
	it  *mapIter
	mt  *types.Map
	cur *mapEntry
}

func (in *Interp) rvElem(r *RV) Value {
	switch u := r.t.Underlying().(type) {
	case *types.Interface:
		i, _ := r.get().(Iface)
		if i.t == nil {
			return mkRV(nil)
		}
		return mkRV(&RV{t: i.t, v: i.v, ro: r.ro})
	case *types.Pointer:
		p, ok := r.get().(Ptr)
		if !ok {
			in.unsupported("Elem of %T", r.get())
		}
		if p == nil {
			return mkRV(nil)
		}
		return mkRV(&RV{t: u.Elem(), addr: p, ro: r.ro})
	}
	in.sameKindCheck(r, "Elem", false)
	return nil
}
