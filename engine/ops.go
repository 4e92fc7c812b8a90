package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok && c.Type().Underlying().(*types.Basic).Kind() == types.UntypedNil {
			return Iface{}
		}
		return zero(c.Type())
	}
	ti := typeInfo(c.Type())
	switch ti.cls {
	case cBool:
		return constant.BoolVal(c.Value)
	case cInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return uint64(i) & mask(ti.sort)
		}
		u, _ := constant.Uint64Val(v)
		return u & mask(ti.sort)
	case cFloat:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if ti.sort == sF32 {
			f = float64(float32(f))
		}
		return f
	case cString:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return string(rune(i))
		}
		return constant.StringVal(c.Value)
	case cComplex:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case cUnsafe:
		return UPtr{}
	}
	panic(fmt.Sprintf("constVal %v %v", c, c.Type()))
}

func (in *Interp) notIf(v Value, neg bool) Value {
	if !neg {
		return v
	}
	if b, ok := v.(bool); ok {
		return !b
	}
	return in.norm(in.ts.Not(v.(*Term)))
}

func (in *Interp) and(a, b Value) Value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return in.norm(in.ts.And(a.(*Term), b.(*Term)))
}

// truth decides a boolean value, forking when it is symbolic.
func (in *Interp) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return in.branch(v.(*Term))
}

func (in *Interp) streq(a, b Value) Value {
	if la, ok := a.(*LStr); ok && !la.float {
		if lb, ok := b.(*LStr); ok && !lb.float {
			x, y := in.wide(la), in.wide(lb)
			e := in.ts.Eq(x, y)
			if la.signed != lb.signed {
				e = in.ts.And(e, in.ts.Not(in.ts.Op2(oSlt, sBool, x, in.ts.C(64, 0))))
			}
			return in.norm(e)
		}
	}
	if l, ok := a.(*LStr); ok && !l.float {
		if r := in.lstrEq(l, b); r != nil {
			return r
		}
	}
	if l, ok := b.(*LStr); ok && !l.float {
		if r := in.lstrEq(l, a); r != nil {
			return r
		}
	}
	a, b = in.force(a), in.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if in.slen(a) != in.slen(b) {
		return false
	}
	x, y := in.sbytes(a), in.sbytes(b)
	r := in.ts.True
	for i := range x {
		e := in.ts.Eq(in.term(x[i], 8), in.term(y[i], 8))
		if e == in.ts.False {
			return false
		}
		r = in.ts.And(r, e)
	}
	return in.norm(r)
}

// wide is the integer of a lazy text extended to 64 bits.
func (in *Interp) wide(l *LStr) *Term {
	if l.t.sort == 64 {
		return l.t
	}
	if l.signed {
		return in.ts.Op1(oSext, 64, l.t, 0)
	}
	return in.ts.Op1(oZext, 64, l.t, 0)
}

// lstrEq compares the decimal text of an integer with a string of known length, without forking: the string must be the
// canonical decimal form of that integer. nil when the length is out of the supported range.
func (in *Interp) lstrEq(l *LStr, s Value) Value {
	switch s.(type) {
	case string, *Str:
	default:
		return nil
	}
	b := in.sbytes(s)
	if len(b) == 0 {
		return false
	}
	if c, ok := s.(string); ok && !lstrShape(c) {
		return false
	}
	if len(b) > 20 {
		return false
	}
	if len(b) > 18 {
		return nil
	}
	ts := in.ts
	x := in.wide(l)
	number := func(d []Value) (*Term, *Term) { // well-formed, value
		ok, val := ts.True, ts.C(64, 0)
		for i, v := range d {
			t := in.term(v, 8)
			q := ts.Op2(oSub, 8, t, ts.C(8, '0'))
			ok = ts.And(ok, ts.Op2(oUlt, sBool, q, ts.C(8, 10)))
			if i == 0 && len(d) > 1 {
				ok = ts.And(ok, ts.Not(ts.Eq(q, ts.C(8, 0))))
			}
			val = ts.Op2(oAdd, 64, ts.Op2(oMul, 64, val, ts.C(64, 10)), ts.Op1(oZext, 64, q, 0))
		}
		return ok, val
	}
	ok, val := number(b)
	r := ts.And(ok, ts.Eq(x, val))
	if l.signed && len(b) > 1 {
		ok, val := number(b[1:])
		ok = ts.And(ok, ts.Not(ts.Eq(val, ts.C(64, 0))))
		ok = ts.And(ok, ts.Eq(in.term(b[0], 8), ts.C(8, '-')))
		r = ts.Or(r, ts.And(ok, ts.Eq(x, ts.Op1(oNeg, 64, val, 0))))
	}
	return in.norm(r)
}

func lstrShape(s string) bool {
	if s == "" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			if i == 0 && s[i] == '-' && len(s) > 1 {
				continue
			}
			return false
		}
	}
	return true
}

// strless builds a < b (or a <= b).
func (in *Interp) strless(a, b Value, orEq bool) Value {
	a, b = in.force(a), in.force(b)
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	x, y := in.sbytes(a), in.sbytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if len(x) == len(y) {
		r = in.ts.C(sBool, b2u(orEq))
	} else {
		r = in.ts.C(sBool, b2u(len(x) < len(y)))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := in.term(x[i], 8), in.term(y[i], 8)
		r = in.ts.Ite(in.ts.Eq(p, q), r, in.ts.Op2(oUlt, sBool, p, q))
	}
	return in.norm(r)
}

// eq compares two values of static type t with Go's ==.
func (in *Interp) eq(t types.Type, a, b Value) Value {
	switch x := a.(type) {
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		if y, ok := b.(*Term); ok {
			return in.norm(in.ts.Eq(y, in.ts.C(y.sort, x)))
		}
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		if y, ok := b.(*Term); ok {
			return in.norm(in.ts.Eq(y, in.ts.C(sBool, b2u(x))))
		}
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
		if y, ok := b.(*Term); ok {
			return in.norm(in.ts.Op2(oFEq, sBool, in.ts.C(y.sort, fb(x, y.sort)), y))
		}
	case *Term:
		if x.sort >= 100 {
			return in.norm(in.ts.Op2(oFEq, sBool, x, in.term(b, x.sort)))
		}
		return in.norm(in.ts.Eq(x, in.term(b, x.sort)))
	case string, *Str, *LStr:
		return in.streq(a, b)
	case complex128:
		return x == b.(complex128)
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		}
		if x == nil {
			return false
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		if !types.Comparable(x.t) {
			in.rtPanic("comparing uncomparable type %s", x.t)
		}
		return in.eq(x.t, x.v, y.v)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = in.and(r, in.eq(st.Field(i).Type(), x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Array:
		y := b.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range x {
			r = in.and(r, in.eq(et, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case Slice: // comparison with nil
		if y, ok := b.(Slice); ok && (x == nil || y == nil) {
			return x == nil && y == nil
		}
	case *Map:
		return x == b.(*Map)
	case *Closure:
		if y, ok := b.(*Closure); ok && (x == nil || y == nil) {
			return x == nil && y == nil
		}
		return a == b
	case *Chan:
		return x == b.(*Chan)
	case *RType:
		y, ok := b.(*RType)
		return ok && x == y
	case *Opaque:
		y, ok := b.(*Opaque)
		return ok && x == y
	case UPtr:
		y, ok := b.(UPtr)
		if !ok {
			break
		}
		if x.v == nil || y.v == nil {
			return isNilPtr(x.v) && isNilPtr(y.v)
		}
		return in.eq(nil, x.v, y.v)
	}
	in.unsupported("== of %T and %T", a, b)
	return nil
}

func isNilPtr(v Value) bool {
	if v == nil {
		return true
	}
	p, ok := v.(Ptr)
	return ok && p == nil
}

func (in *Interp) binop(op token.Token, ti, yti tinfo, a, b Value) Value {
	switch ti.cls {
	case cInt:
		return in.intBin(op, ti, yti, a, b)
	case cFloat:
		return in.floatBin(op, ti, a, b)
	case cString:
		switch op {
		case token.ADD:
			return in.sconcat(a, b)
		case token.LSS:
			return in.strless(a, b, false)
		case token.LEQ:
			return in.strless(a, b, true)
		case token.GTR:
			return in.strless(b, a, false)
		case token.GEQ:
			return in.strless(b, a, true)
		}
	case cBool:
		x, y := in.term(a, sBool), in.term(b, sBool)
		switch op {
		case token.AND, token.LAND:
			return in.norm(in.ts.And(x, y))
		case token.OR, token.LOR:
			return in.norm(in.ts.Or(x, y))
		}
	case cComplex:
		x, y := a.(complex128), b.(complex128)
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	in.unsupported("binop %v on %T", op, a)
	return nil
}

func (in *Interp) intBin(op token.Token, ti, yti tinfo, a, b Value) Value {
	s := ti.sort
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if op == token.SHL || op == token.SHR {
		return in.shift(op, ti, yti, a, b)
	}
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return (x + y) & mask(s)
		case token.SUB:
			return (x - y) & mask(s)
		case token.MUL:
			return (x * y) & mask(s)
		case token.QUO, token.REM:
			if y == 0 {
				in.rtPanic("integer divide by zero")
			}
			if ti.signed {
				if op == token.QUO {
					return apply(oSdiv, s, s, 0, x, y, 0)
				}
				return apply(oSrem, s, s, 0, x, y, 0)
			}
			if op == token.QUO {
				return x / y
			}
			return x % y
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		}
		if ti.signed {
			p, q := sx(x, s), sx(y, s)
			switch op {
			case token.LSS:
				return p < q
			case token.LEQ:
				return p <= q
			case token.GTR:
				return p > q
			case token.GEQ:
				return p >= q
			}
		}
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	ts := in.ts
	p, q := in.term(a, s), in.term(b, s)
	lt, le := oUlt, oUle
	div, rem := oUdiv, oUrem
	if ti.signed {
		lt, le, div, rem = oSlt, oSle, oSdiv, oSrem
	}
	var r *Term
	switch op {
	case token.ADD:
		r = ts.Op2(oAdd, s, p, q)
	case token.SUB:
		r = ts.Op2(oSub, s, p, q)
	case token.MUL:
		r = ts.Op2(oMul, s, p, q)
	case token.QUO, token.REM:
		if in.branch(ts.Eq(q, ts.C(s, 0))) {
			in.rtPanic("integer divide by zero")
		}
		if op == token.QUO {
			r = ts.Op2(div, s, p, q)
		} else {
			r = ts.Op2(rem, s, p, q)
		}
	case token.AND:
		r = ts.Op2(oBand, s, p, q)
	case token.OR:
		r = ts.Op2(oBor, s, p, q)
	case token.XOR:
		r = ts.Op2(oBxor, s, p, q)
	case token.AND_NOT:
		r = ts.Op2(oBand, s, p, ts.Op1(oBnot, s, q, 0))
	case token.LSS:
		r = ts.Op2(lt, sBool, p, q)
	case token.LEQ:
		r = ts.Op2(le, sBool, p, q)
	case token.GTR:
		r = ts.Op2(lt, sBool, q, p)
	case token.GEQ:
		r = ts.Op2(le, sBool, q, p)
	default:
		in.unsupported("int op %v", op)
	}
	return in.norm(r)
}

func (in *Interp) shift(op token.Token, ti, yti tinfo, a, b Value) Value {
	s := ti.sort
	ts := in.ts
	if y, ok := b.(uint64); ok {
		if yti.signed && sx(y, yti.sort) < 0 {
			in.rtPanic("negative shift amount")
		}
		if x, ok := a.(uint64); ok {
			o := oShl
			if op == token.SHR {
				o = oLshr
				if ti.signed {
					o = oAshr
				}
			}
			return apply(o, s, s, 0, x, y, 0)
		}
		if y > 64 {
			y = 64
		}
		b = y
	}
	x := in.term(a, s)
	var y *Term
	if c, ok := b.(uint64); ok {
		if c >= uint64(s) {
			if op == token.SHR && ti.signed {
				c = uint64(s) - 1
			} else {
				return uint64(0)
			}
		}
		y = ts.C(s, c)
	} else {
		y = b.(*Term)
		if yti.signed {
			if in.branch(ts.Op2(oSlt, sBool, y, ts.C(y.sort, 0))) {
				in.rtPanic("negative shift amount")
			}
		}
		switch {
		case y.sort < s:
			y = ts.Op1(oZext, s, y, 0)
		case y.sort > s:
			big := ts.Op2(oUle, sBool, ts.C(y.sort, uint64(s)), y)
			y = ts.Ite(big, ts.C(s, uint64(s)), ts.Op1(oExtract, s, y, 0))
		}
	}
	o := oShl
	if op == token.SHR {
		o = oLshr
		if ti.signed {
			o = oAshr
		}
	}
	return in.norm(ts.Op2(o, s, x, y))
}

func (in *Interp) floatBin(op token.Token, ti tinfo, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 {
		var r float64
		switch op {
		case token.ADD:
			r = x + y
		case token.SUB:
			r = x - y
		case token.MUL:
			r = x * y
		case token.QUO:
			r = x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
		if ti.sort == sF32 {
			r = float64(float32(r))
		}
		return r
	}
	ts, s := in.ts, ti.sort
	p, q := in.term(a, s), in.term(b, s)
	switch op {
	case token.ADD:
		return in.norm(ts.Op2(oFAdd, s, p, q))
	case token.SUB:
		return in.norm(ts.Op2(oFSub, s, p, q))
	case token.MUL:
		return in.norm(ts.Op2(oFMul, s, p, q))
	case token.QUO:
		return in.norm(ts.Op2(oFDiv, s, p, q))
	case token.LSS:
		return in.norm(ts.Op2(oFLt, sBool, p, q))
	case token.LEQ:
		return in.norm(ts.Op2(oFLe, sBool, p, q))
	case token.GTR:
		return in.norm(ts.Op2(oFLt, sBool, q, p))
	case token.GEQ:
		return in.norm(ts.Op2(oFLe, sBool, q, p))
	}
	in.unsupported("float op %v", op)
	return nil
}

// concretize forks until t has a single value.
func (in *Interp) concretize(t *Term) uint64 {
	if t.isC() {
		return t.val
	}
	for n := 0; n < 300; n++ {
		var v uint64
		if in.pos < len(in.trail) {
			// replay: the recorded decision carries the value
			v = in.trailVal()
		} else {
			v = in.ts.eval(t, in.needModel())
		}
		if in.branchVal(in.ts.Eq(t, in.ts.C(t.sort, v)), v) {
			return v
		}
	}
	in.unsupported("concretize: too many values")
	return 0
}

// index checks bounds and returns a concrete index.
func (in *Interp) index(v Value, ti tinfo, n int) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if ti.signed {
			i = sx(x, ti.sort)
		}
		if i < 0 || i >= int64(n) {
			in.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return int(i)
	case *Term:
		if !in.branch(in.inRange(x, ti, n)) {
			in.rtPanic("index out of range [symbolic] with length %d", n)
		}
		return int(in.concretize(x))
	}
	in.unsupported("index %T", v)
	return 0
}

func (in *Interp) inRange(x *Term, ti tinfo, n int) *Term {
	if x.sort < 64 && uint64(n) > mask(x.sort) && !ti.signed {
		return in.ts.True
	}
	return in.ts.Op2(oUlt, sBool, x, in.ts.C(x.sort, uint64(n)))
}

// bound checks 0 <= v <= max.
func (in *Interp) bound(v Value, ti tinfo, max int, msg string) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if ti.signed {
			i = sx(x, ti.sort)
		}
		if i < 0 || i > int64(max) {
			in.rtPanic(msg, i, max)
		}
		return int(i)
	case *Term:
		if !in.branch(in.inRange(x, ti, max+1)) {
			in.rtPanic("slice bounds out of range [symbolic] with capacity %d", max)
		}
		return int(in.concretize(x))
	}
	in.unsupported("bound %T", v)
	return 0
}

func (in *Interp) makeLen(v Value, ti tinfo) int {
	switch x := v.(type) {
	case uint64:
		i := int64(x)
		if ti.signed {
			i = sx(x, ti.sort)
		}
		if i < 0 || i > 1<<40 {
			in.rtPanic("makeslice: len out of range")
		}
		if i > 1<<24 {
			panic(&abort{abLimit, "huge allocation"})
		}
		return int(i)
	case *Term:
		if ti.signed && in.branch(in.ts.Op2(oSlt, sBool, x, in.ts.C(x.sort, 0))) {
			in.rtPanic("makeslice: len out of range")
		}
		return int(in.concretize(x))
	}
	in.unsupported("makeLen %T", v)
	return 0
}

func makeSlice(et types.Type, n, c int) Slice {
	s := make(Slice, c)
	z := zero(et)
	switch z.(type) {
	case Struct, Array:
		for i := range s {
			s[i] = copyVal(z)
		}
	default:
		for i := range s {
			s[i] = z
		}
	}
	return s[:n]
}

// indexVal reads element i of a string/array value, with an ite table when i is symbolic.
func (in *Interp) indexVal(o, ix Value, iti, eti tinfo) Value {
	o = in.force(o)
	if t, ok := ix.(*Term); ok {
		var vals []Value
		switch b := o.(type) {
		case string, *Str:
			vals = in.sbytes(b)
		case Array:
			vals = b
		case Slice:
			vals = b
		}
		if !in.branch(in.inRange(t, iti, len(vals))) {
			in.rtPanic("index out of range [symbolic] with length %d", len(vals))
		}
		if v, ok := in.iteTable(t, vals, eti); ok {
			return v
		}
		return copyVal(vals[in.concretize(t)])
	}
	switch b := o.(type) {
	case string:
		return uint64(b[in.index(ix, iti, len(b))])
	case *Str:
		return b.b[in.index(ix, iti, len(b.b))]
	case Array:
		return copyVal(b[in.index(ix, iti, len(b))])
	case Slice:
		return copyVal(b[in.index(ix, iti, len(b))])
	}
	in.unsupported("index of %T", o)
	return nil
}

func (in *Interp) iteTable(t *Term, vals []Value, eti tinfo) (Value, bool) {
	if eti.cls != cInt && eti.cls != cBool {
		return nil, false
	}
	for _, v := range vals {
		switch v.(type) {
		case uint64, bool, *Term:
		default:
			return nil, false
		}
	}
	r := in.term(vals[len(vals)-1], eti.sort)
	for i := len(vals) - 2; i >= 0; i-- {
		x := in.term(vals[i], eti.sort)
		// group equal runs from the left: value x applies to indices <= i
		if x == r {
			continue
		}
		// emit: t <= i ? x-chain : r ; handled as ite(t<=i, X, r) with X built by later iterations, so use equality on runs
		j := i
		for j > 0 && in.term(vals[j-1], eti.sort) == x {
			j--
		}
		var c *Term
		if j == i {
			c = in.ts.Eq(t, in.ts.C(t.sort, uint64(i)))
		} else {
			c = in.ts.Op2(oUle, sBool, t, in.ts.C(t.sort, uint64(i)))
			if j > 0 {
				c = in.ts.And(in.ts.Op2(oUle, sBool, in.ts.C(t.sort, uint64(j)), t), c)
			}
		}
		r = in.ts.Ite(c, x, r)
		i = j
	}
	return in.norm(r), true
}

// ---- conversions ----

func (in *Interp) fToInt(v Value, w Sort, signed bool) Value {
	switch x := v.(type) {
	case float64:
		if signed {
			if w == 32 {
				return uint64(int32(x)) & mask(w)
			}
			return uint64(int64(x)) & mask(w)
		}
		if w == 64 {
			return uint64(x)
		}
		return uint64(int64(x)) & mask(w)
	case *Term:
		ts := in.ts
		fs := x.sort
		if x.op == oSToF && x.a.sort <= 53 || x.op == oSToF && x.a.sort == w && x.a.op == oSext && x.a.a.sort <= 53 {
			if x.a.sort == w && signed {
				return in.norm(x.a)
			}
		}
		if x.op == oIte && iteDepth(x) <= 8 && ts.iteLeaves(x, func(t *Term) bool { return t.isC() || t.op == oSToF }) {
			return in.norm(ts.Ite(x.a, in.term(in.fToInt(in.norm(x.b), w, signed), w), in.term(in.fToInt(in.norm(x.c), w, signed), w)))
		}
		if n, d, ok := ts.quotient(x); ok && w == 64 && signed {
			return in.norm(ts.Op2(oSdiv, 64, n, ts.C(64, uint64(d))))
		}
		c := func(f float64) *Term { return ts.C(fs, fb(f, fs)) }
		iw := Sort(64)
		if w == 32 && signed {
			iw = 32
		}
		lim := math.Ldexp(1, int(iw)-1)
		lo := ts.Op2(oFLt, sBool, c(-lim-1), x)
		if iw == 64 {
			lo = ts.Op2(oFLe, sBool, c(-lim), x)
		}
		ok := ts.And(lo, ts.Op2(oFLt, sBool, x, c(lim)))
		r := ts.Ite(ok, ts.Op1(oFToS, iw, x, 0), ts.C(iw, 1<<(iw-1)))
		if x.op == oSToF && x.a.sort == 64 && iw == 64 {
			r = ts.Ite(ts.exactInt(x.a), x.a, r)
		}
		if !signed && w == 64 {
			in.unsupported("symbolic float to uint64")
		}
		if iw > w {
			r = ts.Op1(oExtract, w, r, 0)
		}
		return in.norm(r)
	}
	in.unsupported("fToInt %T", v)
	return nil
}

func (in *Interp) convert(v Value, from, to types.Type, fi, ti tinfo) Value {
	switch {
	case fi.cls == cInt && ti.cls == cInt:
		switch x := v.(type) {
		case uint64:
			if fi.signed {
				return uint64(sx(x, fi.sort)) & mask(ti.sort)
			}
			return x & mask(ti.sort)
		case *Term:
			if ti.sort == fi.sort {
				return x
			}
			if ti.sort < fi.sort {
				return in.norm(in.ts.Op1(oExtract, ti.sort, x, 0))
			}
			if fi.signed {
				return in.norm(in.ts.Op1(oSext, ti.sort, x, 0))
			}
			return in.norm(in.ts.Op1(oZext, ti.sort, x, 0))
		case UPtr:
			return v
		}
	case fi.cls == cInt && ti.cls == cFloat:
		switch x := v.(type) {
		case uint64:
			var f float64
			if fi.signed {
				f = float64(sx(x, fi.sort))
				if ti.sort == sF32 {
					f = float64(float32(sx(x, fi.sort)))
				}
			} else {
				f = float64(x)
				if ti.sort == sF32 {
					f = float64(float32(x))
				}
			}
			return f
		case *Term:
			if fi.signed {
				return in.norm(in.ts.Op1(oSToF, ti.sort, x, 0))
			}
			return in.norm(in.ts.Op1(oUToF, ti.sort, x, 0))
		}
	case fi.cls == cFloat && ti.cls == cInt:
		return in.fToInt(v, ti.sort, ti.signed)
	case fi.cls == cFloat && ti.cls == cFloat:
		switch x := v.(type) {
		case float64:
			if ti.sort == sF32 {
				return float64(float32(x))
			}
			return x
		case *Term:
			return in.norm(in.ts.Op1(oFToF, ti.sort, x, 0))
		}
	case fi.cls == cComplex && ti.cls == cComplex:
		return v
	case fi.cls == cString && ti.cls == cString:
		return v
	case fi.cls == cInt && ti.cls == cString:
		switch x := v.(type) {
		case uint64:
			return string(rune(sx(x, fi.sort)))
		case *Term:
			if x.sort < 32 {
				x = in.ts.Op1(oZext, 32, x, 0)
			} else if x.sort > 32 {
				in.unsupported("string(wide int)")
			}
			return mkStr(in.runeBytes(x))
		}
	case fi.cls == cString && ti.cls == cOther:
		// string -> []byte / []rune
		et := to.Underlying().(*types.Slice).Elem()
		if typeInfo(et).sort == 8 {
			b := in.sbytes(v)
			r := make(Slice, len(b))
			copy(r, b)
			return r
		}
		it := &strIter{s: in.force(v)}
		r := Slice{}
		for {
			t := it.next(in)
			if t[0] == false {
				break
			}
			r = append(r, t[2])
		}
		return r
	case fi.cls == cOther && ti.cls == cString:
		s, ok := v.(Slice)
		if !ok {
			break
		}
		et := from.Underlying().(*types.Slice).Elem()
		if typeInfo(et).sort == 8 {
			b := make([]Value, len(s))
			copy(b, s)
			return mkStr(b)
		}
		var b []Value
		for _, r := range s {
			switch x := r.(type) {
			case uint64:
				b = append(b, bytesVals(string(rune(sx(x, 32))))...)
			case *Term:
				b = append(b, in.runeBytes(x)...)
			}
		}
		return mkStr(b)
	case ti.cls == cUnsafe:
		if u, ok := v.(UPtr); ok {
			return u
		}
		return UPtr{v}
	case fi.cls == cUnsafe:
		u, ok := v.(UPtr)
		if !ok {
			break
		}
		if ti.cls == cPtr {
			if u.v == nil {
				return Ptr(nil)
			}
			return u.v
		}
		if ti.cls == cInt {
			return UPtr{u.v}
		}
		return u.v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	in.unsupported("convert %v -> %v (%T)", from, to, v)
	return nil
}

// runeBytes encodes a symbolic rune (32-bit).
func (in *Interp) runeBytes(r *Term) []Value {
	ts := in.ts
	if r.isC() {
		return bytesVals(string(rune(int32(r.val))))
	}
	if in.branch(ts.Op2(oUlt, sBool, r, ts.C(32, 0x80))) {
		return []Value{in.norm(ts.Op1(oExtract, 8, r, 0))}
	}
	ap := in.p.byPath["unicode/utf8"].Func("AppendRune")
	res := in.call(in.curFr, ap, []Value{Slice(nil), r}, nil)
	return res.(Slice)
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(in *Interp) Tuple {
	n := in.slen(it.s)
	if it.i >= n {
		return Tuple{false, uint64(0), uint64(0)}
	}
	i := it.i
	switch s := it.s.(type) {
	case string:
		for _, r := range s[i:] {
			w := len(string(r))
			if r == 0xfffd {
				w = decodeWidth(s[i:])
			}
			it.i += w
			return Tuple{true, uint64(i), uint64(uint32(r))}
		}
	case *Str:
		switch b := s.b[i].(type) {
		case uint64:
			if b < 0x80 {
				it.i++
				return Tuple{true, uint64(i), b}
			}
		case *Term:
			if in.branch(in.ts.Op2(oUlt, sBool, b, in.ts.C(8, 0x80))) {
				it.i++
				return Tuple{true, uint64(i), in.norm(in.ts.Op1(oZext, 32, b, 0))}
			}
		}
		r, w := in.decodeRune(in.ssub(s, i, n))
		it.i += w
		return Tuple{true, uint64(i), r}
	}
	in.unsupported("range over %T", it.s)
	return nil
}

// decodeRune decodes the first rune of a non-empty string value by running the real decoder.
func (in *Interp) decodeRune(s Value) (Value, int) {
	if c, ok := s.(string); ok {
		for _, r := range c {
			w := len(string(r))
			if r == 0xfffd {
				w = decodeWidth(c)
			}
			return uint64(uint32(r)), w
		}
	}
	t := in.call(in.curFr, in.p.byPath["unicode/utf8"].Func("DecodeRuneInString"), []Value{s}, nil).(Tuple)
	w := t[1]
	if wt, ok := w.(*Term); ok {
		w = in.concretize(wt)
	}
	return t[0], int(w.(uint64))
}

func decodeWidth(s string) int {
	if strings.HasPrefix(s, "\uFFFD") {
		return 3
	}
	return 1
}

// ---- maps ----

func (in *Interp) newMap() *Map {
	return &Map{idx: map[interface{}]int{}, gen: in.gen}
}

func (in *Interp) touchMap(m *Map) {
	if in.noUndo > 0 || m.gen == in.gen {
		return
	}
	o := &Map{gen: m.gen, sym: m.sym}
	o.ents = make([]*mapEntry, len(m.ents))
	for i, e := range m.ents {
		if e != nil {
			c := *e
			o.ents[i] = &c
		}
	}
	if m.idx != nil {
		o.idx = make(map[interface{}]int, len(m.idx))
		for k, v := range m.idx {
			o.idx[k] = v
		}
	}
	m.old = o
	m.gen = in.gen
	in.mapUndo = append(in.mapUndo, m)
}

func (in *Interp) mapFind(m *Map, k Value, mt *types.Map) int {
	if m == nil {
		return -1
	}
	k = in.force(k)
	if i, ok := k.(Iface); ok {
		if l, ok := i.v.(*LStr); ok {
			k = Iface{i.t, in.force(l)}
		}
		if i.t != nil && !types.Comparable(i.t) {
			in.rtPanic("hash of unhashable type %s", i.t)
		}
	}
	if !m.sym {
		if h, ok := hkey(k); ok {
			if f, isF := k.(float64); isF && f != f {
				return -1
			}
			if i, ok := m.idx[h]; ok {
				return i
			}
			return -1
		}
	}
	for i, e := range m.ents {
		if e == nil {
			continue
		}
		if in.truth(in.eq(mt.Key(), e.k, k)) {
			return i
		}
	}
	return -1
}

func (in *Interp) mapGet(m *Map, k Value, mt *types.Map) (Value, bool) {
	if in.par != nil && m != nil && !m.sync {
		in.note(m, false)
	}
	i := in.mapFind(m, k, mt)
	if i < 0 {
		return nil, false
	}
	return m.ents[i].v, true
}

func (in *Interp) mapSet(m *Map, k, v Value, mt *types.Map) {
	if in.par != nil && !m.sync {
		in.note(m, true)
	}
	in.touchMap(m)
	i := in.mapFind(m, k, mt)
	if i >= 0 {
		m.ents[i].v = v
		return
	}
	k = in.force(k)
	if !m.sym {
		if h, ok := hkey(k); ok {
			m.idx[h] = len(m.ents)
		} else {
			m.sym = true
		}
	}
	m.ents = append(m.ents, &mapEntry{k, v})
}

func (in *Interp) mapDelete(m *Map, k Value, mt *types.Map) {
	if m == nil {
		return
	}
	if in.par != nil && !m.sync {
		in.note(m, true)
	}
	in.touchMap(m)
	i := in.mapFind(m, k, mt)
	if i < 0 {
		return
	}
	m.ents = append(append([]*mapEntry{}, m.ents[:i]...), m.ents[i+1:]...)
	if !m.sym {
		m.idx = map[interface{}]int{}
		for j, e := range m.ents {
			h, _ := hkey(e.k)
			m.idx[h] = j
		}
	}
}

func (in *Interp) mapLen(m *Map) int {
	if m == nil {
		return 0
	}
	if in.par != nil && !m.sync {
		in.note(m, false)
	}
	return len(m.ents)
}

type mapIter struct {
	m    *Map
	ents []*mapEntry
	i    int
}

func (in *Interp) mapRange(m *Map, mt *types.Map) *mapIter {
	it := &mapIter{m: m}
	if m == nil {
		return it
	}
	if in.par != nil && !m.sync {
		in.note(m, false)
	}
	it.ents = append(it.ents, m.ents...)
	n := len(it.ents)
	if n > 1 && in.symInit == 0 {
		switch in.mapOrder {
		case 1:
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
			}
		case 2: // every rotation and direction
			if n <= 4 {
				k := in.choose(n)
				it.ents = append(append([]*mapEntry{}, it.ents[k:]...), it.ents[:k]...)
				if n > 2 && in.choose(2) == 1 {
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
					}
				}
			} else if in.choose(2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
				}
			}
		}
	}
	return it
}

// mapHas tells whether the entry is still in the map (deleted entries are skipped by iteration).
func (in *Interp) mapHas(m *Map, e *mapEntry) bool {
	for _, x := range m.ents {
		if x == e {
			return true
		}
	}
	// the map may have been snapshotted; compare by key when entry objects were replaced
	return false
}

func (in *Interp) mapEnt(m *Map, e *mapEntry) Value { return e.v }

func (p *Program) implements(t types.Type, it *types.Interface) bool {
	type key struct {
		t  types.Type
		it *types.Interface
	}
	k := key{t, it}
	if v, ok := p.methods.Load(k); ok {
		return v.(bool)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	r := types.Implements(t, it)
	p.methods.Store(k, r)
	return r
}

// ---- builtins ----

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return uint64(len(x))
		case *Str:
			return uint64(len(x.b))
		case *LStr:
			return uint64(in.slen(x))
		case Slice:
			return uint64(len(x))
		case Array:
			return uint64(len(x))
		case *Map:
			return uint64(in.mapLen(x))
		case *Chan:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		case Ptr:
			return uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(cap(x))
		case Array:
			return uint64(len(x))
		case *Chan:
			return uint64(x.cap)
		case Ptr:
			return uint64(cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		var et types.Type
		if cc != nil {
			et = cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		s, _ := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			return in.appendSlice(s, y, et)
		default:
			return in.appendSlice(s, Slice(in.sbytes(y)), et)
		}
	case "copy":
		d, _ := args[0].(Slice)
		var src []Value
		if s, ok := args[1].(Slice); ok {
			src = s
			if in.par != nil {
				for i := 0; i < len(s) && i < len(d); i++ {
					in.noteVal(&s[i], false)
				}
			}
		} else {
			src = in.sbytes(args[1])
		}
		n := len(src)
		if len(d) < n {
			n = len(d)
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			in.store(&d[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		m, _ := args[0].(*Map)
		in.mapDelete(m, args[1], cc.Args[0].Type().Underlying().(*types.Map))
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				if in.par != nil {
					in.note(x, true)
				}
				in.touchMap(x)
				x.ents, x.idx, x.sym = nil, map[interface{}]int{}, false
			}
		case Slice:
			z := zero(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				in.store(&x[i], z)
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], at: in.where()})
	case "recover":
		if c := fr.caller; c != nil && c.panicking {
			c.panicking = false
			v := c.panicV.v
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		args[0].(*Chan).closed = true
		return nil
	case "min", "max":
		t := cc.Args[0].Type()
		ti := typeInfo(t)
		r := args[0]
		for _, a := range args[1:] {
			var c Value
			if b.Name() == "min" {
				c = in.binop(token.LSS, ti, ti, a, r)
			} else {
				c = in.binop(token.GTR, ti, ti, a, r)
			}
			if ti.cls == cFloat {
				f, ok := a.(float64)
				g, ok2 := r.(float64)
				if !ok || !ok2 {
					in.unsupported("symbolic float min/max")
				}
				if b.Name() == "min" {
					r = math.Min(g, f)
				} else {
					r = math.Max(g, f)
				}
				continue
			}
			r = in.ite(c, a, r, ti)
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.rtPanic("value method %v.%v called using nil pointer", args[1], args[2])
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	case "SliceData":
		s := args[0].(Slice)
		return UPtr{s}
	case "String": // unsafe.String(ptr, len)
		if u, ok := args[0].(UPtr); ok {
			if s, ok := u.v.(Slice); ok {
				n := int(args[1].(uint64))
				return mkStr(append([]Value{}, s[:n]...))
			}
		}
	case "StringData":
		return UPtr{Slice(in.sbytes(args[0]))}
	case "Slice":
		if u, ok := args[0].(UPtr); ok {
			if s, ok := u.v.(Slice); ok {
				return s[:int(args[1].(uint64))]
			}
		}
	}
	in.unsupported("builtin %s on %v", b.Name(), typesOf(args))
	return nil
}

func typesOf(a []Value) string {
	var s []string
	for _, x := range a {
		s = append(s, fmt.Sprintf("%T", x))
	}
	return strings.Join(s, ",")
}

func (in *Interp) ite(c, a, b Value, ti tinfo) Value {
	if x, ok := c.(bool); ok {
		if x {
			return a
		}
		return b
	}
	if ti.cls == cInt || ti.cls == cBool || ti.cls == cFloat {
		return in.norm(in.ts.Ite(c.(*Term), in.term(a, ti.sort), in.term(b, ti.sort)))
	}
	if in.branch(c.(*Term)) {
		return a
	}
	return b
}

func (in *Interp) appendSlice(s, y Slice, et types.Type) Slice {
	if len(y) == 0 {
		return s
	}
	n := len(s) + len(y)
	if in.par != nil {
		for i := range y {
			in.noteVal(&y[i], false)
		}
		if n > cap(s) {
			for i := range s {
				in.noteVal(&s[i], false)
			}
		}
	}
	tmp := make([]Value, len(y))
	for i := range y {
		tmp[i] = copyVal(y[i])
	}
	if n <= cap(s) {
		r := s[:n]
		for i := range tmp {
			in.store(&r[len(s)+i], tmp[i])
		}
		return r
	}
	c := n
	if et != nil {
		c = growCap(cap(s), n, et)
	}
	r := make(Slice, c)
	copy(r, s)
	for i := range s {
		switch s[i].(type) {
		case Struct, Array:
			r[i] = copyVal(s[i])
		}
	}
	copy(r[len(s):], tmp)
	if c > n {
		z := zero(et)
		for i := n; i < c; i++ {
			r[i] = copyVal(z)
		}
	}
	return r[:n]
}

var stdSizes = types.SizesFor("gc", "amd64")

// growCap asks the real runtime how it grows a slice of that element size.
func growCap(oldCap, need int, et types.Type) int {
	sz := stdSizes.Sizeof(et)
	switch sz {
	case 0:
		return need
	case 1:
		s := append(make([]byte, oldCap), make([]byte, need-oldCap)...)
		return cap(s)
	case 4:
		s := append(make([]int32, oldCap), make([]int32, need-oldCap)...)
		return cap(s)
	case 8:
		s := append(make([]int64, oldCap), make([]int64, need-oldCap)...)
		return cap(s)
	case 16:
		s := append(make([]string, oldCap), make([]string, need-oldCap)...)
		return cap(s)
	case 24:
		s := append(make([][]int, oldCap), make([][]int, need-oldCap)...)
		return cap(s)
	}
	if oldCap*2 > need {
		return oldCap * 2
	}
	return need
}

// ---- rendering of values for observations (must match verifrt.Render) ----

func (in *Interp) evalScalar(t *Term) Value {
	if t.isC() {
		return in.norm(t)
	}
	v := in.ts.eval(t, in.needModel())
	return in.norm(in.ts.C(t.sort, v))
}

func (in *Interp) evalStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *Str:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch y := x.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(in.ts.eval(y, in.needModel()))
			}
		}
		return string(b)
	case *LStr:
		v := in.evalScalar(s.t)
		if f, ok := v.(float64); ok {
			return fmtFloat(f)
		}
		if s.signed {
			return fmt.Sprint(sx(v.(uint64), s.t.sort))
		}
		return fmt.Sprint(v.(uint64))
	}
	return fmt.Sprintf("?%T", v)
}

func (in *Interp) render(v Value, t types.Type, depth int) string {
	if depth > 8 {
		return "..."
	}
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		return in.render(i.v, i.t, depth+1)
	}
	if tm, ok := v.(*Term); ok {
		v = in.evalScalar(tm)
	}
	switch x := v.(type) {
	case uint64:
		if t != nil {
			if ti := typeInfo(t); ti.signed {
				return fmt.Sprint(sx(x, ti.sort))
			}
		}
		return fmt.Sprint(x)
	case bool:
		return fmt.Sprint(x)
	case float64:
		return fmtFloat(x)
	case string, *Str, *LStr:
		return fmt.Sprintf("%q", in.evalStr(v))
	case Slice:
		var et types.Type
		if t != nil {
			if st, ok := t.Underlying().(*types.Slice); ok {
				et = st.Elem()
			}
		}
		var s []string
		for _, e := range x {
			s = append(s, in.render(e, et, depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case *Map:
		if x == nil {
			return "map[]"
		}
		var kt, vt types.Type
		if t != nil {
			if mt, ok := t.Underlying().(*types.Map); ok {
				kt, vt = mt.Key(), mt.Elem()
			}
		}
		var s []string
		for _, e := range x.ents {
			s = append(s, in.render(e.k, kt, depth+1)+":"+in.render(e.v, vt, depth+1))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case Ptr:
		if x == nil {
			return "nil"
		}
		return "&" + in.render(*x, nil, depth+1)
	case Struct:
		var s []string
		st, _ := t.(*types.Named)
		for i, e := range x {
			var ft types.Type
			if st != nil {
				if u, ok := st.Underlying().(*types.Struct); ok {
					ft = u.Field(i).Type()
				}
			}
			s = append(s, in.render(e, ft, depth+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprintf("<%T>", v)
}
