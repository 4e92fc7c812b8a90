package main

import "math"

// Word-level rewriting of floating point terms whose operands are integers converted to float64: such comparisons and conversions are
// expressed over the integers, keeping the floating point form only for magnitudes above 2^53 (where the conversion rounds).

const exact53 = int64(1) << 53

func (ts *TS) asInt64(t *Term) *Term {
	if t.a.sort == 64 {
		return t.a
	}
	return ts.Op1(oSext, 64, t.a, 0)
}

func (ts *TS) exactInt(x *Term) *Term {
	if l, h := interval(x, 0); -exact53 <= l && h <= exact53 {
		return ts.True
	} else if h < -exact53 || l > exact53 {
		return ts.False
	}
	lo, hi := ts.C(64, ^uint64(exact53)+1), ts.C(64, uint64(exact53))
	return ts.And(ts.Op2(oSle, sBool, lo, x), ts.Op2(oSle, sBool, x, hi))
}

// firstInt is the smallest int64 x such that pred(float64(x)) holds, for a monotone predicate; ok=false when there is none.
func firstInt(pred func(float64) bool) (int64, bool) {
	lo, hi := int64(math.MinInt64), int64(math.MaxInt64)
	if !pred(float64(hi)) {
		return 0, false
	}
	for lo < hi {
		mid := lo + int64(uint64(hi-lo)/2)
		if pred(float64(mid)) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo, true
}

func (ts *TS) geInt(x *Term, t int64, ok bool) *Term {
	if !ok {
		return ts.False
	}
	if t == math.MinInt64 {
		return ts.True
	}
	return ts.Op2(oSle, sBool, ts.C(64, uint64(t)), x)
}

func iteDepth(t *Term) int {
	if t.op != oIte {
		return 0
	}
	l, r := iteDepth(t.b), iteDepth(t.c)
	if r > l {
		l = r
	}
	return l + 1
}

// fCmp rewrites a comparison (oFLt, oFLe, oFEq) of float64 terms; nil when no rewriting applies.
func (ts *TS) fCmp(op Op, a, b *Term) *Term {
	if a.sort != sF64 {
		return nil
	}
	if a == b {
		if op == oFLt {
			return ts.False
		}
		return ts.Not(ts.Op1(oFIsNaN, sBool, a, 0))
	}
	// float64(int64(x)) is x truncated, up to the sign of zero which comparisons ignore
	back := func(t *Term) *Term {
		if t.op == oSToF && t.a.sort == 64 && t.a.op == oIte && t.a.b.op == oFToS && t.a.b.a.sort == sF64 && t.a.c.isC() {
			return ts.Ite(t.a.a, ts.Op1(oFRound, sF64, t.a.b.a, 4), ts.Op1(oSToF, sF64, t.a.c, 0))
		}
		return nil
	}
	if t := back(a); t != nil {
		return ts.Ite(t.a, ts.Op2(op, sBool, t.b, b), ts.Op2(op, sBool, t.c, b))
	}
	if t := back(b); t != nil {
		return ts.Ite(t.a, ts.Op2(op, sBool, a, t.b), ts.Op2(op, sBool, a, t.c))
	}
	intish := func(t *Term) bool { return t.op == oSToF && t.a.sort <= 64 }
	if a.isC() || b.isC() {
		la, ha, ok1 := finterval(a, 0)
		lb, hb, ok2 := finterval(b, 0)
		if ok1 && ok2 {
			switch {
			case ha < lb:
				return map[bool]*Term{true: ts.True, false: ts.False}[op != oFEq]
			case la > hb, op == oFLt && la >= hb:
				return ts.False
			case op == oFLe && ha <= lb:
				return ts.True
			}
		}
		// sign tests of a quotient or product by a constant of known sign
		if x, c, ok := ts.quotient(a); ok && b.isC() && fv(b.val, sF64) == 0 {
			z := ts.C(64, 0)
			if c < 0 && op != oFEq {
				return map[Op]func() *Term{
					oFLt: func() *Term { return ts.Op2(oSlt, sBool, z, x) },
					oFLe: func() *Term { return ts.Op2(oSle, sBool, z, x) },
				}[op]()
			}
			return ts.Op2(map[Op]Op{oFLt: oSlt, oFLe: oSle, oFEq: oEq}[op], sBool, x, z)
		}
	}
	if op == oFEq && a.op == oFRound && a.a == b {
		if x, c, ok := ts.quotient(b); ok {
			return ts.Eq(ts.Op2(oSrem, 64, x, ts.C(64, uint64(c))), ts.C(64, 0))
		}
	}
	leafOK := func(t *Term) bool { return t.isC() || intish(t) }
	if (a.op == oIte || b.op == oIte) && iteDepth(a)+iteDepth(b) <= 8 && ts.iteLeaves(a, leafOK) && ts.iteLeaves(b, leafOK) {
		if a.op == oIte {
			return ts.Ite(a.a, ts.Op2(op, sBool, a.b, b), ts.Op2(op, sBool, a.c, b))
		}
		return ts.Ite(b.a, ts.Op2(op, sBool, a, b.b), ts.Op2(op, sBool, a, b.c))
	}
	switch {
	case intish(a) && b.isC():
		x, c := ts.asInt64(a), fv(b.val, sF64)
		if math.IsNaN(c) {
			return ts.False
		}
		ge, ok := firstInt(func(f float64) bool { return f >= c })
		gt, ok2 := firstInt(func(f float64) bool { return f > c })
		switch op {
		case oFLt:
			return ts.Not(ts.geInt(x, ge, ok))
		case oFLe:
			return ts.Not(ts.geInt(x, gt, ok2))
		case oFEq:
			if ok && ok2 && gt == ge+1 {
				return ts.Eq(x, ts.C(64, uint64(ge)))
			}
			return ts.And(ts.geInt(x, ge, ok), ts.Not(ts.geInt(x, gt, ok2)))
		}
	case a.isC() && intish(b):
		x, c := ts.asInt64(b), fv(a.val, sF64)
		if math.IsNaN(c) {
			return ts.False
		}
		switch op {
		case oFLt: // c < f(x)
			gt, ok := firstInt(func(f float64) bool { return f > c })
			return ts.geInt(x, gt, ok)
		case oFLe:
			ge, ok := firstInt(func(f float64) bool { return f >= c })
			return ts.geInt(x, ge, ok)
		case oFEq:
			return ts.fCmp(op, b, a)
		}
	case intish(a) && intish(b):
		x, y := ts.asInt64(a), ts.asInt64(b)
		both := ts.And(ts.exactInt(x), ts.exactInt(y))
		switch op {
		case oFLt:
			lt := ts.Op2(oSlt, sBool, x, y)
			if both == ts.True {
				return lt
			}
			return ts.And(lt, ts.Or(both, ts.mk(op, sBool, a, b, nil, 0, "")))
		case oFLe:
			le := ts.Op2(oSle, sBool, x, y)
			if both == ts.True {
				return le
			}
			return ts.Or(le, ts.And(ts.Not(both), ts.mk(op, sBool, a, b, nil, 0, "")))
		case oFEq:
			eq := ts.Eq(x, y)
			if both == ts.True {
				return eq
			}
			return ts.Or(eq, ts.And(ts.Not(both), ts.mk(op, sBool, a, b, nil, 0, "")))
		}
	}
	return nil
}

func (ts *TS) iteLeaves(t *Term, ok func(*Term) bool) bool {
	if t.op == oIte {
		return ts.iteLeaves(t.b, ok) && ts.iteLeaves(t.c, ok)
	}
	return ok(t)
}

// fUnary rewrites predicates and roundings of integer-valued floats; nil when no rewriting applies.
func (ts *TS) fUnary(op Op, s Sort, a *Term, val uint64) *Term {
	if a.sort != sF64 {
		return nil
	}
	if a.op == oIte && iteDepth(a) <= 8 && ts.iteLeaves(a, func(t *Term) bool { return t.isC() || t.op == oSToF }) {
		return ts.Ite(a.a, ts.Op1(op, s, a.b, val), ts.Op1(op, s, a.c, val))
	}
	if op == oFIsNaN || op == oFIsInf {
		if l, h, ok := finterval(a, 0); ok && !math.IsInf(l, 0) && !math.IsInf(h, 0) {
			return ts.False
		}
	}
	if a.op == oSToF {
		switch op {
		case oFRound:
			return a
		case oFIsNaN, oFIsInf:
			return ts.False
		case oFAbs:
			x := ts.asInt64(a)
			if l, h := interval(x, 0); l > -exact53 && h < exact53 {
				return ts.Op1(oSToF, s, ts.Ite(ts.Op2(oSlt, sBool, x, ts.C(64, 0)), ts.Op1(oNeg, 64, x, 0), x), 0)
			}
		}
	}
	if a.op == oFRound {
		switch op {
		case oFRound:
			return a
		case oFIsNaN, oFIsInf:
			return ts.Op1(op, s, a.a, val)
		}
	}
	return nil
}

// fArith rewrites exact integer arithmetic on float64 terms; nil when no rewriting applies.
func (ts *TS) fArith(op Op, s Sort, a, b *Term) *Term {
	if s != sF64 {
		return nil
	}
	if b.isC() && fv(b.val, s) == 1 && (op == oFMul || op == oFDiv) {
		return a
	}
	if a.isC() && fv(a.val, s) == 1 && op == oFMul {
		return b
	}
	if op == oFDiv {
		if x := ts.intOf(a); x != nil && b.isC() && fv(b.val, s) == -1 {
			if l, h := interval(x, 0); l >= -exact53 && h <= exact53 {
				return ts.Ite(ts.Eq(x, ts.C(64, 0)), ts.C(s, 1<<63), ts.Op1(oSToF, s, ts.Op1(oNeg, 64, x, 0), 0))
			}
		}
		return nil
	}
	x, y := ts.intOf(a), ts.intOf(b)
	if x == nil || y == nil {
		negz := func(t *Term) bool { return t.isC() && t.val == 1<<63 }
		leaf := func(t *Term) bool { return t.isC() || t.op == oSToF }
		switch {
		case (a.op == oIte || b.op == oIte) && iteDepth(a)+iteDepth(b) <= 6 && ts.iteLeaves(a, leaf) && ts.iteLeaves(b, leaf):
			if a.op == oIte {
				return ts.Ite(a.a, ts.Op2(op, s, a.b, b), ts.Op2(op, s, a.c, b))
			}
			return ts.Ite(b.a, ts.Op2(op, s, a, b.b), ts.Op2(op, s, a, b.c))
		case negz(a) && y != nil && op == oFAdd:
			return b
		case negz(b) && x != nil && op == oFAdd:
			return a
		case negz(a) && y != nil && op == oFMul:
			return ts.Ite(ts.Op2(oSlt, sBool, y, ts.C(64, 0)), ts.C(s, 0), a)
		case negz(b) && x != nil && op == oFMul:
			return ts.Ite(ts.Op2(oSlt, sBool, x, ts.C(64, 0)), ts.C(s, 0), b)
		}
		return nil
	}
	l1, h1 := interval(x, 0)
	l2, h2 := interval(y, 0)
	if l1 < -exact53 || h1 > exact53 || l2 < -exact53 || h2 > exact53 {
		return nil
	}
	var r *Term
	switch op {
	case oFAdd:
		r = ts.Op2(oAdd, 64, x, y)
	case oFSub:
		r = ts.Op2(oSub, 64, x, y)
	case oFMul:
		// a zero times a negative number is -0, which integers cannot express
		if l1 <= 0 && h1 >= 0 && l2 < 0 || l2 <= 0 && h2 >= 0 && l1 < 0 {
			r = ts.Op2(oMul, 64, x, y)
			if l, h := interval(r, 0); l < -exact53 || h > exact53 {
				return nil
			}
			z := ts.C(64, 0)
			neg := ts.Or(ts.And(ts.Eq(x, z), ts.Op2(oSlt, sBool, y, z)), ts.And(ts.Eq(y, z), ts.Op2(oSlt, sBool, x, z)))
			return ts.Ite(neg, ts.C(s, 1<<63), ts.Op1(oSToF, s, r, 0))
		}
		r = ts.Op2(oMul, 64, x, y)
	default:
		return nil
	}
	if l, h := interval(r, 0); l < -exact53 || h > exact53 {
		return nil
	}
	return ts.Op1(oSToF, sF64, r, 0)
}

// intOf is the integer a float64 term was converted from (nil if none, or for -0).
func (ts *TS) intOf(t *Term) *Term {
	if t.op == oSToF && t.a.sort <= 64 {
		return ts.asInt64(t)
	}
	if t.isC() {
		f := fv(t.val, sF64)
		if f == math.Trunc(f) && math.Abs(f) <= float64(exact53) && !(f == 0 && math.Signbit(f)) {
			return ts.C(64, uint64(int64(f)))
		}
	}
	return nil
}

// interval is a conservative signed interval of a 64-bit term, from its structure alone.
func interval(t *Term, depth int) (int64, int64) {
	full := func() (int64, int64) { return math.MinInt64, math.MaxInt64 }
	if depth > 12 {
		return full()
	}
	const big = int64(1) << 61
	switch t.op {
	case oConst:
		v := sx(t.val, t.sort)
		return v, v
	case oSext:
		w := uint(t.a.sort)
		if w < 64 {
			l, h := -(int64(1) << (w - 1)), int64(1)<<(w-1)-1
			return l, h
		}
	case oZext:
		if w := uint(t.a.sort); w < 63 {
			return 0, int64(1)<<w - 1
		}
	case oIte:
		l1, h1 := interval(t.b, depth+1)
		l2, h2 := interval(t.c, depth+1)
		if l2 < l1 {
			l1 = l2
		}
		if h2 > h1 {
			h1 = h2
		}
		return l1, h1
	case oAdd, oSub:
		l1, h1 := interval(t.a, depth+1)
		l2, h2 := interval(t.b, depth+1)
		if t.sort != 64 || l1 < -big || h1 > big || l2 < -big || h2 > big {
			return full()
		}
		if t.op == oAdd {
			return l1 + l2, h1 + h2
		}
		return l1 - h2, h1 - l2
	case oSrem:
		l, h := interval(t.a, depth+1)
		if t.sort == 64 && t.b.isC() {
			if c := sx(t.b.val, 64); c != 0 && c > -big && c < big {
				if c < 0 {
					c = -c
				}
				if l < -(c - 1) {
					l = -(c - 1)
				}
				if h > c-1 {
					h = c - 1
				}
				if l > 0 {
					l = 0
				}
				if h < 0 {
					h = 0
				}
			}
			return l, h
		}
	case oBand, oBor, oBxor:
		// Both sign extensions from the same width stay sign extensions from this width
		if t.sort == 64 {
			l1, h1 := interval(t.a, depth+1)
			l2, h2 := interval(t.b, depth+1)
			for k := uint(1); k < 62; k++ {
				if m := int64(1) << k; l1 >= -m && l2 >= -m && h1 < m && h2 < m {
					if l1 >= 0 && l2 >= 0 {
						return 0, m - 1
					}
					return -m, m - 1
				}
			}
		}
	case oBnot:
		if t.sort == 64 {
			l, h := interval(t.a, depth+1)
			return ^h, ^l
		}
	case oNeg:
		l, h := interval(t.a, depth+1)
		if t.sort == 64 && l > -big {
			return -h, -l
		}
	case oMul:
		l1, h1 := interval(t.a, depth+1)
		l2, h2 := interval(t.b, depth+1)
		const r = int64(1) << 30
		if t.sort == 64 && l1 > -r && h1 < r && l2 > -r && h2 < r {
			lo, hi := l1*l2, l1*l2
			for _, v := range []int64{l1 * h2, h1 * l2, h1 * h2} {
				if v < lo {
					lo = v
				}
				if v > hi {
					hi = v
				}
			}
			return lo, hi
		}
	}
	return full()
}

// quotient recognises a float division of a converted integer by a constant integer, both small enough for the quotient to be a
// whole number exactly when the division is exact (and to never round up to or across an integer otherwise).
func (ts *TS) quotient(t *Term) (x *Term, c int64, ok bool) {
	if t.op != oFDiv || t.sort != sF64 || !t.b.isC() || t.a.op != oSToF {
		return
	}
	f := fv(t.b.val, sF64)
	if f != math.Trunc(f) || f == 0 || math.Abs(f) >= 1<<52 {
		return
	}
	x = ts.asInt64(t.a)
	if l, h := interval(x, 0); l <= -1<<52 || h >= 1<<52 {
		return
	}
	return x, int64(f), true
}

// finterval bounds a float64 term that is never NaN (ok=false when that is not known).
func finterval(t *Term, depth int) (lo, hi float64, ok bool) {
	if depth > 8 {
		return
	}
	switch t.op {
	case oConst:
		f := fv(t.val, sF64)
		return f, f, f == f
	case oSToF:
		if t.a.sort > 64 {
			return
		}
		l, h := int64(math.MinInt64), int64(math.MaxInt64)
		if t.a.sort == 64 {
			l, h = interval(t.a, 0)
		} else {
			l, h = -(int64(1) << (uint(t.a.sort) - 1)), int64(1)<<(uint(t.a.sort)-1)-1
		}
		return float64(l), float64(h), true
	case oIte:
		l1, h1, ok1 := finterval(t.b, depth+1)
		l2, h2, ok2 := finterval(t.c, depth+1)
		return math.Min(l1, l2), math.Max(h1, h2), ok1 && ok2
	case oFRound:
		l, h, ok := finterval(t.a, depth+1)
		return math.Floor(l), math.Ceil(h), ok
	case oFDiv, oFMul:
		if !t.b.isC() {
			return
		}
		c := fv(t.b.val, sF64)
		l, h, ok := finterval(t.a, depth+1)
		if !ok || c == 0 || c != c || math.IsInf(c, 0) || math.IsInf(l, 0) || math.IsInf(h, 0) {
			return 0, 0, false
		}
		a, b := l*c, h*c
		if t.op == oFDiv {
			a, b = l/c, h/c
		}
		if a > b {
			a, b = b, a
		}
		return a, b, true
	}
	return
}
