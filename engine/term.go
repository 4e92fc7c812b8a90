package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sort of a term: 0 = Bool, 1..64 = bit-vector of that width, sF64/sF32 = IEEE floats.
type Sort uint8

const (
	sBool Sort = 0
	sF64  Sort = 200
	sF32  Sort = 201
)

func (s Sort) smt() string {
	switch s {
	case sBool:
		return "Bool"
	case sF64:
		return "(_ FloatingPoint 11 53)"
	case sF32:
		return "(_ FloatingPoint 8 24)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

// Op is a term constructor.
type Op uint8

const (
	oConst Op = iota
	oVar
	oNot
	oAnd
	oOr
	oEq
	oIte
	oAdd
	oSub
	oMul
	oUdiv
	oSdiv
	oUrem
	oSrem
	oBand
	oBor
	oBxor
	oBnot
	oNeg
	oShl
	oLshr
	oAshr
	oUlt
	oUle
	oSlt
	oSle
	oZext
	oSext
	oExtract // val = hi<<8|lo
	oConcat
	oFFromBits
	oFToBits
	oFAdd
	oFSub
	oFMul
	oFDiv
	oFNeg
	oFAbs
	oFSqrt
	oFRound // val: 0 RNE 1 RNA 2 RTP 3 RTN 4 RTZ
	oFEq
	oFLt
	oFLe
	oFIsNaN
	oFIsInf
	oFToS // float -> signed bv (RTZ); caller guards range
	oFToU
	oSToF
	oUToF
	oFToF
	oUF // function of the standard library left uninterpreted: val is its index in ufs
)

var opNames = map[Op]string{oNot: "not", oAnd: "and", oOr: "or", oEq: "=", oIte: "ite", oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul",
	oUdiv: "bvudiv", oSdiv: "bvsdiv", oUrem: "bvurem", oSrem: "bvsrem", oBand: "bvand", oBor: "bvor", oBxor: "bvxor", oBnot: "bvnot", oNeg: "bvneg",
	oShl: "bvshl", oLshr: "bvlshr", oAshr: "bvashr", oUlt: "bvult", oUle: "bvule", oSlt: "bvslt", oSle: "bvsle", oConcat: "concat",
	oFAdd: "fp.add RNE", oFSub: "fp.sub RNE", oFMul: "fp.mul RNE", oFDiv: "fp.div RNE", oFNeg: "fp.neg", oFAbs: "fp.abs", oFSqrt: "fp.sqrt RNE",
	oFEq: "fp.eq", oFLt: "fp.lt", oFLe: "fp.leq", oFIsNaN: "fp.isNaN", oFIsInf: "fp.isInfinite", oFToBits: "fp.to_ieee_bv"}

var roundModes = []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}

// Term is a hash-consed expression.
type Term struct {
	op      Op
	sort    Sort
	nv      uint8 // 0 constant, 1 single variable (v1), 2 several
	id      int32
	a, b, c *Term
	val     uint64
	name    string
	v1      *Term
	size    int32
	epoch   uint32
	ev      uint64
	tt      *ttable
	defined bool
}

// ttable is the truth table of a Bool term over a single variable of width <= 8.
type ttable [4]uint64

func (t *ttable) and(o *ttable) ttable {
	return ttable{t[0] & o[0], t[1] & o[1], t[2] & o[2], t[3] & o[3]}
}
func (t *ttable) not() ttable { return ttable{^t[0], ^t[1], ^t[2], ^t[3]} }
func (t *ttable) empty() bool { return t[0]|t[1]|t[2]|t[3] == 0 }
func (t *ttable) first() int {
	for i := 0; i < 4; i++ {
		if t[i] != 0 {
			return i*64 + bits.TrailingZeros64(t[i])
		}
	}
	return -1
}
func (t *ttable) has(v uint64) bool { return t[v>>6&3]>>(v&63)&1 == 1 }

type tkey struct {
	op      Op
	sort    Sort
	a, b, c *Term
	val     uint64
	name    string
}

// TS is a term store.
type TS struct {
	m     map[tkey]*Term
	n     int32
	epoch uint32
	vars  []*Term
	True  *Term
	False *Term
}

func newTS() *TS {
	ts := &TS{m: map[tkey]*Term{}}
	ts.True = ts.mk(oConst, sBool, nil, nil, nil, 1, "")
	ts.False = ts.mk(oConst, sBool, nil, nil, nil, 0, "")
	return ts
}

func (ts *TS) mk(op Op, s Sort, a, b, c *Term, val uint64, name string) *Term {
	k := tkey{op, s, a, b, c, val, name}
	if t, ok := ts.m[k]; ok {
		return t
	}
	ts.n++
	t := &Term{op: op, sort: s, a: a, b: b, c: c, val: val, name: name, id: ts.n, size: 1}
	for _, x := range []*Term{a, b, c} {
		if x == nil {
			continue
		}
		t.size += x.size
		if t.size > 1<<20 {
			t.size = 1 << 20
		}
		switch {
		case x.nv == 0:
		case x.nv == 2:
			t.nv = 2
		case t.nv == 0:
			t.nv, t.v1 = 1, x.v1
		case t.nv == 1 && t.v1 != x.v1:
			t.nv, t.v1 = 2, nil
		}
	}
	if op == oVar {
		t.nv, t.v1 = 1, t
		ts.vars = append(ts.vars, t)
	}
	if t.nv == 2 {
		t.v1 = nil
	}
	ts.m[k] = t
	return t
}

func mask(s Sort) uint64 {
	if s == sBool {
		return 1
	}
	if s >= 64 {
		if s == sF32 {
			return 0xffffffff
		}
		return ^uint64(0)
	}
	return 1<<s - 1
}

// C makes a constant of sort s.
func (ts *TS) C(s Sort, v uint64) *Term {
	if s == sBool {
		if v != 0 {
			return ts.True
		}
		return ts.False
	}
	return ts.mk(oConst, s, nil, nil, nil, v&mask(s), "")
}

// Var makes (or returns) the variable of that name.
func (ts *TS) Var(name string, s Sort) *Term { return ts.mk(oVar, s, nil, nil, nil, 0, name) }

func sx(v uint64, s Sort) int64 {
	if s >= 64 {
		return int64(v)
	}
	sh := 64 - uint(s)
	return int64(v<<sh) >> sh
}

func fv(v uint64, s Sort) float64 {
	if s == sF32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fb(f float64, s Sort) uint64 {
	if s == sF32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// apply evaluates an operator on constant operands.
func apply(op Op, s Sort, as Sort, val, x, y, z uint64) uint64 {
	switch op {
	case oNot:
		return x ^ 1
	case oAnd:
		return x & y
	case oOr:
		return x | y
	case oEq:
		return b2u(x == y)
	case oIte:
		if x != 0 {
			return y
		}
		return z
	case oAdd:
		return (x + y) & mask(s)
	case oSub:
		return (x - y) & mask(s)
	case oMul:
		return (x * y) & mask(s)
	case oUdiv:
		if y == 0 {
			return mask(s)
		}
		return x / y
	case oSdiv:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			if a < 0 {
				return 1
			}
			return mask(s)
		}
		if b == -1 {
			return uint64(-a) & mask(s)
		}
		return uint64(a/b) & mask(s)
	case oUrem:
		if y == 0 {
			return x
		}
		return x % y
	case oSrem:
		a, b := sx(x, s), sx(y, s)
		if b == 0 {
			return x
		}
		if b == -1 {
			return 0
		}
		return uint64(a%b) & mask(s)
	case oBand:
		return x & y
	case oBor:
		return x | y
	case oBxor:
		return x ^ y
	case oBnot:
		return ^x & mask(s)
	case oNeg:
		return -x & mask(s)
	case oShl:
		if y >= uint64(s) {
			return 0
		}
		return x << y & mask(s)
	case oLshr:
		if y >= uint64(s) {
			return 0
		}
		return x >> y
	case oAshr:
		if y >= uint64(s) {
			y = uint64(s) - 1
		}
		return uint64(sx(x, s)>>y) & mask(s)
	case oUlt:
		return b2u(x < y)
	case oUle:
		return b2u(x <= y)
	case oSlt:
		return b2u(sx(x, as) < sx(y, as))
	case oSle:
		return b2u(sx(x, as) <= sx(y, as))
	case oZext:
		return x
	case oSext:
		return uint64(sx(x, as)) & mask(s)
	case oExtract:
		return x >> (val & 0xff) & mask(s)
	case oConcat:
		return 0 // handled by caller
	case oFFromBits, oFToBits:
		return x
	case oFAdd:
		if s == sF32 {
			return uint64(math.Float32bits(math.Float32frombits(uint32(x)) + math.Float32frombits(uint32(y))))
		}
		return fb(fv(x, s)+fv(y, s), s)
	case oFSub:
		return fb(fv(x, s)-fv(y, s), s)
	case oFMul:
		return fb(fv(x, s)*fv(y, s), s)
	case oFDiv:
		return fb(fv(x, s)/fv(y, s), s)
	case oFNeg:
		return fb(-fv(x, s), s)
	case oFAbs:
		return fb(math.Abs(fv(x, s)), s)
	case oFSqrt:
		return fb(math.Sqrt(fv(x, s)), s)
	case oFRound:
		f := fv(x, s)
		switch val {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Round(f)
		case 2:
			f = math.Ceil(f)
		case 3:
			f = math.Floor(f)
		default:
			f = math.Trunc(f)
		}
		return fb(f, s)
	case oFEq:
		return b2u(fv(x, as) == fv(y, as))
	case oFLt:
		return b2u(fv(x, as) < fv(y, as))
	case oFLe:
		return b2u(fv(x, as) <= fv(y, as))
	case oFIsNaN:
		return b2u(math.IsNaN(fv(x, as)))
	case oFIsInf:
		return b2u(math.IsInf(fv(x, as), 0))
	case oFToS:
		return uint64(int64(fv(x, as))) & mask(s)
	case oFToU:
		return uint64(fv(x, as)) & mask(s)
	case oSToF:
		if s == sF32 {
			return uint64(math.Float32bits(float32(sx(x, as))))
		}
		return fb(float64(sx(x, as)), s)
	case oUToF:
		if s == sF32 {
			return uint64(math.Float32bits(float32(x)))
		}
		return fb(float64(x), s)
	case oFToF:
		return fb(fv(x, as), s)
	case oUF:
		return fb(ufs[val].call(fv(x, as), fv(y, as)), s)
	}
	panic(fmt.Sprint("apply: bad op ", op))
}

func (t *Term) isC() bool { return t.op == oConst }

// Op1 builds a unary term.
func (ts *TS) Op1(op Op, s Sort, a *Term, val uint64) *Term {
	if a.isC() {
		return ts.C(s, apply(op, s, a.sort, val, a.val, 0, 0))
	}
	switch op {
	case oNot:
		if a.op == oNot {
			return a.a
		}
	case oBnot, oNeg:
		if a.op == op {
			return a.a
		}
	case oZext:
		if a.sort == s {
			return a
		}
		if a.op == oZext {
			a = a.a
		}
		if a.op == oIte && a.b.isC() && a.c.isC() {
			return ts.Ite(a.a, ts.C(s, a.b.val), ts.C(s, a.c.val))
		}
	case oSext:
		if a.sort == s {
			return a
		}
		if a.op == oZext {
			return ts.Op1(oZext, s, a.a, 0)
		}
	case oExtract:
		lo := val & 0xff
		if lo == 0 && a.sort == s {
			return a
		}
		if lo == 0 && (a.op == oZext || a.op == oSext) {
			if a.a.sort == s {
				return a.a
			}
			if a.a.sort > s {
				return ts.Op1(oExtract, s, a.a, val)
			}
			return ts.Op1(a.op, s, a.a, 0)
		}
		if a.op == oIte && a.b.isC() && a.c.isC() {
			return ts.Ite(a.a, ts.Op1(op, s, a.b, val), ts.Op1(op, s, a.c, val))
		}
	case oFFromBits:
		if a.op == oFToBits && a.a.sort == s {
			return a.a
		}
	case oFToBits:
		if a.op == oFFromBits {
			return a.a
		}
	case oFNeg:
		if a.op == oFNeg {
			return a.a
		}
	case oFToF:
		if a.sort == s {
			return a
		}
	case oFRound, oFIsNaN, oFIsInf, oFAbs:
		if r := ts.fUnary(op, s, a, val); r != nil {
			return r
		}
	}
	return ts.mk(op, s, a, nil, nil, val, "")
}

// Not negates a Bool.
func (ts *TS) Not(a *Term) *Term { return ts.Op1(oNot, sBool, a, 0) }

// And is conjunction.
func (ts *TS) And(a, b *Term) *Term {
	if a == ts.False || b == ts.False {
		return ts.False
	}
	if a == ts.True || a == b {
		return b
	}
	if b == ts.True {
		return a
	}
	if a.op == oNot && a.a == b || b.op == oNot && b.a == a {
		return ts.False
	}
	return ts.mk(oAnd, sBool, a, b, nil, 0, "")
}

// Or is disjunction.
func (ts *TS) Or(a, b *Term) *Term {
	if a == ts.True || b == ts.True {
		return ts.True
	}
	if a == ts.False || a == b {
		return b
	}
	if b == ts.False {
		return a
	}
	if a.op == oNot && a.a == b || b.op == oNot && b.a == a {
		return ts.True
	}
	return ts.mk(oOr, sBool, a, b, nil, 0, "")
}

// Ite is if-then-else.
func (ts *TS) Ite(c, a, b *Term) *Term {
	if c == ts.True {
		return a
	}
	if c == ts.False {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == sBool {
		if a == ts.True {
			return ts.Or(c, b)
		}
		if a == ts.False {
			return ts.And(ts.Not(c), b)
		}
		if b == ts.True {
			return ts.Or(ts.Not(c), a)
		}
		if b == ts.False {
			return ts.And(c, a)
		}
	}
	if c.op == oNot {
		return ts.mk(oIte, a.sort, c.a, b, a, 0, "")
	}
	return ts.mk(oIte, a.sort, c, a, b, 0, "")
}

// Eq is equality of bit-vectors/booleans (bit identity, not IEEE equality).
func (ts *TS) Eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %v %v", a.sort, b.sort))
	}
	if a == b {
		return ts.True
	}
	if a.isC() && b.isC() {
		return ts.C(sBool, b2u(a.val == b.val))
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.sort == sBool {
			if b.val == 1 {
				return a
			}
			return ts.Not(a)
		}
		switch a.op {
		case oZext:
			if b.val > mask(a.a.sort) {
				return ts.False
			}
			return ts.Eq(a.a, ts.C(a.a.sort, b.val))
		case oSext:
			n := ts.C(a.a.sort, b.val)
			if uint64(sx(n.val, n.sort))&mask(a.sort) != b.val {
				return ts.False
			}
			return ts.Eq(a.a, n)
		case oAdd:
			if a.b.isC() {
				return ts.Eq(a.a, ts.C(a.sort, b.val-a.b.val))
			}
		case oBxor:
			if a.b.isC() {
				return ts.Eq(a.a, ts.C(a.sort, b.val^a.b.val))
			}
		case oIte:
			if a.b.isC() || a.c.isC() {
				return ts.Ite(a.a, ts.Eq(a.b, b), ts.Eq(a.c, b))
			}
		}
	} else if a.op == oZext && b.op == oZext && a.a.sort == b.a.sort {
		return ts.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.isC() {
		a, b = b, a
	}
	return ts.mk(oEq, sBool, a, b, nil, 0, "")
}

// Op2 builds a binary term.
func (ts *TS) Op2(op Op, s Sort, a, b *Term) *Term {
	switch op {
	case oAnd:
		return ts.And(a, b)
	case oOr:
		return ts.Or(a, b)
	case oEq:
		return ts.Eq(a, b)
	}
	if a.isC() && b.isC() && op != oConcat {
		return ts.C(s, apply(op, s, a.sort, 0, a.val, b.val, 0))
	}
	if a.isC() && (op == oAdd || op == oMul || op == oBand || op == oBor || op == oBxor) {
		a, b = b, a
	}
	if op == oFEq && (a.op == oFRound && a.a == b || b.op == oFRound && b.a == a) {
		// being equal to one's rounding does not depend on the rounding direction
		if b.op == oFRound && b.a == a {
			a, b = b, a
		}
		if a.val != 4 {
			return ts.Op2(op, s, ts.Op1(oFRound, a.sort, b, 4), b)
		}
		if r := ts.fCmp(op, a, b); r != nil {
			return r
		}
		if b.sort == sF64 {
			return ts.Or(ts.Op2(oFLe, sBool, ts.C(sF64, math.Float64bits(1<<52)), ts.Op1(oFAbs, sF64, b, 0)), ts.mk(op, s, a, b, nil, 0, ""))
		}
		return ts.mk(op, s, a, b, nil, 0, "")
	}
	if op == oFLt || op == oFLe || op == oFEq {
		if r := ts.fCmp(op, a, b); r != nil {
			return r
		}
	}
	if op == oFAdd || op == oFSub || op == oFMul || op == oFDiv {
		if r := ts.fArith(op, s, a, b); r != nil {
			return r
		}
	}
	if b.isC() && b.sort < 100 {
		m := mask(b.sort)
		switch op {
		case oAdd:
			if b.val == 0 {
				return a
			}
			if a.op == oAdd && a.b.isC() {
				return ts.Op2(oAdd, s, a.a, ts.C(s, a.b.val+b.val))
			}
		case oSub:
			return ts.Op2(oAdd, s, a, ts.C(s, -b.val))
		case oMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case oBand:
			if b.val == 0 {
				return b
			}
			if b.val == m {
				return a
			}
			if a.op == oZext && b.val&mask(a.a.sort) == mask(a.a.sort) {
				return a
			}
		case oBor:
			if b.val == 0 {
				return a
			}
			if b.val == m {
				return b
			}
		case oBxor:
			if b.val == 0 {
				return a
			}
		case oShl, oLshr, oAshr:
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(s) && op != oAshr {
				return ts.C(s, 0)
			}
		case oUdiv, oSdiv:
			if b.val == 1 {
				return a
			}
		case oUlt:
			if b.val == 0 {
				return ts.False
			}
			if a.op == oZext {
				if b.val > mask(a.a.sort) {
					return ts.True
				}
				return ts.Op2(oUlt, sBool, a.a, ts.C(a.a.sort, b.val))
			}
		case oUle:
			if b.val == m {
				return ts.True
			}
			if a.op == oZext {
				if b.val >= mask(a.a.sort) {
					return ts.True
				}
				return ts.Op2(oUle, sBool, a.a, ts.C(a.a.sort, b.val))
			}
		case oSlt, oSle:
			if a.op == oZext { // a is non-negative
				if sx(b.val, b.sort) < 0 {
					return ts.False
				}
				if op == oSlt {
					return ts.Op2(oUlt, sBool, a, b)
				}
				return ts.Op2(oUle, sBool, a, b)
			}
		}
	}
	if a.isC() && a.sort < 100 {
		switch op {
		case oSub:
			if a.val == 0 {
				return ts.Op1(oNeg, s, b, 0)
			}
		case oShl, oLshr:
			if a.val == 0 {
				return a
			}
		case oUlt:
			if a.val == mask(a.sort) {
				return ts.False
			}
			if b.op == oZext {
				if a.val >= mask(b.a.sort) {
					return ts.False
				}
				return ts.Op2(oUlt, sBool, ts.C(b.a.sort, a.val), b.a)
			}
		case oUle:
			if a.val == 0 {
				return ts.True
			}
			if b.op == oZext {
				if a.val > mask(b.a.sort) {
					return ts.False
				}
				return ts.Op2(oUle, sBool, ts.C(b.a.sort, a.val), b.a)
			}
		case oSlt, oSle:
			if b.op == oZext {
				if sx(a.val, a.sort) < 0 {
					return ts.True
				}
				if op == oSlt {
					return ts.Op2(oUlt, sBool, a, b)
				}
				return ts.Op2(oUle, sBool, a, b)
			}
		}
	}
	if a == b {
		switch op {
		case oSub, oBxor:
			return ts.C(s, 0)
		case oBand, oBor:
			return a
		case oUlt, oSlt, oFLt:
			return ts.False
		case oUle, oSle:
			return ts.True
		}
	}
	if a.op == oZext && b.op == oZext && a.a.sort == b.a.sort {
		switch op {
		case oUlt, oSlt:
			return ts.Op2(oUlt, sBool, a.a, b.a)
		case oUle, oSle:
			return ts.Op2(oUle, sBool, a.a, b.a)
		}
	}
	return ts.mk(op, s, a, b, nil, 0, "")
}

// eval computes the value of t under the model (variables absent are 0).
func (ts *TS) eval(t *Term, m map[*Term]uint64) uint64 {
	ts.epoch++
	return ts.ev(t, m)
}

func (ts *TS) ev(t *Term, m map[*Term]uint64) uint64 {
	if t.op == oConst {
		return t.val
	}
	if t.epoch == ts.epoch {
		return t.ev
	}
	var r uint64
	switch t.op {
	case oVar:
		r = m[t]
	case oIte:
		if ts.ev(t.a, m) != 0 {
			r = ts.ev(t.b, m)
		} else {
			r = ts.ev(t.c, m)
		}
	case oAnd:
		r = 0
		if ts.ev(t.a, m) != 0 {
			r = ts.ev(t.b, m)
		}
	case oOr:
		r = 1
		if ts.ev(t.a, m) == 0 {
			r = ts.ev(t.b, m)
		}
	case oConcat:
		r = ts.ev(t.a, m)<<t.b.sort | ts.ev(t.b, m)
	default:
		x := ts.ev(t.a, m)
		var y uint64
		if t.b != nil {
			y = ts.ev(t.b, m)
		}
		r = apply(t.op, t.sort, t.a.sort, t.val, x, y, 0)
	}
	t.epoch, t.ev = ts.epoch, r
	return r
}

// table returns the truth table of a Bool term over one variable of width<=8.
func (ts *TS) table(t *Term) *ttable {
	if t.tt != nil {
		return t.tt
	}
	if t.op == oNot {
		n := ts.table(t.a).not()
		t.tt = &n
		return t.tt
	}
	if t.op == oAnd && t.a.nv == 1 && t.b.nv == 1 {
		n := ts.table(t.a).and(ts.table(t.b))
		t.tt = &n
		return t.tt
	}
	if t.op == oOr && t.a.nv == 1 && t.b.nv == 1 {
		x, y := ts.table(t.a), ts.table(t.b)
		t.tt = &ttable{x[0] | y[0], x[1] | y[1], x[2] | y[2], x[3] | y[3]}
		return t.tt
	}
	r := &ttable{}
	m := map[*Term]uint64{}
	for v := uint64(0); v < 256; v++ {
		vv := v & mask(t.v1.sort)
		m[t.v1] = vv
		if ts.eval(t, m) != 0 {
			r[v>>6] |= 1 << (v & 63)
		}
	}
	if t.v1.sort < 8 {
		// only the low values are real
		lim := mask(t.v1.sort) + 1
		for v := lim; v < 256; v++ {
			r[v>>6] &^= 1 << (v & 63)
		}
	}
	t.tt = r
	return r
}

func constSMT(s Sort, v uint64) string {
	switch s {
	case sBool:
		if v != 0 {
			return "true"
		}
		return "false"
	case sF64:
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", v)
	case sF32:
		return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", v)
	}
	if s%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(s)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(s), v)
}

// smtNode prints one node, given printed operands.
func smtNode(t *Term, ref func(*Term) string) string {
	switch t.op {
	case oConst:
		return constSMT(t.sort, t.val)
	case oVar:
		return t.name
	case oZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", int(t.sort)-int(t.a.sort), ref(t.a))
	case oSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", int(t.sort)-int(t.a.sort), ref(t.a))
	case oExtract:
		lo := int(t.val & 0xff)
		return fmt.Sprintf("((_ extract %d %d) %s)", lo+int(t.sort)-1, lo, ref(t.a))
	case oFFromBits:
		if t.sort == sF32 {
			return fmt.Sprintf("((_ to_fp 8 24) %s)", ref(t.a))
		}
		return fmt.Sprintf("((_ to_fp 11 53) %s)", ref(t.a))
	case oFRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", roundModes[t.val], ref(t.a))
	case oFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", int(t.sort), ref(t.a))
	case oFToU:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", int(t.sort), ref(t.a))
	case oSToF, oFToF:
		if t.sort == sF32 {
			return fmt.Sprintf("((_ to_fp 8 24) RNE %s)", ref(t.a))
		}
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.a))
	case oUToF:
		if t.sort == sF32 {
			return fmt.Sprintf("((_ to_fp_unsigned 8 24) RNE %s)", ref(t.a))
		}
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", ref(t.a))
	}
	var sb strings.Builder
	op := opNames[t.op]
	if t.op == oUF {
		op = ufs[t.val].smt()
	}
	if t.op == oEq && t.a.sort >= 100 {
		op = "="
	}
	sb.WriteString("(")
	sb.WriteString(op)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			sb.WriteString(ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
