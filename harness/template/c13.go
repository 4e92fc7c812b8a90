package template

import (
	"math"
	"strconv"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C13_ints", Verif_C13_ints)
	Register("Verif_C13_floats", Verif_C13_floats)
	Register("Verif_C13_lists", Verif_C13_lists)
	Register("Verif_C13_simplify", Verif_C13_simplify)
	Register("Verif_C13_add", Verif_C13_add)
	Register("Verif_C13_mod", Verif_C13_mod)
	Register("Verif_C13_nonnumeric", Verif_C13_nonnumeric)
}

// base calls a basic math function by its registered name.
func mathf(name string, args ...any_) (any_, error) {
	for _, d := range []dictionary{mathBaseFuncs, mathStatFuncs, mathBitsFuncs, mathUtilFuncs} {
		if f, ok := d[name]; ok {
			return callF(f, args...)
		}
	}
	panic("no function " + name)
}

// whole is what a float result must be presented as: the integer when it is a whole number of the int64 range, else the float.
func whole(f float64) any_ {
	if f >= -9223372036854775808 && f < 9223372036854775808 && math.Trunc(f) == f {
		return int64(f)
	}
	return f
}

// same compares numeric results, NaN being equal to itself.
func same(a, b any_) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok && x != x && y != y {
			return true
		}
	}
	return EqTyped(a, b)
}

func given(i int) any_ {
	switch Choose(3) {
	case 0:
		return i
	case 1:
		return printed(i)
	}
	return int64(i)
}

// Verif_C13_ints: each two-argument operation on ints of magnitude up to 1000 given as int, int64 or text (divisors among 0, 1, -1, 2, 3, -7, 10, 999): result in argument order, division by zero.
func Verif_C13_ints() {
	a, b := IntRange(-1000, 1000), IntRange(-1000, 1000)
	op := Choose(4)
	if op == 3 {
		b = []int{0, 1, -1, 2, 3, -7, 10, 999}[Choose(8)]
	}
	x, y := given(a), given(b)
	fa, fb := float64(a), float64(b)
	switch op {
	case 0:
		r, err := mathf("add", x, y)
		Assert(err == nil && same(r, whole(fa+fb)), "add")
	case 1:
		r, err := mathf("sub", x, y)
		Assert(err == nil && same(r, whole(fa-fb)), "sub")
	case 2:
		r, err := mathf("mul", x, y)
		Assert(err == nil && same(r, whole(fa*fb)), "mul")
	case 3:
		r, err := mathf("div", x, y)
		if b == 0 {
			Assert(err != nil, "division by zero is an error")
			return
		}
		Assert(err == nil && same(r, whole(fa/fb)), "div")
	}
}

// Verif_C13_floats: add and sub of two arbitrary float64 values (every bit pattern), mul and div of one by 0, 2, -0.5, -1, a NaN or infinity.
func Verif_C13_floats() {
	a := Float64()
	var b float64
	op := Choose(4)
	if op < 2 {
		b = Float64()
	} else {
		b = []float64{0, 2, -0.5, -1, math.Inf(1), math.NaN()}[Choose(6)]
	}
	switch op {
	case 0:
		r, err := mathf("add", a, b)
		zero := 0.0 // the sum starts from 0, which the result does not depend on
		Assert(err == nil && same(r, whole(zero+a+b)), "add")
	case 1:
		r, err := mathf("sub", a, b)
		Assert(err == nil && same(r, whole(a-b)), "sub")
	case 2:
		r, err := mathf("mul", a, b)
		Assert(err == nil && same(r, whole(a*b)), "mul")
	case 3:
		r, err := mathf("div", a, b)
		if b == 0 {
			Assert(err != nil, "division by zero is an error")
			return
		}
		Assert(err == nil && same(r, whole(a/b)), "div")
	}
}

// Verif_C13_simplify: unary functions of one arbitrary float64 (every bit pattern) present the result as an integer exactly when it is a whole int64.
func Verif_C13_simplify() {
	a := Float64()
	var want float64
	name := ""
	switch Choose(5) {
	case 0:
		name, want = "floor", math.Floor(a)
	case 1:
		name, want = "ceil", math.Ceil(a)
	case 2:
		name, want = "trunc", math.Trunc(a)
	case 3:
		name, want = "abs", math.Abs(a)
	case 4:
		name, want = "max", a
	}
	r, err := mathf(name, a)
	Assert(err == nil, name+": no error")
	Assert(same(r, whole(want)), name+": whole results are integers, others unchanged")
}

// Verif_C13_add: add of 1-4 and mul of 1-2 ints of magnitude up to 1000.
func Verif_C13_add() {
	n := 1 + Choose(4)
	args := make([]any_, n)
	sum, prod := 0.0, 1.0
	for i := range args {
		v := IntRange(-1000, 1000)
		args[i] = v
		sum += float64(v)
		prod *= float64(v)
	}
	if Choose(2) == 0 {
		r, err := mathf("add", args...)
		Assert(err == nil && same(r, whole(sum)), "sum")
	} else {
		Assume(n < 3)
		r, err := mathf("mul", args...)
		Assert(err == nil && same(r, whole(prod)), "product")
	}
}

// Verif_C13_lists: unary operations and operations with a scalar among 2, 0, -1, 3, 100 on lists (base, yaml or plain) of 1-3 ints of magnitude up to 100 (0..9 for add and mul) apply to each element.
func Verif_C13_lists() {
	kind := []int{0, 2, flavours}[Choose(3)]
	n := 1 + Choose(3)
	sel := Choose(5)
	lo, hi := -100, 100
	if sel >= 3 { // the operands are printed on the way
		lo, hi = 0, 9
	}
	raw := make([]any_, n)
	vals := make([]float64, n)
	for i := range raw {
		v := IntRange(lo, hi)
		raw[i], vals[i] = v, float64(v)
	}
	before := dup(raw)
	var l any_ = raw
	if kind < flavours {
		l = flavourList(kind, raw)
	}
	b := []int{2, 0, -1, 3, 100}[Choose(5)]
	f := float64(b)
	var r any_
	var err error
	var op func(float64) float64
	name := ""
	switch sel {
	case 0:
		name, op = "sub", func(x float64) float64 { return x - f }
	case 1:
		name, op = "div", func(x float64) float64 { return x / f }
		Assume(b != 0)
	case 2:
		name, op = "abs", math.Abs
	case 3:
		Assume(n > 1)
		name, op = "add", func(x float64) float64 { return x + f }
	case 4:
		Assume(n > 1)
		name, op = "mul", func(x float64) float64 { return x * f }
	}
	if name == "abs" {
		r, err = mathf(name, l)
	} else {
		r, err = mathf(name, l, b)
	}
	Assert(err == nil, name+" of a list: no error")
	if n == 1 {
		Assert(same(r, whole(op(vals[0]))), name+" of a list of one element")
		return
	}
	el := elems(r)
	Assert(len(el) == n, name+" of a list: same length")
	for i := range el {
		Assert(same(el[i], whole(op(vals[i]))), name+" of a list: each element")
	}
	Assert(Eq(raw, before), "list unchanged")
}

// Verif_C13_mod: modulo of an int of magnitude up to 1000 (as int, int64 or text) by 1, -1, 2, 3, -7, 10, 999, and of 7.5, -7.5, 0.3, 1e300 or 5 by 2, 0.1, -2.5, 0 or 1e10: the remainder of the truncated division.
func Verif_C13_mod() {
	if Choose(2) == 0 {
		a := IntRange(-1000, 1000)
		b := []int{1, -1, 2, 3, -7, 10, 999}[Choose(7)]
		r, err := mathf("mod", given(a), given(b))
		Assert(err == nil && same(r, int64(a%b)), "mod of integers")
		return
	}
	a := []float64{7.5, -7.5, 0.3, 1e300, 5}[Choose(5)]
	b := []float64{2, 0.1, -2.5, 0, 1e10}[Choose(5)]
	r, err := mathf("mod", a, b)
	Assert(err == nil && same(r, whole(math.Mod(a, b))), "mod of floats")
}

// Verif_C13_nonnumeric: sub, div, mod, abs, floor, ceil and trunc of texts of up to 3 characters over "1.-ax" that are not numbers are errors, and texts that are numbers are taken as such.
func Verif_C13_nonnumeric() {
	s := ConcreteStr(Str(3, "1.-ax"))
	v, perr := strconv.ParseFloat(s, 64)
	name := []string{"sub", "div", "mod", "abs", "floor", "ceil", "trunc"}[Choose(7)]
	var r any_
	var err error
	if name == "sub" || name == "div" || name == "mod" {
		r, err = mathf(name, s, 1)
	} else {
		r, err = mathf(name, s)
	}
	if perr != nil {
		Assert(err != nil, name+": text that is not a number is an error")
		return
	}
	switch name {
	case "sub":
		v -= 1
	case "mod":
		v = math.Mod(v, 1)
	case "abs":
		v = math.Abs(v)
	case "floor":
		v = math.Floor(v)
	case "ceil":
		v = math.Ceil(v)
	case "trunc":
		v = math.Trunc(v)
	}
	Assert(err == nil && same(r, whole(v)), name+" of a numeric text")
}
