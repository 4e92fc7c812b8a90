package template

import (
	"fmt"
	"math"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C40_one", Verif_C40_one)
	Register("Verif_C40_two", Verif_C40_two)
	Register("Verif_C40_parts", Verif_C40_parts)
	Register("Verif_C40_order", Verif_C40_order)
	Register("Verif_C40_lists", Verif_C40_lists)
	Register("Verif_C40_texts", Verif_C40_texts)
	Register("Verif_C40_aliases", Verif_C40_aliases)
}

// calc40 calls the function that a template knows under the name (or alias) given.
func calc40(name string, args ...any_) (any_, error) {
	for _, d := range []dictionary{mathBaseFuncs, mathStatFuncs, mathTrigFuncs, mathUtilFuncs} {
		if f, ok := d[name]; ok {
			return callF(f, args...)
		}
	}
	panic("no function " + name)
}

type one40 struct {
	name string
	f    func(float64) float64
}

func unary40() []one40 {
	return []one40{{"acos", math.Acos}, {"acosh", math.Acosh}, {"asin", math.Asin}, {"asinh", math.Asinh}, {"atan", math.Atan}, {"atanh", math.Atanh},
		{"cos", math.Cos}, {"cosh", math.Cosh}, {"sin", math.Sin}, {"sinh", math.Sinh}, {"tan", math.Tan}, {"tanh", math.Tanh},
		{"log", math.Log}, {"log10", math.Log10}, {"log1p", math.Log1p}, {"log2", math.Log2}, {"logb", math.Logb},
		{"exp", math.Exp}, {"exp2", math.Exp2}, {"expm1", math.Expm1}, {"cbrt", math.Cbrt}, {"gamma", math.Gamma}, {"sqrt", math.Sqrt},
		{"j0", math.J0}, {"j1", math.J1}, {"y0", math.Y0}, {"y1", math.Y1},
		{"abs", math.Abs}, {"floor", math.Floor}, {"ceil", math.Ceil}, {"trunc", math.Trunc},
		{"rad", func(x float64) float64 { return x * math.Pi / 180 }}, {"deg", func(x float64) float64 { return x * 180 / math.Pi }}}
}

// Every function of one number, on every float64 (every bit pattern): acos, acosh, asin, asinh, atan, atanh, cos, cosh, sin, sinh, tan, tanh, log, log10, log1p, log2, logb, exp, exp2, expm1, cbrt, gamma,
// sqrt, j0, j1, y0, y1, abs, floor, ceil, trunc; rad and deg of every int from -400 to 400 and of large, small and special floats.
func Verif_C40_one() {
	fs := unary40()
	f := fs[Choose(len(fs))]
	x := 0.0
	if f.name == "rad" || f.name == "deg" {
		if k := Choose(8); k == 0 {
			x = float64(IntRange(-400, 400))
		} else {
			x = []float64{0.5, -1e-300, 1e300, 1e19, math.Inf(1), math.Inf(-1), math.NaN()}[k-1]
		}
	} else {
		x = Float64()
	}
	Reach(f.name)
	r, err := calc40(f.name, x)
	Assert(err == nil, f.name+": no error")
	Assert(same(r, whole(f.f(x))), f.name+": the result is that of the mathematical function, whole numbers being integers")
	Reach("end")
}

type two40 struct {
	name string
	f    func(a, b float64) float64
}

func binary40() []two40 {
	return []two40{{"atan2", math.Atan2}, {"hypot", math.Hypot}, {"rem", math.Remainder}, {"pow", math.Pow}, {"mod", math.Mod}, {"dim", math.Dim}, {"nextAfter", math.Nextafter}}
}

// Every function of two numbers, on every pair of float64: atan2, hypot, rem, pow, mod, dim, nextAfter.
func Verif_C40_two() {
	fs := binary40()
	f := fs[Choose(len(fs))]
	x, y := Float64(), Float64()
	r, err := calc40(f.name, x, y)
	Assert(err == nil, f.name+": no error")
	Assert(same(r, whole(f.f(x, y))), f.name+": the result is that of the mathematical function, whole numbers being integers")
	Reach("end")
}

// Every function of one number that has several results or another type of result, on every float64: modf, frexp, lgamma, isNaN, isInf with any sign from -1 to 1, signBit, ilogb; sincos of any int from -8 to 8.
func Verif_C40_parts() {
	var r, want any_
	var err error
	name := []string{"modf", "frexp", "lgamma", "sincos", "isNaN", "isInf", "signBit", "ilogb"}[Choose(8)]
	x := 0.0
	if name == "sincos" {
		x = float64(IntRange(-8, 8))
	} else {
		x = Float64()
	}
	if name == "isInf" {
		sign := IntRange(-1, 1)
		r, err = calc40(name, x, sign)
		Assert(err == nil && same(r, math.IsInf(x, sign)), "isInf")
		return
	}
	r, err = calc40(name, x)
	Assert(err == nil, name+": no error")
	switch name {
	case "isNaN":
		want = x != x
	case "signBit":
		want = math.Signbit(x)
	case "ilogb":
		want = math.Ilogb(x)
	case "modf":
		a, b := math.Modf(x)
		want = []any_{a, b}
	case "frexp":
		a, b := math.Frexp(x)
		want = []any_{whole(a), b}
	case "lgamma":
		a, b := math.Lgamma(x)
		want = []any_{whole(a), b}
	case "sincos":
		a, b := math.Sincos(x)
		want = []any_{whole(a), whole(b)}
	}
	if w, ok := want.([]any_); ok {
		l, ok := r.([]any_)
		Assert(ok && len(l) == 2, name+": there are two results")
		Assert(same(l[0], w[0]) && same(l[1], w[1]), name+": the results are those of the mathematical function, in order")
	} else {
		Assert(same(r, want), name+": the result is that of the mathematical function")
	}
	Reach("end")
}

// Functions of an integer and a number: jn and yn of any order from 0 to 3 on every float64, ldexp of every float64 by any exponent from -2 to 2, pow10 of any integer from -400 to 400.
func Verif_C40_order() {
	var r any_
	var err error
	var want float64
	switch Choose(4) {
	case 0:
		n, x := IntRange(0, 3), Float64()
		r, err = calc40("jn", n, x)
		want = math.Jn(n, x)
	case 1:
		n, x := IntRange(0, 3), Float64()
		r, err = calc40("yn", n, x)
		want = math.Yn(n, x)
	case 2:
		n, x := Choose(5)-2, Float64()
		r, err = calc40("ldexp", x, n)
		want = math.Ldexp(x, n)
	case 3:
		n := []int{-400, -324, -323, -1, 0, 1, 15, 18, 19, 308, 309, 400}[Choose(12)]
		r, err = calc40("pow10", n)
		want = math.Pow10(n)
	}
	Assert(err == nil, "no error")
	if f, ok := r.(float64); ok {
		Assert(same(f, want), "the result is that of the mathematical function")
	} else {
		Assert(same(r, whole(want)), "the result is that of the mathematical function as an integer")
	}
	Reach("end")
}

// Every function of one or two numbers on a list (plain or of any flavour) of 2 or 3 ints from -3 to 3: the function is applied on each element, in order, and the list is unchanged.
func Verif_C40_lists() {
	n := 2 + Choose(2)
	values := make([]any_, n)
	for i := range values {
		values[i] = IntRange(-3, 3)
	}
	k := len(unary40())
	var arg any_ = append([]any_{}, values...)
	if f := Choose(6); f < 5 {
		arg = flavourList(f, append([]any_{}, values...))
	}
	before := fmt.Sprint(arg)
	i := Choose(k + len(binary40()))
	var r any_
	var err error
	var want func(float64) float64
	name := ""
	if i < k {
		f := unary40()[i]
		name, want = f.name, f.f
		r, err = calc40(name, arg)
	} else {
		f := binary40()[i-k]
		if f.name == "rem" || f.name == "nextAfter" {
			return
		}
		name, want = f.name, func(x float64) float64 { return f.f(x, 2) }
		r, err = calc40(name, arg, 2)
	}
	Assert(err == nil, name+": no error")
	l, ok := r.(iList)
	Assert(ok && l.Len() == n, name+": there is a result for each element")
	for i := range values {
		Assert(same(l.Get(i), whole(want(float64(values[i].(int))))), name+": each result is that of its element")
	}
	Assert(fmt.Sprint(arg) == before, name+": the list is unchanged")
	Reach("end")
}

// Every function of one or two numbers given the text of an int from -3 to 3, or a text of up to 2 characters among "1", "a", "." and "-" that is not a number, or nil.
func Verif_C40_texts() {
	k := len(unary40())
	i := Choose(k + len(binary40()))
	call := func(x any_) (r any_, err error) {
		if i < k {
			return calc40(unary40()[i].name, x)
		}
		return calc40(binary40()[i-k].name, x, 2)
	}
	want := func(x float64) float64 {
		if i < k {
			return unary40()[i].f(x)
		}
		return binary40()[i-k].f(x, 2)
	}
	if Choose(2) == 0 {
		n := IntRange(-3, 3)
		r, err := call(printed(n))
		Assert(err == nil && same(r, whole(want(float64(n)))), "the text of a number is that number")
	} else {
		s := []string{"", "a", "1a", "-", ".", "1.", "--", "0x", "a1"}[Choose(9)]
		_, err := call(s)
		Assert((err == nil) == (s == "1."), "what is not a number is an error")
	}
	Reach("end")
}

// Every other name of the functions of one or two numbers, as templates know it, on every int from -3 to 3 (with 2 as the second number).
func Verif_C40_aliases() {
	names := [][2]string{
		{"absolute", "abs"}, {"arcCosine", "acos"}, {"arcCosinus", "acos"}, {"arcHyperbolicCosine", "acosh"}, {"arcHyperbolicCosinus", "acosh"}, {"arcSine", "asin"},
		{"arcSinus", "asin"}, {"arcHyperbolicSine", "asinh"}, {"arcHyperbolicSinus", "asinh"}, {"arcTangent", "atan"}, {"arcTangent2", "atan2"}, {"arcHyperbolicTangent", "atanh"},
		{"roundUp", "ceil"}, {"roundup", "ceil"}, {"cosine", "cos"}, {"cosinus", "cos"}, {"hyperbolicCosine", "cosh"}, {"hyperbolicCosinus", "cosh"},
		{"degree", "deg"}, {"exponent", "exp"}, {"exponent2", "exp2"}, {"roundDown", "floor"}, {"rounddown", "floor"}, {"int64", "floor"},
		{"integer64", "floor"}, {"hypotenuse", "hypot"}, {"firstBessel0", "j0"}, {"firstBessel1", "j1"}, {"modulo", "mod"}, {"power", "pow"},
		{"radian", "rad"}, {"remainder", "rem"}, {"sine", "sin"}, {"sinus", "sin"}, {"hyperbolicSine", "sinh"}, {"hyperbolicSinus", "sinh"},
		{"squareRoot", "sqrt"}, {"tangent", "tan"}, {"hyperbolicTangent", "tanh"}, {"truncate", "trunc"}, {"secondBessel0", "y0"}, {"secondBessel1", "y1"}}
	name := names[Choose(len(names))]
	f, ok := template31(map[string]any_{}).getFunction(name[0]).function, false
	Assert(f != nil, name[0]+" is a function")
	x := IntRange(-3, 3)
	var r any_
	var err error
	want := 0.0
	for _, u := range unary40() {
		if u.name == name[1] {
			r, err = callF(f, x)
			want, ok = u.f(float64(x)), true
		}
	}
	for _, u := range binary40() {
		if u.name == name[1] {
			r, err = callF(f, x, 2)
			want, ok = u.f(float64(x), 2), true
		}
	}
	Assert(ok && err == nil && same(r, whole(want)), name[0]+" is "+name[1])
	Reach("end")
}
