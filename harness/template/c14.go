package template

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C14_fold", Verif_C14_fold)
	Register("Verif_C14_shift", Verif_C14_shift)
	Register("Verif_C14_hex", Verif_C14_hex)
	Register("Verif_C14_lists", Verif_C14_lists)
	Register("Verif_C14_errors", Verif_C14_errors)
}

func asGiven(i int64, how int) any_ {
	switch how {
	case 0:
		return i
	case 1:
		return int(i)
	}
	return printed(i)
}

// Verif_C14_fold: or, and, xor and clear of 2-4 arbitrary 64-bit integers (int64, int or text) fold from left to right.
func Verif_C14_fold() {
	n := 2 + Choose(3)
	args := make([]any_, n)
	op := Choose(4)
	var want int64
	for i := range args {
		v := Int64()
		args[i] = asGiven(v, Choose(3))
		switch {
		case i == 0:
			want = v
		case op == 0:
			want |= v
		case op == 1:
			want &= v
		case op == 2:
			want ^= v
		case op == 3:
			want &^= v
		}
	}
	name := []string{"bor", "band", "bxor", "bclear"}[op]
	r, err := mathf(name, args...)
	Assert(err == nil && EqTyped(r, want), name)
}

// Verif_C14_shift: left and right shift of an arbitrary 64-bit integer by any non-negative count; negative counts are errors.
func Verif_C14_shift() {
	v, by := Int64(), Int64()
	left := Choose(2) == 0
	name := "rshift"
	if left {
		name = "lshift"
	}
	r, err := mathf(name, asGiven(v, Choose(3)), asGiven(by, Choose(3)))
	if by < 0 {
		Assert(err != nil, name+" by a negative count is an error")
		return
	}
	want := v >> uint64(by)
	if left {
		want = v << uint64(by)
	}
	Assert(err == nil && EqTyped(r, want), name)
}

// Verif_C14_hex: dec(hex(v)) is v for every v in 0..0xFFF shifted left by 0 or 51 bits, and every v within 256 below 2^32, 2^53 and 2^63.
func Verif_C14_hex() {
	var v int64
	if k := Choose(5); k < 2 {
		v = int64(IntRange(0, 0xFFF)) << []uint{0, 51}[k]
	} else {
		v = []int64{1<<32 - 256, 1<<53 - 256, 1<<63 - 256}[k-2] + int64(IntRange(0, 255))
	}
	h, err := mathf("hex", asGiven(v, Choose(3)))
	Assert(err == nil, "hex: no error")
	r, err := mathf("dec", h)
	Assert(err == nil && EqTyped(r, v), "dec(hex(v)) is v")
}

// Verif_C14_lists: shifts, hex and dec of lists (5 flavours or plain) of 2-3 ints 0..9 apply to each element.
func Verif_C14_lists() {
	kind := Choose(flavours + 1)
	n := 2 + Choose(2)
	raw := make([]any_, n)
	for i := range raw {
		raw[i] = IntRange(0, 9)
	}
	before := dup(raw)
	var l any_ = raw
	if kind < flavours {
		l = flavourList(kind, raw)
	}
	by := Choose(4)
	switch Choose(3) {
	case 0:
		r, err := mathf("lshift", l, by)
		Assert(err == nil && len(elems(r)) == n, "lshift of a list")
		for i, v := range elems(r) {
			Assert(EqTyped(v, int64(raw[i].(int))<<uint(by)), "lshift of each element")
		}
	case 1:
		r, err := mathf("rshift", l, by)
		Assert(err == nil && len(elems(r)) == n, "rshift of a list")
		for i, v := range elems(r) {
			Assert(EqTyped(v, int64(raw[i].(int))>>uint(by)), "rshift of each element")
		}
	case 2:
		h, err := mathf("hex", l)
		Assert(err == nil && len(elems(h)) == n, "hex of a list")
		r, err := mathf("dec", h)
		Assert(err == nil && len(elems(r)) == n, "dec of a list")
		for i, v := range elems(r) {
			Assert(EqTyped(v, int64(raw[i].(int))), "dec(hex(v)) for each element")
		}
	}
	Assert(Eq(raw, before), "list unchanged")
}

// Verif_C14_errors: values that are not integers (texts up to 3 characters over "1-.ax", floats, booleans, a map, nil) are reported as errors by every bitwise function.
func Verif_C14_errors() {
	var bad any_
	switch Choose(5) {
	case 0:
		s := ConcreteStr(Str(3, "1-.ax"))
		digits := 0
		for i := range s {
			if s[i] == '1' {
				digits++
			} else if i > 0 || s[i] != '-' {
				digits = -10
			}
		}
		Assume(digits <= 0)
		bad = s
	case 1:
		bad = []float64{1.5, -0.5, 1e300}[Choose(3)]
	case 2:
		bad = Bool()
	case 3:
		bad = map[string]any_{"a": 1}
	case 4:
		bad = "9223372036854775808"
	}
	name := []string{"bor", "band", "bxor", "bclear", "lshift", "rshift", "hex"}[Choose(7)]
	var r any_
	var err error
	switch {
	case name == "hex":
		r, err = mathf(name, bad)
	case Choose(2) == 0:
		r, err = mathf(name, bad, 1)
	default:
		Assume(bad != any_("9223372036854775808") || name[1:] != "shift")
		r, err = mathf(name, 1, bad)
	}
	Assert(err != nil, name+": a value that is not an integer is an error")
	_ = r
}
