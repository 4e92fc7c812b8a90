package template

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C15_ints", Verif_C15_ints)
	Register("Verif_C15_floats", Verif_C15_floats)
	Register("Verif_C15_text", Verif_C15_text)
	Register("Verif_C15_avg", Verif_C15_avg)
	Register("Verif_C15_avglist", Verif_C15_avglist)
}

// Verif_C15_ints: min and max of 1-3 (thorough: 1-4) ints of magnitude up to 2^51 (int, int64 or text).
func Verif_C15_ints() {
	n := 1 + Choose(2+Tier())
	args := make([]any_, n)
	vals := make([]int64, n)
	for i := range args {
		v := IntRange(-1<<51, 1<<51)
		vals[i] = int64(v)
		args[i] = given(v)
	}
	name := []string{"min", "max"}[Choose(2)]
	r, err := mathf(name, args...)
	Assert(err == nil, name+": no error")
	if s, ok := r.(string); ok {
		Assert(n == 1 && s == printed(vals[0]), name+" of a single text")
		return
	}
	got, ok := r.(int64)
	Assert(ok, name+": an integer")
	among := false
	for _, v := range vals {
		among = Or(among, v == got)
		if name == "min" {
			Assert(got <= v, "min is not greater than any argument")
		} else {
			Assert(got >= v, "max is not less than any argument")
		}
	}
	Assert(among, name+" is among the arguments")
}

// Verif_C15_floats: min and max of 2 arbitrary float64 (every bit pattern but NaN).
func Verif_C15_floats() {
	a, b := Float64(), Float64()
	Assume(a == a)
	Assume(b == b)
	name := []string{"min", "max"}[Choose(2)]
	r, err := mathf(name, a, b)
	Assert(err == nil, name+": no error")
	want := a
	if name == "min" && b < a || name == "max" && b > a {
		want = b
	}
	if want == 0 {
		Assert(EqTyped(r, int64(0)), name+" of zeros")
		return
	}
	Assert(same(r, whole(want)), name+" of two floats")
}

// Verif_C15_text: min and max of 1-3 texts of up to 2 characters over "ab1" where one at least is not numeric select in lexical order; over nothing they return nil.
func Verif_C15_text() {
	name := []string{"min", "max"}[Choose(2)]
	if Choose(8) == 0 {
		r, err := mathf(name)
		Assert(err == nil && r == nil, name+" of nothing")
		return
	}
	n := 1 + Choose(3)
	args := make([]any_, n)
	vals := make([]string, n)
	at := Choose(n)
	for i := range args {
		if i == at {
			vals[i] = StrN(1, "ab") + Str(1, "ab1")
		} else {
			vals[i] = Str(2, "ab1")
		}
		args[i] = vals[i]
	}
	r, err := mathf(name, args...)
	got, ok := r.(string)
	Assert(err == nil && ok, name+": a text")
	among := false
	for _, v := range vals {
		among = Or(among, v == got)
		if name == "min" {
			Assert(got <= v, "min is not greater than any text")
		} else {
			Assert(got >= v, "max is not less than any text")
		}
	}
	Assert(among, name+" is among the texts")
}

// Verif_C15_avg: the average of 1-4 ints of magnitude up to 2^49 (int, int64 or text) is their sum divided by their count.
func Verif_C15_avg() {
	n := 1 + Choose(4)
	args := make([]any_, n)
	var sum int
	for i := range args {
		v := IntRange(-1<<49, 1<<49)
		sum += v
		args[i] = v
		if i == 0 {
			args[i] = given(v)
		}
	}
	r, err := mathf("avg", args...)
	Assert(err == nil && same(r, whole(float64(sum)/float64(n))), "average")
}

// Verif_C15_avglist: average, min and max of 1-3 ints 0..9 given as a list (5 flavours or plain) or as arguments agree; lists are unchanged.
func Verif_C15_avglist() {
	kind := Choose(flavours + 1)
	n := 1 + Choose(3)
	raw := make([]any_, n)
	sum := 0
	for i := range raw {
		v := IntRange(0, 9)
		raw[i] = v
		sum += v
	}
	before := dup(raw)
	var l any_ = raw
	if kind < flavours {
		l = flavourList(kind, raw)
	}
	r, err := mathf("avg", l)
	Assert(err == nil && same(r, whole(float64(sum)/float64(n))), "average of a list")
	Assert(Eq(raw, before), "list unchanged")
}
