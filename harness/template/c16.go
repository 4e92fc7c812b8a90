package template

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C16_ints", Verif_C16_ints)
	Register("Verif_C16_one", Verif_C16_one)
	Register("Verif_C16_decimals", Verif_C16_decimals)
	Register("Verif_C16_start", Verif_C16_start)
	Register("Verif_C16_invalid", Verif_C16_invalid)
}

func rangeOf(name string, args ...any_) []any_ {
	var r any_
	var err error
	Terminates(60000)
	r, err = mathf(name, args...)
	Assert(err == nil, name+": no error")
	return elems(r)
}

func checkProgression(name string, got []any_, start, stop, step int64) {
	if step < 0 {
		step = -step
	}
	if stop <= start {
		step = -step
	}
	cur, i := start, 0
	for ; ; i++ {
		if step > 0 && cur > stop || step < 0 && cur < stop || name == "until" && cur == stop {
			break
		}
		Assert(i < len(got), name+": no value is missing")
		Assert(EqTyped(got[i], cur), name+": start+i*step")
		cur += step
	}
	Assert(i == len(got), name+": nothing beyond stop")
}

// Verif_C16_ints: to and until with int start of magnitude up to 10^6, stop within 4 of it and steps 1, 2, 3, -1, -2 or none, given as int, int64 or text.
func Verif_C16_ints() {
	name := []string{"to", "until"}[Choose(2)]
	start := IntRange(-1000000, 1000000)
	d := Choose(9) - 4
	stop := start + d
	if k := Choose(6); k == 5 {
		checkProgression(name, rangeOf(name, given(start), stop), int64(start), int64(stop), 1)
	} else {
		step := []int{1, 2, 3, -1, -2}[k]
		checkProgression(name, rangeOf(name, start, stop, given(step)), int64(start), int64(stop), int64(step))
	}
}

// Verif_C16_one: to(n) counts from 1 and until(n) from 0, for n in -4..5.
func Verif_C16_one() {
	n := IntRange(-4, 5)
	if Choose(2) == 0 {
		checkProgression("to", rangeOf("to", n), 1, int64(n), 1)
	} else {
		checkProgression("until", rangeOf("until", n), 0, int64(n), 1)
	}
}

// Verif_C16_decimals: start, stop and step of up to one decimal: start in -1..1, stop = start + k*step with k in -3..3 plus half a step or not.
func Verif_C16_decimals() {
	name := []string{"to", "until"}[Choose(2)]
	step := []int{1, 2, 3, 5, 7, 15}[Choose(6)] // tenths
	start := []int{-10, -3, -1, 0, 1, 2, 5, 10}[Choose(8)]
	k := Choose(7) - 3
	stop := start*2 + 2*k*step // in twentieths
	half := Choose(2)
	if half == 1 {
		if k >= 0 {
			stop += step
		} else {
			stop -= step
		}
	}
	got := rangeOf(name, float64(start)/10, float64(stop)/20, float64(step)/10)
	n := k
	dir := 1
	if k < 0 {
		n, dir = -k, -1
	}
	n++
	if name == "until" && half == 0 {
		n--
	}
	Assert(len(got) == n, name+": number of values")
	for i := range got {
		Assert(same(got[i], whole(float64(start+dir*i*step)/10)), name+": the decimal start+i*step")
	}
}

// Verif_C16_start: start and step with different numbers of decimals (0 to 4 each): start among 0.125, 1.2345, -1.1, 3 and -0.0001, step among 1, 0.25, 0.1, 0.0001 and 2.5, from -3 to 3 steps and half a step.
func Verif_C16_start() {
	name := []string{"to", "until"}[Choose(2)]
	start := []int{1250, 12345, -11000, 30000, -1}[Choose(5)] // ten thousandths
	step := []int{10000, 2500, 1000, 1, 25000}[Choose(5)]
	k := Choose(7) - 3
	n, dir := k, 1
	stop := 2*start + 2*k*step
	if k < 0 {
		n, dir = -k, -1
	}
	stop += dir * step
	got := rangeOf(name, float64(start)/10000, float64(stop)/20000, float64(step)/10000)
	Assert(len(got) == n+1, name+": number of values")
	for i := range got {
		Assert(same(got[i], whole(float64(start+dir*i*step)/10000)), name+": the decimal start+i*step")
	}
}

// Verif_C16_invalid: zero steps, missing or too many arguments, and values that are not numbers are errors; ranges that would never end are refused.
func Verif_C16_invalid() {
	name := []string{"to", "until"}[Choose(2)]
	var args []any_
	switch Choose(8) {
	case 0:
		args = []any_{IntRange(-5, 5), IntRange(-5, 5), []any_{0, 0.0, "0", -0.0}[Choose(4)]}
	case 1:
		args = []any_{}
	case 2:
		args = []any_{1, 2, 3, 4}
	case 3:
		args = []any_{StrN(1, "ax")}
	case 4:
		args = []any_{1, StrN(1, "ax")}
	case 5:
		args = []any_{1, 3, StrN(1, "ax")}
	case 6:
		args = []any_{0, []any_{"Inf", "-Inf", "NaN", 1e300}[Choose(4)]}
	case 7:
		args = []any_{[]any_{1e17, "Inf", "NaN"}[Choose(3)], 0, []any_{0.1, 1e-300, "NaN", "Inf"}[Choose(4)]}
	}
	var err error
	Terminates(60000)
	_, err = mathf(name, args...)
	Assert(err != nil, name+": error reported")
}
