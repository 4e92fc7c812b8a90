package main

import (
	"fmt"
	"math"
)

// Mathematical functions of the standard library are uninterpreted functions for the solver. A model is accepted only if it satisfies the query when they are really
// called; otherwise their value at the points of the model is added to what the solver knows and it is asked again.

type ufunc struct {
	name string
	one  func(float64) float64
	two  func(a, b float64) float64
}

var ufs []ufunc

func (u *ufunc) call(x, y float64) float64 {
	if u.two != nil {
		return u.two(x, y)
	}
	return u.one(x)
}

func (u *ufunc) smt() string { return "math." + u.name }

func (u *ufunc) declare() string {
	args := "(_ FloatingPoint 11 53)"
	if u.two != nil {
		args += " " + args
	}
	return fmt.Sprintf("(declare-fun %s (%s) (_ FloatingPoint 11 53))", u.smt(), args)
}

func newUF(name string, one func(float64) float64, two func(a, b float64) float64) uint64 {
	ufs = append(ufs, ufunc{name, one, two})
	return uint64(len(ufs) - 1)
}

// ufTerms lists the applications of uninterpreted functions, arguments first.
func (ts *TS) ufTerms(groups ...[]*Term) (result []*Term) {
	ts.epoch++
	ep := ts.epoch
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.epoch == ep {
			return
		}
		t.epoch = ep
		walk(t.a)
		walk(t.b)
		walk(t.c)
		if t.op == oUF {
			result = append(result, t)
		}
	}
	for _, g := range groups {
		for _, t := range g {
			walk(t)
		}
	}
	return
}

// points gives the values of the functions at the points of the model, unless the model satisfies the terms.
func (s *Solver) points(m map[*Term]uint64, ufTerms []*Term, groups ...[]*Term) (facts []string) {
	ts := s.ts
	ok := true
	for _, g := range groups {
		for _, t := range g {
			ok = ok && ts.eval(t, m) != 0
		}
	}
	if ok {
		return nil
	}
	for _, t := range ufTerms {
		call := fmt.Sprintf("(%s %s", ufs[t.val].smt(), constSMT(sF64, ts.eval(t.a, m)))
		if t.b != nil {
			call += " " + constSMT(sF64, ts.eval(t.b, m))
		}
		v := ts.eval(t, m)
		if f := math.Float64frombits(v); f != f {
			v = math.Float64bits(math.NaN())
		}
		facts = append(facts, fmt.Sprintf("(= %s) %s)", call, constSMT(sF64, v)))
	}
	return
}

// ranges holds (generous) bounds of the results that are neither infinite nor NaN.
var ranges = map[string][2]float64{"Sin": {-1.5, 1.5}, "Cos": {-1.5, 1.5}, "Sincos1": {-1.5, 1.5}, "Sincos2": {-1.5, 1.5}, "Tanh": {-1.5, 1.5}, "Tan": {-5e18, 5e18},
	"Acos": {-0.5, 4}, "Asin": {-2, 2}, "Atan": {-2, 2}, "Atan2": {-4, 4}, "J0": {-1.5, 1.5}, "J1": {-1.5, 1.5}, "Y0": {-1000, 1.5}, "Y1": {-math.MaxFloat64, 1.5},
	"Cosh": {0.5, math.MaxFloat64}, "Exp": {0, math.MaxFloat64}, "Exp2": {0, math.MaxFloat64}, "Expm1": {-1, math.MaxFloat64}, "Acosh": {0, 800}, "Asinh": {-800, 800},
	"Atanh": {-40, 40}, "Log": {-800, 800}, "Log2": {-1100, 1100}, "Log10": {-400, 400}, "Log1p": {-40, 800}, "Logb": {-1100, 1100}, "Cbrt": {-1e104, 1e104},
	"Erf": {-1.5, 1.5}, "Erfc": {-0.5, 2.5}, "Hypot": {0, math.MaxFloat64}, "Jn": {-1.5, 1.5}}

// finite is the functions of which the result is never infinite.
var finite = map[string]bool{"Sin": true, "Cos": true, "Sincos1": true, "Sincos2": true, "Tanh": true, "Tan": true, "Acos": true, "Asin": true, "Atan": true, "Atan2": true, "J0": true, "J1": true,
	"Erf": true, "Erfc": true, "Jn": true}

// axioms gives what is known of the results of the functions applied.
func (s *Solver) axioms(ufTerms []*Term) (result []string) {
	for _, t := range ufTerms {
		u := ufs[t.val]
		r, ok := ranges[u.name]
		if !ok {
			continue
		}
		n := s.ref(t)
		free := fmt.Sprintf("(fp.isNaN %s)", n)
		if !finite[u.name] {
			switch {
			case r[0] >= -1.5:
				free += fmt.Sprintf(" (= %s (_ +oo 11 53))", n)
			case u.name == "Y0" || u.name == "Y1":
				free += fmt.Sprintf(" (= %s (_ -oo 11 53))", n)
			default:
				free += fmt.Sprintf(" (fp.isInfinite %s)", n)
			}
		}
		result = append(result, fmt.Sprintf("(or %s (and (fp.leq %s %s) (fp.leq %s %s)))", free, constSMT(sF64, math.Float64bits(r[0])), n, n, constSMT(sF64, math.Float64bits(r[1]))))
	}
	return
}

var usualFloats = []float64{0, 1, -1, 0.5, 2, 3, 10, 8, -2, -0.5, 1.5, 100, 1e-9, 1e-300, 1e300, -1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.E}

// usual looks for a model where one argument of a function has a usual value.
func (s *Solver) usual(m map[*Term]uint64, ufTerms []*Term, groups ...[]*Term) map[*Term]uint64 {
	ts := s.ts
	var vars []*Term
	ts.epoch++
	ep := ts.epoch
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.epoch == ep {
			return
		}
		t.epoch = ep
		if t.op == oVar {
			vars = append(vars, t)
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	for _, t := range ufTerms {
		walk(t)
	}
	try := make(map[*Term]uint64, len(m)+1)
	for k, v := range m {
		try[k] = v
	}
	for _, v := range vars {
		if v.sort != 64 && v.sort != sF64 {
			continue
		}
		for _, f := range usualFloats {
			try[v] = math.Float64bits(f)
			ok := true
			for _, g := range groups {
				for _, t := range g {
					ok = ok && ts.eval(t, try) != 0
				}
			}
			if ok {
				return try
			}
		}
		try[v] = m[v]
	}
	return nil
}
