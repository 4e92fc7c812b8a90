package main

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C02_sets", Verif_C02_sets)
	Register("Verif_C02_contains", Verif_C02_contains)
	Register("Verif_C02_remove", Verif_C02_remove)
}

func mixed(n, kinds int) []any_ {
	r := make([]any_, n)
	for i := range r {
		r[i] = scalar(kinds)
	}
	return r
}

// sized chooses the values: (all flavours) at most 2 elements and 1 argument of any kind, (first flavour, or all when thorough) at most 3
// elements and 2 arguments that are ints or one-letter strings.
func sized() (f int, xs, ys []any_) {
	f = Choose(flavours)
	if Choose(2) == 0 {
		return f, mixed(Choose(3), 4), mixed(Choose(2), 4)
	}
	if Tier() == 0 && f > 0 {
		return f, mixed2(1), mixed2(2)
	}
	return f, mixed2(Choose(4)), mixed2(Choose(3))
}

// Verif_C02_sets: unique, union, intersect and without on lists of 0-3 elements and 0-2 arguments (arbitrary ints, strings of 0-1 letters, nil, booleans).
func Verif_C02_sets() {
	f, xs, ys := sized()
	l := flavourList(f, xs)
	ox, oy := dup(xs), dup(ys)
	switch Choose(4) {
	case 0:
		Assert(Eq(elems(l.Unique()), uniq(ox)), "unique")
	case 1:
		Assert(Eq(elems(l.Union(ys...)), uniq(cat(ox, oy))), "union")
	case 2:
		got := elems(l.Intersect(ys...))
		want := []any_{}
		for _, x := range uniq(ox) {
			if inPrinted(x, oy) {
				want = append(want, x)
			}
		}
		Assert(Eq(got, want), "intersect")
	case 3:
		got := elems(l.Without(ys...))
		want := []any_{}
		for _, x := range ox {
			if !inPrinted(x, oy) {
				want = append(want, x)
			}
		}
		Assert(Eq(got, want), "without")
	}
	Assert(Eq(elems(l), ox), "list unchanged")
	Assert(Eq(ys, oy), "arguments unchanged")
}

// Verif_C02_contains: contains, find and their strict variants on lists of 0-3 elements and 0-2 values (arbitrary ints, strings of 0-1 letters, nil, booleans).
func Verif_C02_contains() {
	f, xs, ys := sized()
	l := flavourList(f, xs)
	ox, oy := dup(xs), dup(ys)
	switch Choose(4) {
	case 0:
		got := l.Contains(ys...)
		in := true
		for _, y := range ys {
			in = And(in, inPrinted(y, ox))
		}
		Assert(got == And(len(ox) > 0, in), "contains")
		Observe("contains", got)
	case 1:
		got := l.ContainsStrict(ys...)
		in := true
		for _, y := range ys {
			s := false
			for _, x := range ox {
				s = Or(s, x == y)
			}
			in = And(in, s)
		}
		Assert(got == And(len(ox) > 0, in), "contains strict")
	case 2:
		Assume(len(ys) > 0)
		got := elems(l.Find(ys[0]))
		want := []any_{}
		for i, x := range ox {
			if printed(x) == printed(ys[0]) {
				want = append(want, i)
			}
		}
		Assert(Eq(got, want), "find")
	case 3:
		Assume(len(ys) > 0)
		got := elems(l.FindStrict(ys[0]))
		want := []any_{}
		for i, x := range ox {
			if x == ys[0] {
				want = append(want, i)
			}
		}
		Assert(Eq(got, want), "find strict")
	}
	Assert(Eq(elems(l), ox), "list unchanged")
	Assert(Eq(ys, oy), "arguments unchanged")
}

// Verif_C02_remove: removing empty or nil elements, lists of 0-3 elements among arbitrary ints, strings of 0-1 letters, nil, booleans, empty and non-empty lists.
func Verif_C02_remove() {
	f := Choose(flavours)
	n := Choose(4)
	xs := make([]any_, n)
	for i := range xs {
		switch k := Choose(5); k {
		case 3:
			xs[i] = flavourList(f, []any_{})
		case 4:
			xs[i] = flavourList(f, []any_{nil})
		case 0:
			xs[i] = Int()
		case 1:
			xs[i] = Str(1, "a0")
		case 2:
			xs[i] = nil
		}
	}
	l := flavourList(f, xs)
	ox := dup(xs)
	noNil, noEmpty := []any_{}, []any_{}
	for _, x := range ox {
		if x != nil {
			noNil = append(noNil, x)
		}
		e := x == nil
		if s, ok := x.(string); ok {
			e = s == ""
		}
		if s, ok := x.([]any_); ok {
			e = len(s) == 0
		}
		if il, ok := x.(interface{ Len() int }); ok {
			e = il.Len() == 0
		}
		if !e {
			noEmpty = append(noEmpty, x)
		}
	}
	Assert(Eq(elems(l.RemoveNil()), noNil), "remove nil")
	Assert(Eq(elems(l.RemoveEmpty()), noEmpty), "remove empty")
	Assert(Eq(elems(l), ox), "list unchanged")
}
