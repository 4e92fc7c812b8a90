package main

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C03_get", Verif_C03_get)
	Register("Verif_C03_set", Verif_C03_set)
	Register("Verif_C03_remove", Verif_C03_remove)
}

func at(l []any_, i int) any_ {
	if i < 0 {
		i += len(l)
	}
	if i < 0 || i >= len(l) {
		return nil
	}
	return l[i]
}

// Verif_C03_get: reading with 0-3 arbitrary (64-bit) indexes, first, last and reverse, on lists of 0-3 arbitrary ints, 5 flavours.
func Verif_C03_get() {
	f := Choose(flavours)
	l := flavourList(f, newRaw(Choose(4), Choose(2)))
	o := dup(elems(l))
	n := Choose(4)
	idx := make([]int, n)
	for i := range idx {
		if n == 1 {
			idx[i] = Int()
		} else {
			idx[i] = IntRange(-5, 5)
		}
	}
	oidx := append([]int{}, idx...)
	got := l.Get(idx...)
	switch n {
	case 0:
		Assert(got == nil, "get without index")
	case 1:
		Assert(Eq(got, at(o, idx[0])), "get one index")
	default:
		want := []any_{}
		for i := range oidx {
			want = append(want, at(o, oidx[i]))
		}
		Assert(Eq(got, want), "get several indexes")
	}
	Assert(Eq(idx, oidx), "indexes unchanged")
	if n == 0 {
		Assert(Eq(l.First(), at(o, 0)), "first")
		Assert(Eq(l.Last(), at(o, len(o)-1)), "last")
		rev := []any_{}
		for i := range o {
			rev = append(rev, o[len(o)-1-i])
		}
		r := l.Reverse()
		Assert(Eq(elems(r), rev), "reverse")
		if len(o) > 0 {
			r.Set(0, Int())
		}
	}
	Assert(Eq(elems(l), o), "list unchanged")
	Observe("get", got)
}

// Verif_C03_set: setting an arbitrary index up to 5 (negative: any 64-bit), lists of 0-3 arbitrary ints with spare capacity 0-2, 5 flavours.
func Verif_C03_set() {
	f := Choose(flavours)
	l := flavourList(f, newRaw(Choose(4), Choose(3)))
	o := dup(elems(l))
	var i int
	if Bool() {
		i = IntRange(0, 5)
	} else {
		i = Int()
		Assume(i < 0)
	}
	v := any_(Int())
	if Choose(2) == 1 {
		v = []any_{Int()}
	}
	ov := snapshot(v)
	r, err := l.Set(i, v)
	if i < 0 {
		Assert(err != nil, "negative index refused")
		Assert(Eq(elems(l), o), "list unchanged when refused")
		return
	}
	Assert(err == nil, "index accepted")
	if err != nil {
		return
	}
	want := dup(o)
	for len(want) <= i {
		want = append(want, nil)
	}
	want[i] = ov
	Assert(Eq(snapshot(r), snapSlice(want)), "exactly that element replaced")
	Observe("set", r.AsArray())
}

// Verif_C03_remove: removing and popping 0-2 (pop) or 0-3 (remove) indexes in -5..5, lists of 0-3 arbitrary ints, 5 flavours.
func Verif_C03_remove() {
	f := Choose(flavours)
	l := flavourList(f, newRaw(Choose(4), 0))
	o := dup(elems(l))
	pop := Choose(2) == 1
	n := Choose(3)
	idx := make([]int, n)
	for i := range idx {
		idx[i] = IntRange(-5, 5)
	}
	oidx := append([]int{}, idx...)
	var got any_
	var rest []any_
	if pop {
		g, r := l.Pop(idx...)
		got, rest = g, elems(r)
	} else {
		rest = elems(l.Remove(idx...))
	}
	eff := oidx
	if pop && n == 0 {
		eff = []int{len(o) - 1}
	}
	want := []any_{}
	for i := range o {
		gone := false
		for _, x := range eff {
			gone = Or(gone, Or(x == i, x+len(o) == i))
		}
		if !gone {
			want = append(want, o[i])
		}
	}
	Assert(Eq(rest, want), "remainder")
	if pop {
		if len(eff) == 1 {
			Assert(Eq(got, at(o, eff[0])), "popped element")
		} else {
			g := []any_{}
			for _, x := range eff {
				g = append(g, at(o, x))
			}
			Assert(Eq(got, g), "popped elements")
		}
	}
	Assert(Eq(idx, oidx), "indexes unchanged")
	Assert(Eq(elems(l), o), "list unchanged")
	Observe("rest", rest)
}
