package main

import (
	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C01_append", Verif_C01_append)
	Register("Verif_C01_nested", Verif_C01_nested)
	Register("Verif_C01_samevalues", Verif_C01_samevalues)
}

// Verif_C01_append derives two lists from the same one (flavours 5, length 0-2, spare capacity 0-2, up to 2 appended values each, arbitrary ints): results exact, nothing already built changes.
func Verif_C01_append() {
	f := Choose(flavours)
	raw := newRaw(Choose(3), Choose(3))
	base := flavourList(f, raw)
	old := dup(elems(base))
	a, b := newRaw(Choose(3), Choose(2)), newRaw(1+Choose(2), Choose(2))
	oa, ob := dup(a), dup(b)
	pa, pb := Choose(2) == 1, Choose(2) == 1
	var la, lb collections.IGenericList
	if pa {
		la = base.Prepend(a...)
	} else {
		la = base.Append(a...)
	}
	if pa {
		Assert(Eq(elems(la), cat(oa, old)), "prepend gives new elements then old")
	} else {
		Assert(Eq(elems(la), cat(old, oa)), "append gives old elements then new")
	}
	if pb {
		lb = base.Prepend(b...)
		Assert(Eq(elems(lb), cat(ob, old)), "second prepend")
	} else {
		lb = base.Append(b...)
		Assert(Eq(elems(lb), cat(old, ob)), "second append")
	}
	if pa {
		Assert(Eq(elems(la), cat(oa, old)), "first derived list unchanged (prepend)")
	} else {
		Assert(Eq(elems(la), cat(old, oa)), "first derived list unchanged (append)")
	}
	Assert(Eq(elems(base), old), "original unchanged")
	Assert(Eq(a, oa), "caller's slice unchanged")
	Assert(Eq(b, ob), "second caller's slice unchanged")
	Observe("la", la.AsArray())
	Observe("lb", lb.AsArray())
}

// Verif_C01_nested: raw maps and slices become collections in the result only; one flavour list of 0-1 elements with 0-2 spare slots,
// 1-2 values of kind int, nil, raw slice, raw map, nested raw map in slice.
func Verif_C01_nested() {
	f := Choose(flavours)
	base := flavourList(f, newRaw(Choose(2), Choose(3)))
	old := dup(elems(base))
	n := 1 + Choose(2)
	vals := make([]any_, n, n+Choose(2))
	want := make([]any_, n)
	kinds := make([]int, n)
	for i := range vals {
		x := Int()
		kinds[i] = Choose(5)
		switch kinds[i] {
		case 0:
			vals[i] = x
		case 1:
			vals[i] = nil
		case 2:
			vals[i] = []any_{x}
		case 3:
			vals[i] = map[string]any_{"k": x}
		case 4:
			vals[i] = []any_{map[string]any_{"k": x}}
		}
		want[i] = snapshot(vals[i])
	}
	prepend := Choose(2) == 1
	var r collections.IGenericList
	var got []any_
	if prepend {
		r = base.Prepend(vals...)
		got = elems(r)
		Assert(Eq(snapshot(r), snapshot(cat(want, old))), "prepend values")
		got = got[:n]
	} else {
		r = base.Append(vals...)
		got = elems(r)
		Assert(Eq(snapshot(r), snapshot(cat(old, want))), "append values")
		got = got[len(got)-n:]
	}
	for i := range got {
		switch kinds[i] {
		case 2, 4:
			l, ok := got[i].(collections.IGenericList)
			Assert(ok, "raw slice becomes a list")
			if ok && kinds[i] == 4 {
				_, ok := l.Get(0).(collections.IDictionary)
				Assert(ok, "raw map in a slice becomes a dictionary")
			}
		case 3:
			_, ok := got[i].(collections.IDictionary)
			Assert(ok, "raw map becomes a dictionary")
		}
		Assert(EqTyped(vals[i], want[i]), "caller's slice unchanged")
	}
	Assert(Eq(elems(base), old), "original unchanged")
	Observe("r", r.AsArray())
}

// Verif_C01_samevalues: the same slice of values given to two lists, then the first result is extended (history of 3 operations).
func Verif_C01_samevalues() {
	f := Choose(flavours)
	l1, l2 := flavourList(f, newRaw(Choose(3), Choose(2))), flavourList(f, newRaw(1+Choose(2), Choose(2)))
	o1, o2 := dup(elems(l1)), dup(elems(l2))
	vals := newRaw(Choose(3), Choose(3))
	ov := dup(vals)
	p1, p2 := Choose(2) == 1, Choose(2) == 1
	op := func(p bool, l collections.IGenericList) collections.IGenericList {
		if p {
			return l.Prepend(vals...)
		}
		return l.Append(vals...)
	}
	want := func(p bool, o []any_) []any_ {
		if p {
			return cat(ov, o)
		}
		return cat(o, ov)
	}
	r1 := op(p1, l1)
	r2 := op(p2, l2)
	x := Int()
	r3 := r1.Append(x)
	r4 := r2.Append(Int())
	Assert(Eq(elems(r1), want(p1, o1)), "first result unchanged")
	Assert(Eq(elems(r2), want(p2, o2)), "second result unchanged")
	Assert(Eq(elems(r3), cat(want(p1, o1), []any_{x})), "third result")
	Assert(Eq(elems(l1), o1), "first list unchanged")
	Assert(Eq(elems(l2), o2), "second list unchanged")
	Assert(Eq(vals, ov), "values unchanged")
	Observe("r4", r4.AsArray())
}
