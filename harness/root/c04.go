package main

import (
	"sort"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C04_ops", Verif_C04_ops)
	Register("Verif_C04_listing", Verif_C04_listing)
	Register("Verif_C04_history", Verif_C04_history)
}

// anyKey is a key whose printed form is one of a, b, 1, 2: a letter or digit string, an int, or a collections.String.
func anyKey() any_ {
	switch Choose(3) {
	case 0:
		return string(ByteIn("ab12"))
	case 1:
		return IntRange(1, 2)
	}
	return collections.String(string(ByteIn("a1")))
}

// subset is a dictionary with any subset of the keys a, b, 1 holding arbitrary ints (or nil for b).
func subset() map[string]any_ {
	m := map[string]any_{}
	if Choose(2) == 1 {
		m["a"] = Int()
	}
	switch Choose(3) {
	case 1:
		m["b"] = Int()
	case 2:
		m["b"] = nil
	}
	if Choose(2) == 1 {
		m["1"] = Int()
	}
	return m
}

func copyMap(m map[string]any_) map[string]any_ {
	r := map[string]any_{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Verif_C04_ops: one operation (get, has, default, set, delete, flush, pop, omit, restricted clone) with 0-2 arbitrary keys (printed forms
// a, b, 1, 2 given as string, int or String) on any dictionary over {a, b, 1}, compared with a finite map; 5 flavours.
func Verif_C04_ops() {
	f := Choose(flavours)
	m := subset()
	model := copyMap(m)
	before := copyMap(m)
	d := flavourDict(f, m)
	op := Choose(9)
	n := Choose(3)
	keys := make([]any_, n)
	ks := make([]string, n)
	for i := range keys {
		keys[i] = anyKey()
		ks[i] = ConcreteStr(printed(keys[i]))
	}
	okeys := dup(keys)
	unchanged := true
	switch op {
	case 0:
		got := d.Get(keys...)
		switch n {
		case 0:
			Assert(got == nil, "get nothing")
		case 1:
			Assert(Eq(got, model[ks[0]]), "get")
		default:
			Assert(Eq(got, []any_{model[ks[0]], model[ks[1]]}), "get several")
		}
	case 1:
		all := len(model) > 0
		for _, k := range ks {
			_, ok := model[k]
			all = all && ok
		}
		Assert(d.Has(keys...) == all, "has")
	case 2:
		Assume(n == 1)
		def := Int()
		want, ok := model[ks[0]]
		if !ok {
			want = def
		}
		Assert(Eq(d.Default(keys[0], def), want), "default")
	case 3:
		Assume(n == 1)
		unchanged = false
		v := Int()
		r := d.Set(keys[0], v)
		model[ks[0]] = v
		Assert(Eq(r.AsMap(), model), "set result")
		Assert(Eq(d.AsMap(), model), "set")
	case 4:
		Assume(n > 0)
		unchanged = false
		_, err := d.Delete(keys[0], keys[1:]...)
		fail := false
		for _, k := range ks {
			if _, ok := model[k]; !ok {
				fail = true
				break
			}
			delete(model, k)
		}
		Assert((err != nil) == fail, "deleting an absent key is an error")
		Assert(Eq(d.AsMap(), model), "delete removes exactly the named entries")
	case 5:
		unchanged = false
		r := d.Flush(keys...)
		for _, k := range ks {
			delete(model, k)
		}
		if n == 0 {
			model = map[string]any_{}
		}
		Assert(Eq(d.AsMap(), model), "flush")
		Assert(Eq(r.AsMap(), model), "flush result")
	case 6:
		unchanged = false
		got := d.Pop(keys...)
		switch n {
		case 0:
			Assert(got == nil, "pop nothing")
		case 1:
			Assert(Eq(got, before[ks[0]]), "pop")
		default:
			Assert(Eq(got, []any_{before[ks[0]], before[ks[1]]}), "pop several")
		}
		for _, k := range ks {
			delete(model, k)
		}
		Assert(Eq(d.AsMap(), model), "pop removes exactly the named entries")
	case 7:
		Assume(n > 0)
		r := d.Omit(keys[0], keys[1:]...)
		for _, k := range ks {
			delete(model, k)
		}
		Assert(Eq(r.AsMap(), model), "omit")
	case 8:
		r := d.Clone(keys...)
		if n == 0 {
			Assert(Eq(r.AsMap(), model), "clone")
		}
		for _, k := range ks {
			Assert(Eq(r.Get(k), model[k]), "restricted clone")
		}
		if n > 0 {
			Assert(r.Len() <= n, "restricted clone has only the named entries")
		}
	}
	if unchanged {
		Assert(Eq(d.AsMap(), before), "dictionary unchanged")
	}
	Assert(Eq(keys, okeys), "keys unchanged")
	Observe("d", d.AsMap())
}

// Verif_C04_listing: keys and values of dictionaries of 0-4 entries with arbitrary one-letter keys inserted in any order are complete and sorted,
// under every iteration order of the map (up to 4 entries: every rotation, both directions); 5 flavours.
func Verif_C04_listing() {
	MapOrder(2)
	f := Choose(flavours)
	max := 4
	if Tier() > 0 {
		max = 5
	}
	n := Choose(max)
	m := map[string]any_{}
	ks := make([]string, n)
	vs := map[string]any_{}
	for i := 0; i < n; i++ {
		ks[i] = ConcreteStr(string(ByteIn("abcd")))
		for j := 0; j < i; j++ {
			Assume(ks[i] != ks[j])
		}
		m[ks[i]] = Int()
		vs[ks[i]] = m[ks[i]]
	}
	d := flavourDict(f, m)
	sort.Strings(ks)
	gk := d.GetKeys().Strings()
	Assert(Eq(gk, ks), "keys complete and sorted")
	want := []any_{}
	for _, k := range ks {
		want = append(want, vs[k])
	}
	Assert(Eq(elems(d.GetValues()), want), "values complete and in key order")
	str := ""
	for i, k := range d.KeysAsString() {
		str += string(k)
		Assert(string(k) == ks[i], "string keys sorted")
	}
	Assert(len(str) == n, "string keys complete")
}

// Verif_C04_history: three arbitrary set/delete/flush/pop operations with keys a, b, 1 on an initially empty dictionary, compared with a finite map.
func Verif_C04_history() {
	f := Choose(flavours)
	d := flavourDict(f, map[string]any_{})
	model := map[string]any_{}
	steps := 3
	if Tier() > 0 {
		steps = 4
	}
	for i := 0; i < steps; i++ {
		k := string("ab1"[Choose(3)])
		switch Choose(4) {
		case 0:
			v := Int()
			d = d.Set(k, v)
			model[k] = v
		case 1:
			_, err := d.Delete(k)
			_, ok := model[k]
			Assert((err == nil) == ok, "delete error")
			delete(model, k)
		case 2:
			d.Flush(k)
			delete(model, k)
		case 3:
			Assert(Eq(d.Pop(k), model[k]), "pop value")
			delete(model, k)
		}
		Assert(Eq(d.AsMap(), model), "same entries")
		Assert(d.Len() == len(model), "same length")
	}
}
