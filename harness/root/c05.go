package main

import (
	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/utils"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C05_merge", Verif_C05_merge)
	Register("Verif_C05_utils", Verif_C05_utils)
}

// mergeTree is a map over the keys a, b whose values are absent, an int, (a only) a nested map of depth-1, or a list.
func mergeTree(depth int) map[string]any_ {
	m := map[string]any_{}
	if depth == 0 {
		if Choose(2) == 1 {
			m["a"] = Int()
		}
		return m
	}
	switch Choose(4) {
	case 1:
		m["a"] = Int()
	case 2:
		m["a"] = mergeTree(depth - 1)
	case 3:
		m["a"] = nil
	}
	if Choose(2) == 1 {
		m["b"] = []any_{Int()}
	}
	return m
}

// mergeModel merges b into a copy of a: values of a win, maps are merged.
func mergeModel(a, b map[string]any_) map[string]any_ {
	r := copyMap(a)
	for k, v := range b {
		w, ok := r[k]
		if !ok {
			r[k] = v
			continue
		}
		p, ok1 := w.(map[string]any_)
		q, ok2 := v.(map[string]any_)
		if ok1 && ok2 {
			r[k] = mergeModel(p, q)
		}
	}
	return r
}

func toFlavour(f int, v any_) any_ {
	switch x := v.(type) {
	case map[string]any_:
		m := map[string]any_{}
		for k, e := range x {
			m[k] = toFlavour(f, e)
		}
		return flavourDict(f, m)
	case []any_:
		l := make([]any_, len(x))
		for i := range x {
			l[i] = toFlavour(f, x[i])
		}
		return flavourList(f, l)
	}
	return v
}

// Verif_C05_merge: a destination and 1-2 sources over the keys a, b (values: int, nil, list, nested dictionaries of depth <= 2), 5 flavours
// (sources may have another flavour than the destination): destination wins, deep merge, sources unchanged.
func Verif_C05_merge() {
	f := Choose(flavours)
	g := f
	if Choose(2) == 1 {
		g = (f + 1) % flavours
	}
	md, m1 := mergeTree(2), mergeTree(2)
	m2 := map[string]any_{}
	two := Choose(2) == 1
	if two {
		m2 = mergeTree(1)
	}
	dest := toFlavour(f, md).(collections.IDictionary)
	s1 := toFlavour(g, m1).(collections.IDictionary)
	s2 := toFlavour(f, m2).(collections.IDictionary)
	want := mergeModel(mergeModel(md, m1), m2)
	var r collections.IDictionary
	if two {
		r = dest.Merge(s1, s2)
	} else {
		r = dest.Merge(s1)
	}
	Assert(Eq(snapshot(r), snapshot(want)), "merged value")
	Assert(Eq(snapshot(s1), snapshot(m1)), "first source unchanged")
	Assert(Eq(snapshot(s2), snapshot(m2)), "second source unchanged")
	Assert(allCollections(r), "merged value made of collections")
	Observe("r", r)
}

// Verif_C05_utils: utils.MergeDictionaries on 1-3 raw maps (depth <= 1 and 2): first ones win, arguments unchanged.
func Verif_C05_utils() {
	m1 := mergeTree(2)
	m2 := mergeTree(1)
	m3 := mergeTree(0)
	s1, s2, s3 := snapshot(m1), snapshot(m2), snapshot(m3)
	n := 1 + Choose(3)
	args := []map[string]any_{m1, m2, m3}[:n]
	r, err := utils.MergeDictionaries(args...)
	Assert(err == nil, "no error")
	want := m1
	if n > 1 {
		want = mergeModel(want, s2.(map[string]any_))
	}
	if n > 2 {
		want = mergeModel(want, s3.(map[string]any_))
	}
	Assert(Eq(r, snapshot(want)), "merged value")
	Assert(Eq(m1, s1), "first unchanged")
	Assert(Eq(m2, s2), "second unchanged")
	Assert(Eq(m3, s3), "third unchanged")
}
