package main

import (
	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C06_clone", Verif_C06_clone)
	Register("Verif_C06_keys", Verif_C06_keys)
}

// tree builds a nested structure of collections of flavour f: depth containers at most, leaves are arbitrary ints or nil.
func tree(f, depth, width int, raw bool) any_ {
	kinds := 4
	if depth == 0 {
		kinds = 2
	}
	switch Choose(kinds) {
	case 0:
		return Int()
	case 1:
		return nil
	case 2:
		l := make([]any_, Choose(width+1))
		for i := range l {
			l[i] = tree(f, depth-1, 1, raw)
		}
		if raw {
			return l
		}
		return flavourList(f, l)
	}
	m := map[string]any_{}
	n := Choose(width + 1)
	for i := 0; i < n; i++ {
		m[string(rune('a'+i))] = tree(f, depth-1, 1, raw)
	}
	if raw {
		return m
	}
	return flavourDict(f, m)
}

// scramble changes every container reachable from v.
func scramble(v any_) {
	switch x := v.(type) {
	case collections.IDictionary:
		for _, k := range x.GetKeys().AsArray() {
			scramble(x.Get(k))
			x.Set(k, "changed")
		}
		x.Set("zz", 1)
		if x.Has("a") {
			x.Delete("a")
		}
	case collections.IGenericList:
		for i := range x.AsArray() {
			scramble(x.Get(i))
			x.Set(i, "changed")
		}
	}
}

func allCollections(v any_) bool {
	switch x := v.(type) {
	case collections.IDictionary:
		for _, e := range x.AsMap() {
			if !allCollections(e) {
				return false
			}
		}
		return true
	case collections.IGenericList:
		for _, e := range x.AsArray() {
			if !allCollections(e) {
				return false
			}
		}
		return true
	case []any_, map[string]any_:
		return false
	}
	return true
}

// Verif_C06_clone: dictionaries and lists of 0-2 entries whose values are trees of depth <= 2 (arbitrary ints, nil, nested lists and dictionaries,
// possibly raw maps and slices), 5 flavours: the clone is equal, and scrambling either side leaves the other unchanged.
func Verif_C06_clone() {
	f := Choose(flavours)
	raw := Choose(2) == 1
	depth := 2
	if f > 0 && Tier() == 0 {
		depth = 1
	}
	var orig, clone any_
	if Choose(2) == 0 {
		m := map[string]any_{}
		n := Choose(3)
		for i := 0; i < n; i++ {
			m[string(rune('a'+i))] = tree(f, depth-i, 2-i, raw)
		}
		d := flavourDict(f, m)
		orig, clone = d, d.Clone()
	} else {
		l := make([]any_, Choose(3))
		for i := range l {
			l[i] = tree(f, depth-i, 2-i, raw)
		}
		d := flavourList(f, l)
		orig, clone = d, d.Clone()
	}
	before := snapshot(orig)
	Assert(Eq(snapshot(clone), before), "clone equals the original")
	Assert(allCollections(clone), "clone made of collections")
	if Choose(2) == 0 {
		scramble(clone)
		Assert(Eq(snapshot(orig), before), "original unaffected by changes to the clone")
	} else {
		scramble(orig)
		Assert(Eq(snapshot(clone), before), "clone unaffected by changes to the original")
	}
	Observe("clone", clone)
}

// Verif_C06_keys: restricted clones (0-2 keys among a, b, c, repeated or absent) of dictionaries with 0-3 of these keys, 5 flavours.
func Verif_C06_keys() {
	f := Choose(flavours)
	m := map[string]any_{}
	for i := 0; i < 3; i++ {
		if Choose(2) == 1 {
			m[string(rune('a'+i))] = tree(f, 1, 1, false)
		}
	}
	d := flavourDict(f, m)
	before := snapshot(d)
	n := Choose(3)
	keys := make([]any_, n)
	want := map[string]any_{}
	for i := range keys {
		k := string(ByteIn("abc"))
		keys[i] = k
		want[k] = m[k]
	}
	c := d.Clone(keys...)
	if n == 0 {
		want = m
	}
	for k := range want {
		if _, ok := m[k]; ok {
			Assert(Eq(snapshot(c.Get(k)), snapshot(m[k])), "named entry copied")
		} else {
			Assert(c.Get(k) == nil, "absent entry stays empty")
		}
	}
	for _, k := range c.GetKeys().Strings() {
		_, ok := want[k]
		Assert(ok, "only named entries")
	}
	scramble(c)
	Assert(Eq(snapshot(d), before), "original unaffected")
}
