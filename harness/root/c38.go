package main

import (
	"reflect"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C38_texts", Verif_C38_texts)
	Register("Verif_C38_kinds", Verif_C38_kinds)
	Register("Verif_C38_sizes", Verif_C38_sizes)
	Register("Verif_C38_transpose", Verif_C38_transpose)
	Register("Verif_C38_pairs", Verif_C38_pairs)
}

// element38 is a value that a list or a dictionary may hold, with the name of its kind and of its type.
func element38(f, kinds int) (value any_, kind, typ string) {
	names := []string{"base", "json", "yaml", "hcl", "xml"}
	switch Choose(kinds) {
	case 0:
		return Int(), "int", "int"
	case 1:
		return Str(2, "a ,"), "string", "string"
	case 2:
		return Bool(), "bool", "bool"
	case 3:
		return 1.5, "float64", "float64"
	case 4:
		return flavourList(f, []any_{1, "x"}), "slice", names[f] + "List"
	case 5:
		return flavourDict(f, map[string]any_{"k": 1}), "map", names[f] + "Dict"
	}
	return nil, "invalid", "nil"
}

// texts38 is the printed forms of the values.
func texts38(values ...any_) any_ {
	result := make([]any_, len(values))
	for i := range values {
		result[i] = printed(values[i])
	}
	return result
}

func named38(values map[string]any_) any_ {
	result := make(map[string]any_, len(values))
	for k, v := range values {
		result[k] = printed(v)
	}
	return result
}

// Joining a list of up to 2 elements (3 when thorough; any int, text of up to 2 characters, boolean, nil) with any separator of up to 1 character or a number gives the printed
// forms in order; the strings are these forms except for nil, the array of strings has all of them; the list is unchanged.
func Verif_C38_texts() {
	f := Choose(flavours)
	xs := mixed(Choose(3+Tier()), 4)
	l, before := flavourList(f, xs), dup(xs)
	var want, present []string
	for _, x := range xs {
		want = append(want, printed(x))
		if x != nil {
			present = append(present, printed(x))
		}
	}
	var sep any_ = Str(1, ", ")
	if Choose(3) == 0 {
		sep = IntRange(0, 9)
	}
	Assert(string(l.Join(sep)) == strings.Join(want, printed(sep)), "join gives the printed forms in order")
	Assert(strings.Join(l.Strings(), "\n") == strings.Join(present, "\n") && len(l.Strings()) == len(present), "the strings are the printed forms of the elements that are not nil")
	Assert(strings.Join(l.StringArray().Strings(), "\n") == strings.Join(want, "\n") && len(l.StringArray()) == len(want), "the array of strings too")
	Assert(Eq(elems(l), before), "the list is unchanged")
	Reach("end")
}

// The kinds and types of the elements of a list of up to 2 elements and of a dictionary of up to 2 keys (3 when thorough; ints, texts, booleans, floats, lists, dictionaries and nil) name those of each
// element, in order or by key.
func Verif_C38_kinds() {
	f := Choose(flavours)
	n := Choose(3 + Tier())
	values, kinds, types := make([]any_, n), []any_{}, []any_{}
	raw, rawKinds, rawTypes := map[string]any_{}, map[string]any_{}, map[string]any_{}
	for i := range values {
		v, kind, typ := element38(f, 7)
		values[i] = v
		kinds, types = append(kinds, kind), append(types, typ)
		key := "xyz"[i : i+1]
		raw[key], rawKinds[key], rawTypes[key] = v, kind, typ
	}
	if Choose(2) == 0 {
		l := flavourList(f, values)
		described := l.(interface {
			GetKinds() collections.IGenericList
			GetTypes() collections.IGenericList
		})
		Observe("kinds", texts38(elems(described.GetKinds())...))
		Assert(Eq(texts38(elems(described.GetKinds())...), any_(kinds)), "the kinds of the elements")
		Assert(Eq(texts38(elems(described.GetTypes())...), any_(types)), "the types of the elements")
		Assert(l.Len() == n, "the list is unchanged")
	} else {
		d := flavourDict(f, raw)
		Assert(Eq(named38(d.GetKinds().AsMap()), any_(rawKinds)), "the kinds of the values")
		Assert(Eq(named38(d.GetTypes().AsMap()), any_(rawTypes)), "the types of the values")
		Assert(d.Len() == n, "the dictionary is unchanged")
	}
	Reach("end")
}

// The size of a list of up to 4 ints with up to 2 unused places and of a dictionary of up to 3 keys under each of its names; the first and the last element; new lists and dictionaries of the same flavour,
// empty or of up to 3 nil elements.
func Verif_C38_sizes() {
	f := Choose(flavours)
	n, spare := Choose(5), Choose(3)
	raw := newRaw(n, spare)
	l := flavourList(f, raw)
	Assert(l.Len() == n && l.Count() == n, "the size of the list")
	Assert(l.Cap() == n+spare && l.Capacity() == n+spare, "the capacity of the list")
	if n > 0 {
		Assert(Eq(l.First(), raw[0]) && Eq(l.Last(), raw[n-1]), "the first and the last")
	} else {
		Assert(l.First() == nil && l.Last() == nil, "an empty list has neither first nor last")
	}
	m := map[string]any_{}
	for i := 0; i < n && i < 3; i++ {
		m["abc"[i:i+1]] = raw[i]
	}
	d := flavourDict(f, m)
	Assert(d.Len() == len(m) && d.Count() == len(m), "the size of the dictionary")
	same := func(v any_, of any_, what string) {
		Assert(reflect.TypeOf(v) == reflect.TypeOf(of), what+" is of the same flavour")
	}
	k := Choose(4)
	made := l.Create(k)
	same(made, l, "a new list")
	Assert(made.Len() == k, "a new list has the size asked for")
	for _, v := range elems(made) {
		Assert(v == nil, "the elements of a new list are nil")
	}
	same(l.CreateDict(), d, "a new dictionary")
	same(d.Create(), d, "a new dictionary")
	same(d.CreateList(k), l, "a new list")
	Assert(d.CreateList(k).Len() == k && d.Create().Len() == 0 && l.CreateDict(k).Len() == 0, "new objects are empty")
	same(l.New(raw[:n]...), l, "a list of given elements")
	Assert(Eq(elems(l.New(raw[:n]...)), dup(raw[:n])), "a list of given elements holds them")
	dh, lh := l.GetHelpers()
	dh2, lh2 := d.GetHelpers()
	same(dh.CreateDictionary(), d, "the dictionary of the helper of the list")
	same(lh.CreateList(), l, "the list of the helper of the list")
	same(dh2.CreateDictionary(), d, "the dictionary of the helper of the dictionary")
	same(lh2.CreateList(), l, "the list of the helper of the dictionary")
	Assert(l.TypeName() == d.TypeName(), "lists and dictionaries of a flavour have the same name")
	for g := 0; g < flavours; g++ {
		Assert((flavourList(g, nil).TypeName() == l.TypeName()) == (f == g), "each flavour has its own name")
	}
	Reach("end")
}

// Transposing a dictionary of up to 2 keys (3 when thorough), of which the values are any ints from 0 to 1, texts among "x" and "1", or lists of up to 2 of them: each value becomes a key, with the key or the sorted
// list of keys that held it, once for each time it appears; the dictionary is unchanged.
func Verif_C38_transpose() {
	f := Choose(flavours)
	n := Choose(3 + Tier())
	raw := map[string]any_{}
	want := map[string][]any_{}
	add := func(v any_, key string) {
		want[printed(v)] = append(want[printed(v)], key)
	}
	value := func() any_ {
		if Choose(2) == 0 {
			return Choose(2)
		}
		return []string{"x", "1"}[Choose(2)]
	}
	for i := 0; i < n; i++ {
		key := "abc"[i : i+1]
		if Choose(2) == 0 {
			raw[key] = value()
			add(raw[key], key)
			continue
		}
		list := make([]any_, Choose(3))
		for j := range list {
			list[j] = value()
			add(list[j], key)
		}
		raw[key] = flavourList(f, list)
	}
	d := flavourDict(f, raw)
	before := snapshot(d)
	result := d.Transpose()
	Observe("result", snapshot(result))
	Assert(result.Len() == len(want), "each value becomes a key")
	for k, keys := range want {
		if len(keys) == 1 {
			Assert(printed(result.Get(k)) == keys[0], "the value of a key gives this key")
			continue
		}
		list, err := collections.TryAsList(result.Get(k))
		Assert(err == nil && list.Len() == len(keys), "the value of several keys gives their list")
		for i := range keys {
			Assert(printed(list.Get(i)) == keys[i], "the value of several keys gives them in order")
		}
	}
	Assert(Eq(snapshot(d), before), "the dictionary is unchanged")
	Assert(reflect.TypeOf(result) == reflect.TypeOf(d), "the result is of the same flavour")
	Reach("end")
}

// The keys of a dictionary of up to 3 keys of up to 2 characters among "a", "B" and "1" are sorted, and its values are in the order of the keys.
func Verif_C38_pairs() {
	f := Choose(flavours)
	n := Choose(4)
	raw := map[string]any_{}
	var names []string
	for i := 0; i < n; i++ {
		name := ConcreteStr(Str(2-i/2, "aB1"))
		if _, exist := raw[name]; exist {
			Assume(false)
		}
		raw[name] = Int()
		names = append(names, name)
	}
	d := flavourDict(f, raw)
	keys, values := elems(d.GetKeys()), elems(d.GetValues())
	Assert(len(keys) == n && len(values) == n && len(d.KeysAsString()) == n, "as many keys and values as pairs")
	for i := range keys {
		key := printed(keys[i])
		found := false
		for _, name := range names {
			found = found || name == key
		}
		Assert(found, "the keys are those of the dictionary")
		Assert(i == 0 || printed(keys[i-1]) < key, "the keys are sorted")
		Assert(string(d.KeysAsString()[i]) == key, "the keys as strings are the keys")
		Assert(Eq(values[i], raw[key]), "the values are in the order of the keys")
	}
	Assert(collections.IDictionary(d).Len() == n, "the dictionary is unchanged")
	Reach("end")
}
