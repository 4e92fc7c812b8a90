package main

import (
	"fmt"
	"reflect"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C09_convert", Verif_C09_convert)
	Register("Verif_C09_mixedFlavours", Verif_C09_mixedFlavours)
	Register("Verif_C09_stored", Verif_C09_stored)
	Register("Verif_C09_leaves", Verif_C09_leaves)
}

type (
	c09Map     map[string]any_
	c09List    []any_
	c09Named   map[string]c09List
	c09Strings []string
	c09Int     int
	c09Struct  struct{ A []int }
)

// c09Raw builds raw nested data of various Go types.
func c09Raw(depth int, leafOnly bool) any_ {
	kinds := 12
	if leafOnly || depth == 0 {
		kinds = 3
	}
	switch Choose(kinds) {
	case 0:
		return Int()
	case 1:
		return nil
	case 2:
		return StrN(1, "a1")
	case 3:
		return []any_{c09Raw(depth-1, false), Int()}
	case 4:
		return [2]any_{Int(), c09Raw(depth-1, false)}
	case 5:
		return c09List{c09Raw(depth-1, false)}
	case 6:
		return []string{StrN(1, "ab"), "x"}
	case 7:
		return map[string]any_{"k": c09Raw(depth-1, false), "l": Int()}
	case 8:
		return map[any_]any_{1: c09Raw(depth-1, false), "k": Int(), true: nil}
	case 9:
		return map[int]any_{7: c09Raw(depth-1, false), -1: nil}
	case 10:
		return c09Map{"k": c09Raw(depth-1, false)}
	}
	return c09Named{"k": c09List{c09Raw(depth-1, false), nil}, "l": nil}
}

// faithful tells that conv is the conversion of raw: collections at every depth, same keys, order and leaves.
func faithful(raw, conv any_) bool {
	if raw == nil {
		return conv == nil
	}
	v := reflect.ValueOf(raw)
	switch v.Kind() {
	case reflect.Map:
		d, ok := conv.(collections.IDictionary)
		if !ok || d.Len() != v.Len() {
			return false
		}
		m := d.AsMap()
		for _, k := range v.MapKeys() {
			e, has := m[fmt.Sprint(k.Interface())]
			if !has || !faithful(v.MapIndex(k).Interface(), e) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		l, ok := conv.(collections.IGenericList)
		if !ok || l.Len() != v.Len() {
			return false
		}
		a := l.AsArray()
		r := true
		for i := range a {
			r = And(r, faithful(v.Index(i).Interface(), a[i]))
		}
		return r
	}
	return EqTyped(raw, conv)
}

// Data of depth <= 2 (quick) or 3 (thorough) made of []interface{}, [2]interface{}, []string, named slices and maps, maps
// keyed by strings, ints and mixed values; leaves are arbitrary ints, nil and one-letter strings; every flavour.
func Verif_C09_convert() {
	f := Choose(flavours)
	raw := c09Raw(2+Tier(), false)
	dh, lh := flavourDict(f, nil).GetHelpers()
	Assert(faithful(raw, dh.Convert(raw)), "converting yields collections at every depth without losing anything")
	Assert(faithful(raw, lh.Convert(raw)), "the list helper converts as the dictionary helper")
	if raw == nil {
		return
	}
	switch reflect.ValueOf(raw).Kind() {
	case reflect.Map:
		d, err := dh.TryAsDictionary(raw)
		Assert(err == nil && faithful(raw, d), "a map becomes a dictionary")
		Assert(EqTyped(d.GetKeys().Len(), reflect.ValueOf(raw).Len()), "the dictionary lists every key")
		d, err = dh.TryAsDictionary(d)
		Assert(err == nil && faithful(raw, d), "converting a converted dictionary changes nothing")
		_, err = lh.TryAsList(raw)
		Assert(err != nil, "a map is not a list")
	case reflect.Slice, reflect.Array:
		l, err := lh.TryAsList(raw)
		Assert(err == nil && faithful(raw, l), "a sequence becomes a list")
		l, err = lh.TryAsList(l)
		Assert(err == nil && faithful(raw, l), "converting a converted list changes nothing")
		Assert(faithful(raw, lh.NewList(raw)), "a new list built from one sequence has its elements")
		_, err = dh.TryAsDictionary(raw)
		Assert(err != nil, "a sequence is not a dictionary")
	default:
		_, err := dh.TryAsDictionary(raw)
		_, err2 := lh.TryAsList(raw)
		Assert(err != nil && err2 != nil, "a leaf is neither a dictionary nor a list")
	}
	Reach("end")
}

// A collection of one flavour holding raw data of depth <= 1 converted by the helper of another flavour; pointers to the
// collection are followed.
func Verif_C09_mixedFlavours() {
	f, g := Choose(flavours), Choose(flavours)
	raw := c09Raw(1, false)
	dh, lh := flavourDict(g, nil).GetHelpers()
	if Choose(2) == 0 {
		src := map[string]any_{"a": flavourList(f, []any_{raw, 1}), "b": map[string]any_{"c": raw}}
		m := any_(src)
		switch Choose(3) {
		case 0:
			m = flavourDict(f, src)
		case 1:
			m = &src
		}
		expected := map[string]any_{"a": []any_{raw, 1}, "b": map[string]any_{"c": raw}}
		Assert(faithful(expected, dh.AsDictionary(m)), "a dictionary of another flavour is converted at every depth")
		Assert(faithful(expected, lh.Convert(m)), "converting a dictionary of another flavour")
	} else {
		src := []any_{flavourDict(f, map[string]any_{"a": raw}), []any_{raw}, 2}
		m := any_(src)
		switch Choose(3) {
		case 0:
			m = flavourList(f, src)
		case 1:
			m = &src
		}
		expected := []any_{map[string]any_{"a": raw}, []any_{raw}, 2}
		Assert(faithful(expected, lh.AsList(m)), "a list of another flavour is converted at every depth")
		Assert(faithful(expected, dh.Convert(m)), "converting a list of another flavour")
	}
	Reach("end")
}

// Raw data of depth <= 1 (quick) or 2 (thorough) given to a list or dictionary of any flavour is stored converted.
func Verif_C09_stored() {
	f := Choose(flavours)
	raw := c09Raw(1+Tier(), false)
	l, d := flavourList(f, []any_{1}), flavourDict(f, map[string]any_{})
	Assert(faithful([]any_{1, raw}, l.Append(raw)), "an appended value is converted")
	Assert(faithful([]any_{raw, 1}, l.Prepend(raw)), "a prepended value is converted")
	Assert(faithful([]any_{5, raw}, l.New(5, raw)), "the elements of a new list are converted")
	r, err := l.Set(0, raw)
	Assert(err == nil && faithful([]any_{raw}, r), "a value set in a list is converted")
	d.Set("k", raw)
	Assert(faithful(map[string]any_{"k": raw}, d), "a value set in a dictionary is converted")
	d.Add("k2", raw)
	Assert(faithful(raw, d.Get("k2")), "a value added to a dictionary is converted")
	Reach("end")
}

// Values that are neither maps nor sequences: numbers, text, booleans, structures, pointers to leaves, nil pointers,
// functions-free values; every flavour.
func Verif_C09_leaves() {
	f := Choose(flavours)
	dh, lh := flavourDict(f, nil).GetHelpers()
	x := Int()
	var nilInt *int
	var nilMap *map[string]any_
	var leaf any_
	switch Choose(9) {
	case 0:
		leaf = x
	case 1:
		leaf = Bool()
	case 2:
		leaf = Str(2, "a[{,:]}1")
	case 3:
		leaf = c09Int(x)
	case 4:
		leaf = c09Struct{[]int{x}}
	case 5:
		leaf = &x
	case 6:
		leaf = nilInt
	case 7:
		leaf = nilMap
	case 8:
		leaf = Float64()
	}
	Assert(EqTyped(leaf, dh.Convert(leaf)), "a leaf is left as it is")
	Assert(EqTyped(leaf, lh.Convert(leaf)), "a leaf is left as it is by the list helper")
	_, ok := dh.TryConvert(leaf)
	Assert(!ok, "nothing is reported as converted")
	l := flavourList(f, nil).Append(leaf, []any_{leaf})
	Assert(EqTyped(leaf, l.Get(0)), "a leaf appended to a list is left as it is")
	Assert(EqTyped(leaf, l.Get(1).(collections.IGenericList).Get(0)), "a leaf nested in a list is left as it is")
	d := flavourDict(f, map[string]any_{})
	d.Set("k", leaf)
	Assert(EqTyped(leaf, d.AsMap()["k"]), "a leaf set in a dictionary is left as it is")
	_, err := dh.TryAsDictionary(leaf)
	_, err2 := lh.TryAsList(leaf)
	Assert(err != nil && err2 != nil, "a leaf is neither a dictionary nor a list")
	Reach("end")
}
