package template

import (
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C43_lists", Verif_C43_lists)
	Register("Verif_C43_build", Verif_C43_build)
	Register("Verif_C43_ends", Verif_C43_ends)
	Register("Verif_C43_contains", Verif_C43_contains)
	Register("Verif_C43_find_text", Verif_C43_find_text)
	Register("Verif_C43_remove", Verif_C43_remove)
	Register("Verif_C43_set", Verif_C43_set)
	Register("Verif_C43_dict", Verif_C43_dict)
	Register("Verif_C43_merge", Verif_C43_merge)
	Register("Verif_C43_default", Verif_C43_default)
	Register("Verif_C43_bool", Verif_C43_bool)
}

// anyList43 gives the elements under one of the forms of lists: each flavour, a slice.
func anyList43(xs []any_) any_ {
	f := Choose(flavours + 1)
	if f == flavours {
		return xs
	}
	return flavourList(f, xs)
}

func uniq43(l []any_) []any_ {
	r := []any_{}
	for _, x := range l {
		if !inPrinted(x, r) {
			r = append(r, x)
		}
	}
	return r
}

// unique, union, intersect and without on lists (each flavour, or a slice) of 0 to 2 (3) elements and 0 to 2 arguments (ints from -2 to 1000, texts of one letter), or on a scalar as a list of one element.
func Verif_C43_lists() {
	element := func() any_ {
		if Choose(2) == 0 {
			return IntRange(-2, 1000)
		}
		return StrN(1, "a1")
	}
	elements := func(n int) []any_ {
		r := []any_{}
		for i := 0; i < n; i++ {
			r = append(r, element())
		}
		return r
	}
	xs, ys := elements(Choose(3+Tier())), elements(Choose(3))
	ox := dup(xs)
	var l any_
	if Choose(6) == 0 {
		Reach("scalar")
		xs = elements(1)
		ox = dup(xs)
		l = xs[0]
	} else {
		l = anyList43(xs)
	}
	name := []string{"unique", "union", "intersect", "without"}[Choose(4)]
	var r any_
	var err error
	want := []any_{}
	switch name {
	case "unique":
		r, err = data(name, l)
		want = uniq43(ox)
	case "union":
		r, err = data(name, append([]any_{l}, ys...)...)
		want = uniq43(cat(ox, ys))
	case "intersect":
		r, err = data(name, append([]any_{l}, ys...)...)
		for _, x := range uniq43(ox) {
			if inPrinted(x, ys) {
				want = append(want, x)
			}
		}
	case "without":
		r, err = data(name, append([]any_{l}, ys...)...)
		for _, x := range ox {
			if !inPrinted(x, ys) {
				want = append(want, x)
			}
		}
	}
	Assert(err == nil && Eq(elems(r), want), name)
	if _, scalar := l.(int); !scalar {
		if _, text := l.(string); !text {
			Assert(Eq(elems(l), ox), "the list is unchanged")
		}
	}
}

// list, append, prepend, reverse, keys and values on 0 to 3 elements (ints, texts), with lists of each flavour, slices, a scalar and nil as the list.
func Verif_C43_build() {
	xs, ys := mixed2(Choose(3)), mixed2(Choose(3))
	ox := dup(xs)
	l := anyList43(xs)
	switch Choose(5) {
	case 0:
		r, err := data("list", ys...)
		Assert(err == nil && Eq(elems(r), ys), "a list holds its arguments")
	case 1:
		r, err := data("append", append([]any_{l}, ys...)...)
		Assert(err == nil && Eq(elems(r), cat(ox, ys)), "the elements are appended in order")
	case 2:
		r, err := data("prepend", append([]any_{l}, ys...)...)
		Assert(err == nil && Eq(elems(r), cat(ys, ox)), "the elements are prepended in order")
	case 3:
		r, err := data("reverse", l)
		want := []any_{}
		for i := len(ox) - 1; i >= 0; i-- {
			want = append(want, ox[i])
		}
		Assert(err == nil && Eq(elems(r), want), "the elements are in the reverse order")
	case 4:
		x := scalar2()
		r, err := data("append", append([]any_{x}, ys...)...)
		Assert(err == nil && Eq(elems(r), cat([]any_{x}, ys)), "a scalar is a list of one element")
	}
	Assert(Eq(elems(l), ox), "the list is unchanged")
}

// rest and initial on lists (each flavour, slice) of 1 to 4 elements and texts of 1 to 4 characters: all but the first, all but the last.
func Verif_C43_ends() {
	if Choose(2) == 0 {
		Reach("text")
		s := Str(4, "abc")
		Assume(len(s) > 1)
		r, err := data("rest", s)
		Assert(err == nil && printed(r) == s[1:], "all characters but the first")
		r, err = data("initial", s)
		Assert(err == nil && printed(r) == s[:len(s)-1], "all characters but the last")
		return
	}
	Reach("list")
	xs := mixed2(2 + Choose(3))
	ox := dup(xs)
	l := anyList43(xs)
	r, err := data("rest", l)
	Assert(err == nil && Eq(elems(r), ox[1:]), "all elements but the first")
	r, err = data("initial", l)
	Assert(err == nil && Eq(elems(r), ox[:len(ox)-1]), "all elements but the last")
	Assert(Eq(elems(l), ox), "the list is unchanged")
}

// contains and containsStrict: a list (each flavour, slice) of 0 to 2 elements and one or two elements, in this order or with the list last, and a text in a text of up to 3 characters; find and findStrict on lists.
func Verif_C43_contains() {
	strict := Bool()
	name, find := "contains", "find"
	if strict {
		name, find = "containsStrict", "findStrict"
	}
	if Choose(4) == 0 {
		Reach("text")
		s, sub := Str(3, "ab1"), Str(2, "ab1")
		var in any_ = s
		if Choose(2) == 0 {
			in = collections.String(s)
		}
		r, err := data(name, sub, in)
		Assert(err == nil && r == strings.Contains(s, sub), "a text holds a text")
		return
	}
	xs, ys := mixed2(Choose(3)), mixed2(1+Choose(2))
	ox := dup(xs)
	l := anyList43(xs)
	same := func(x, y any_) bool {
		if strict {
			return x == y
		}
		return printed(x) == printed(y)
	}
	all := len(ox) > 0
	for _, y := range ys {
		in := false
		for _, x := range ox {
			in = Or(in, same(x, y))
		}
		all = And(all, in)
	}
	if len(ys) == 1 && Choose(2) == 0 {
		Reach("list last")
		r, err := data(name, ys[0], l)
		Assert(err == nil && r == all, "a list given last holds an element")
	} else {
		Reach("list first")
		r, err := data(name, append([]any_{l}, ys...)...)
		Assert(err == nil && r == all, "a list holds elements")
	}
	positions := []any_{}
	for i, x := range ox {
		if same(x, ys[0]) {
			positions = append(positions, i)
		}
	}
	r, err := data(find, l, ys[0])
	Assert(err == nil && Eq(elems(r), positions), "the positions of an element")
	Assert(Eq(elems(l), ox), "the list is unchanged")
}

// find and findStrict of a text of 1 or 2 characters, or of a digit, in a text of up to 5 characters: every position, those that overlap a previous one excepted.
func Verif_C43_find_text() {
	s, sub := Str(5, "ab1"), Str(2, "ab1")
	Assume(sub != "")
	var element any_ = sub
	if sub == "1" {
		element = 1
	}
	var in any_ = s
	if Choose(2) == 0 {
		in = collections.String(s)
	}
	want := []any_{}
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			want = append(want, i)
			i += len(sub)
		} else {
			i++
		}
	}
	r, err := data([]string{"find", "findStrict"}[Choose(2)], in, element)
	Assert(err == nil && len(elems(r)) == len(want), "all positions are found")
	for i := range want {
		Assert(elems(r)[i] == want[i], "the positions are exact")
	}
}

// removeEmpty and removeNil on lists (each flavour, slice) of 0 to 3 elements among any int, texts of up to 1 letter, nil, booleans and lists of up to 1 element: nil, "" and an empty list are empty, 0 and false are not.
func Verif_C43_remove() {
	xs, noNil, noEmpty := []any_{}, []any_{}, []any_{}
	for i, n := 0, Choose(4); i < n; i++ {
		var x any_
		empty := false
		switch Choose(5) {
		case 0:
			x = IntRange(-2, 2)
		case 1:
			v := Str(1, "a0")
			x, empty = v, v == ""
		case 2:
			empty = true
		case 3:
			x = Bool()
		case 4:
			k := Choose(2)
			x, empty = flavourList(1, []any_{1}[:k]), k == 0
		}
		xs = append(xs, x)
		if x != nil {
			noNil = append(noNil, x)
		}
		if !empty {
			noEmpty = append(noEmpty, x)
		}
	}
	l := anyList43(xs)
	r, err := data("removeNil", l)
	Assert(err == nil && Eq(elems(r), noNil), "nil elements are removed, and no other")
	r, err = data("removeEmpty", l)
	Assert(err == nil && Eq(elems(r), noEmpty), "empty elements are removed, and no other")
}

// anyDict43 gives the entries under one of the forms of dictionaries: each flavour, a map.
func anyDict43(m map[string]any_) any_ {
	f := Choose(flavours + 1)
	if f == flavours {
		return m
	}
	return flavourDict(f, m)
}

func map43(keys string) map[string]any_ {
	m := map[string]any_{}
	for _, k := range keys {
		if Bool() {
			m[string(k)] = Int()
		}
	}
	return m
}

func same43(d any_, m map[string]any_) bool {
	dict := collections.AsDictionary(d)
	r := dict.Len() == len(m)
	for k, v := range m {
		r = And(r, And(dict.Has(k), dict.Get(k) == v))
	}
	return r
}

// set and unset with the dictionary (each flavour, a map) first or last, on keys present or not, a text or a number: exactly the entry named is changed; set and unset refuse what is not a dictionary.
func Verif_C43_set() {
	m := map43("ab1")
	want := copyMap(m)
	var key any_ = StrN(1, "ab1c")
	if Choose(3) == 0 {
		key = 1
	}
	v := Int()
	d := anyDict43(m)
	k := printed(key)
	var r any_
	var err error
	switch Choose(6) {
	case 0:
		r, err = data("set", d, key, v)
		want[k] = v
	case 1:
		r, err = data("set", key, v, d)
		want[k] = v
	case 2:
		r, err = data("unset", d, key)
		delete(want, k)
	case 3:
		r, err = data("unset", key, d)
		delete(want, k)
	case 4:
		_, err = data("set", "a", "b", "c")
		Assert(err != nil, "not a dictionary")
		return
	case 5:
		_, err = data("unset", "a", "b")
		Assert(err != nil, "not a dictionary")
		return
	}
	Assert(err == nil && r == "", "nothing is printed")
	Assert(same43(d, want), "exactly the entry is changed")
}

// dict with 0 to 5 arguments (keys that may be the same, a text or a number): an even number gives the dictionary of the pairs, the last value given for a key is kept; keys and values of a dictionary of up to 3 entries.
func Verif_C43_dict() {
	if Choose(2) == 0 {
		Reach("dict")
		n := Choose(6)
		args := []any_{}
		want := map[string]any_{}
		for i := 0; i < n; i += 2 {
			var key any_ = StrN(1, "ab")
			if Choose(3) == 0 {
				key = 7
			}
			v := Int()
			args = append(args, key, v)
			want[printed(key)] = v
		}
		args = args[:n]
		r, err := data("dict", args...)
		if n%2 == 1 {
			Assert(err != nil, "a key without value is refused")
			return
		}
		Assert(err == nil && same43(r, want), "the dictionary of the pairs")
		return
	}
	Reach("keys")
	m := map43("abc")
	d := flavourDict(Choose(flavours), m)
	keys, values := []any_{}, []any_{}
	for _, k := range []string{"a", "b", "c"} {
		if v, is := m[k]; is {
			keys, values = append(keys, k), append(values, v)
		}
	}
	r, err := data("keys", d)
	Assert(err == nil && printed(elems(r)) == printed(keys), "the keys in order")
	r, err = data("values", d)
	Assert(err == nil && Eq(elems(r), values), "the values in the order of the keys")
}

// merge of 2 or 3 dictionaries of each flavour of up to 2 entries: the first one that has a key has precedence, the result is in the first one, the others are unchanged.
func Verif_C43_merge() {
	a, b := map43("ab"), map43("ab")
	want := copyMap(b)
	for k, v := range a {
		want[k] = v
	}
	f := Choose(flavours)
	da, db := flavourDict(f, a), flavourDict(Choose(flavours), b)
	ob := copyMap(b)
	args := []any_{da, db}
	var c, oc map[string]any_
	if Choose(2) == 0 {
		Reach("three")
		c = map[string]any_{"a": 1, "c": 2}
		oc = copyMap(c)
		args = append(args, flavourDict(f, c))
		for k, v := range c {
			if _, is := want[k]; !is {
				want[k] = v
			}
		}
	}
	r, err := data("merge", args...)
	Assert(err == nil && same43(r, want), "the first value of each key")
	Assert(same43(da, want), "the destination is completed")
	Assert(Eq(b, ob) && Eq(c, oc), "the other dictionaries are unchanged")
}

// undef with no value, one value (nil, an int, a text, a list, a boolean) and two values; isZero and isNil.
func Verif_C43_default() {
	def := Int()
	r, err := data("undef", def)
	Assert(err == nil && r == def, "the default value when there is no value")
	r, err = data("undef", def, nil)
	Assert(err == nil && r == def, "the default value for nil")
	x, s := Int(), Str(2, "a0")
	b := Bool()
	for _, v := range []any_{x, s, b} {
		r, err = data("undef", def, v)
		Assert(err == nil && r == v, "a value that is defined, even an empty one, is kept")
	}
	r, err = data("undef", def, x, s)
	Assert(err == nil && Eq(elems(r), []any_{x, s}), "many values are a list")
	r, err = data("isZero", x)
	Assert(err == nil && r == (x == 0), "isZero of an int")
	r, err = data("isZero", s)
	Assert(err == nil && r == (s == ""), "isZero of a text")
	r, err = data("isZero", b)
	Assert(err == nil && r == !b, "isZero of a boolean")
	r, err = data("isZero", nil)
	Assert(err == nil && r == true, "isZero of nil")
}

// bool on texts of up to 5 characters: false for an empty text, 0, f, false, n, no and off, in any case and with blanks around, true for any other text.
func Verif_C43_bool() {
	var s string
	switch Choose(4) {
	case 0:
		s = Str(3, "0fFnNoO 1t")
	case 1:
		s = []string{"f", "F", " ", "n"}[Choose(4)] + StrN(2, "aAlL") + StrN(2, "sSeE")
	case 2:
		s = StrN(1, " 0n") + StrN(3, "ofFO ")
	case 3:
		s = Str(4, "\t 0n")
	}
	word := strings.Trim(s, " \t")
	want := true
	for _, f := range []string{"", "0", "f", "false", "n", "no", "off"} {
		want = And(want, !strings.EqualFold(word, f))
	}
	f := dataFuncsBase["bool"].(func(string) bool)
	Observe("got", f(s))
	Observe("want", want)
	Assert(f(s) == want, "the boolean of a text")
	Assert(collections.String(s).ParseBool() == want, "ParseBool")
}
