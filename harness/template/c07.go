package template

import (
	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C07_slice", Verif_C07_slice)
	Register("Verif_C07_flavours", Verif_C07_flavours)
	Register("Verif_C07_select", Verif_C07_select)
	Register("Verif_C07_ends", Verif_C07_ends)
	Register("Verif_C07_dict", Verif_C07_dict)
}

// sequence is a list of any flavour, a native slice or array of arbitrary ints, or an arbitrary ASCII string; its elements are given as well.
func sequence(max, only int) (v any_, el []any_, str string, isStr bool) {
	kind := Choose(flavours + 3)
	Assume(kind >= flavours || only < 0 || kind == only)
	n := Choose(max + 1)
	switch {
	case kind < flavours:
		l := flavourList(kind, newRaw(n, 0))
		return l, dup(elems(l)), "", false
	case kind == flavours:
		ints := make([]int, n)
		el = []any_{}
		for i := range ints {
			ints[i] = Int()
			el = append(el, ints[i])
		}
		return ints, el, "", false
	case kind == flavours+1:
		Assume(n == max)
		a := [2]int{Int(), Int()}
		return a, []any_{a[0], a[1]}, "", false
	}
	s := StrN(n, "abcz")
	return s, nil, s, true
}

func seqLen(el []any_, s string, isStr bool) int {
	if isStr {
		return len(s)
	}
	return len(el)
}

// bound is a slice bound: any int of magnitude up to 2^51.
func bound() int { return IntRange(-1<<51, 1<<51) }

func clip(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

func revStr(s string) string {
	b := []byte{}
	for i := len(s) - 1; i >= 0; i-- {
		b = append(b, s[i])
	}
	return string(b)
}

func checkRange(label string, got any_, err error, el []any_, s string, isStr bool, b, e int) {
	n := seqLen(el, s, isStr)
	if b < 0 {
		b = n + b + 1
	}
	if e < 0 {
		e = n + e + 1
	}
	Assert(err == nil, label+": bounds outside the ends are clipped, not refused")
	if err != nil {
		return
	}
	rev := e < b
	if rev {
		b, e = e, b
	}
	b, e = Concretize(clip(b, n)), Concretize(clip(e, n))
	if isStr {
		want := s[b:e]
		if rev {
			want = revStr(want)
		}
		Assert(Eq(got, want), label+": exactly the range of the string")
		return
	}
	want := []any_{}
	for i := b; i < e; i++ {
		want = append(want, el[i])
	}
	if rev {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	_, isList := got.(iList)
	Assert(isList, label+": result is a list")
	if isList {
		Assert(Eq(elems(got), want), label+": exactly the range of the list")
	}
}

// Verif_C07_slice: slice with two arbitrary bounds (ints of magnitude up to 2^51) on a list, []int, [2]int or ASCII string of 0-3 elements.
func Verif_C07_slice() {
	max := 3
	if Tier() > 0 {
		max = 5
	}
	v, el, s, isStr := sequence(max, 0)
	before := dup(el)
	b, e := bound(), bound()
	got, err := data("slice", v, b, e)
	checkRange("slice", got, err, before, s, isStr, b, e)
	if l, ok := v.(iList); ok {
		Assert(Eq(elems(l), before), "source unchanged")
	}
	Observe("slice", got)
}

// Verif_C07_flavours: slice with bounds -5..5 given as ints or text on lists of 0-3 elements of 5 flavours.
func Verif_C07_flavours() {
	l := flavourList(Choose(flavours), newRaw(Choose(4), 0))
	before := dup(elems(l))
	b, e := IntRange(-5, 5), IntRange(-5, 5)
	var a1, a2 any_ = b, e
	if Choose(2) == 0 {
		a1, a2 = printed(b), printed(e)
	}
	got, err := data("slice", l, a1, a2)
	checkRange("slice", got, err, before, "", false, b, e)
	Assert(Eq(elems(l), before), "source unchanged")
}

// Verif_C07_select: one index (slice, extract), several (extract, 2-3 indexes) and safeIndex, arbitrary 64-bit index for the single forms, -6..6 for several;
// sequences of 0-3 elements.
func Verif_C07_select() {
	v, el, s, isStr := sequence(3, -1)
	n := seqLen(el, s, isStr)
	pick := func(i int) any_ {
		if isStr {
			return string(s[i])
		}
		return el[i]
	}
	switch Choose(4) {
	case 0, 1:
		i := Int()
		name := "slice"
		if Bool() {
			name = "extract"
		}
		got, err := data(name, v, i)
		if i < 0 {
			i += n
		}
		if i < 0 || i >= n {
			Assert(err != nil, name+": index out of range is an error")
			return
		}
		Assert(err == nil, name+": index accepted")
		Assert(Eq(got, pick(Concretize(i))), name+": that element")
		Observe("got", got)
	case 2:
		i, def := Int(), Int()
		got, err := data("safeIndex", v, i, def)
		Assert(err == nil, "safeIndex: no error")
		if i < 0 || i >= n {
			Assert(Eq(got, def), "safeIndex: default out of range")
			return
		}
		i = Concretize(i)
		if isStr {
			Assert(Eq(got, s[i]), "safeIndex: that byte")
		} else {
			Assert(Eq(got, el[i]), "safeIndex: that element")
		}
	case 3:
		k := 2 + Choose(2)
		args := []any_{v}
		idx := make([]int, k)
		bad := false
		for j := range idx {
			idx[j] = IntRange(-6, 6)
			args = append(args, idx[j])
			if idx[j] < 0 {
				idx[j] += n
			}
			bad = bad || idx[j] < 0 || idx[j] >= n
		}
		got, err := data("extract", args...)
		if bad {
			Assert(err != nil, "extract: index out of range is an error")
			return
		}
		Assert(err == nil, "extract: indexes accepted")
		if isStr {
			want := ""
			for _, i := range idx {
				want += s[i : i+1]
			}
			Assert(Eq(got, want), "extract: those characters in order")
			return
		}
		want := []any_{}
		for _, i := range idx {
			want = append(want, el[Concretize(i)])
		}
		Assert(Eq(elems(got), want), "extract: those elements in order")
	}
}

// Verif_C07_ends: initial and rest on sequences of 0-4 elements.
func Verif_C07_ends() {
	v, el, s, isStr := sequence(4, -1)
	n := seqLen(el, s, isStr)
	if Choose(2) == 0 {
		got, err := data("rest", v)
		if n == 0 {
			Assert(err == nil, "rest of nothing")
			Assert(Eq(got, v), "rest of nothing is empty")
			return
		}
		checkRange("rest", got, err, el, s, isStr, 1, n)
		return
	}
	got, err := data("initial", v)
	if n == 0 {
		Assert(err == nil, "initial of nothing")
		Assert(Eq(got, v), "initial of nothing is empty")
		return
	}
	checkRange("initial", got, err, el, s, isStr, 0, n-1)
}

// Verif_C07_dict: slice (one key, two bounds) and extract (1-3 keys) on dictionaries (5 flavours or plain map) holding any subset of the keys a, b, c, d; bounds
// are arbitrary letters a-e.
func Verif_C07_dict() {
	kind := Choose(flavours + 1)
	n := 0
	m := map[string]any_{}
	for _, k := range []string{"a", "b", "c", "d"} {
		if Choose(2) == 1 {
			m[k] = Int()
			n++
		}
	}
	model := copyMap(m)
	var d any_ = m
	if kind < flavours {
		d = flavourDict(kind, m)
	}
	key := func() string { return ConcreteStr(string(ByteIn("abcde"))) }
	switch Choose(3) {
	case 0:
		k := key()
		name := "slice"
		if Bool() {
			name = "extract"
		}
		got, err := data(name, d, k)
		Assert(err == nil && Eq(got, model[k]), name+": value of the key")
	case 1:
		k1, k2 := key(), key()
		got, err := data("slice", d, k1, k2)
		ks := []string{}
		for _, k := range []string{"a", "b", "c", "d"} {
			if _, ok := model[k]; ok && (k >= k1 && k <= k2 || k >= k2 && k <= k1) {
				ks = append(ks, k)
			}
		}
		want := []any_{}
		for i := range ks {
			if k1 > k2 {
				want = append(want, model[ks[len(ks)-1-i]])
			} else {
				want = append(want, model[ks[i]])
			}
		}
		Assert(err == nil, "slice of a dictionary: no error")
		Assert(Eq(elems(got), want), "slice of a dictionary: values of the keys between the bounds")
	case 2:
		k := 2 + Choose(2)
		args, want := []any_{d}, []any_{}
		for i := 0; i < k; i++ {
			x := key()
			args = append(args, x)
			want = append(want, model[x])
		}
		got, err := data("extract", args...)
		Assert(err == nil && Eq(elems(got), want), "extract of a dictionary: values of the keys in order")
	}
	Assert(Eq(m, model), "dictionary unchanged")
}
