package template

import (
	"reflect"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C17_empty", Verif_C17_empty)
	Register("Verif_C17_undef", Verif_C17_undef)
}

type named17 string
type count17 uint16
type flag17 bool
type rec17 struct{ A int }

// value17 gives a value of some kind and whether it is empty.
func value17() (v any_, empty bool) {
	switch Choose(24) {
	case 0:
		return nil, true
	case 1:
		b := Bool()
		return b, !b
	case 2:
		i := Int()
		return i, i == 0
	case 3:
		i := Int64()
		return int8(i), int8(i) == 0
	case 4:
		i := Int64()
		return int16(i), int16(i) == 0
	case 5:
		i := Int64()
		return int32(i), int32(i) == 0
	case 6:
		i := Int64()
		return i, i == 0
	case 7:
		i := Uint64()
		return uint8(i), uint8(i) == 0
	case 8:
		i := Uint64()
		return count17(i), count17(i) == 0
	case 9:
		i := Uint64()
		return uint32(i), uint32(i) == 0
	case 10:
		i := Uint64()
		return i, i == 0
	case 11:
		i := Uint64()
		return uint(i), i == 0
	case 12:
		f := Float64()
		return f, f == 0
	case 13:
		f := float32([]float64{0, 1, -0.5}[Choose(3)])
		return f, f == 0
	case 14:
		s := Str(2, "0 f")
		return s, s == ""
	case 15:
		s := Str(1, "0")
		return named17(s), s == ""
	case 16:
		n := Choose(3)
		return make([]any_, n), n == 0
	case 17:
		n := Choose(2)
		return flavourList(Choose(flavours), make([]any_, n)), n == 0
	case 18:
		m := map[string]any_{}
		if Choose(2) == 0 {
			return flavourDict(Choose(flavours), m), true
		}
		m["a"] = nil
		return flavourDict(Choose(flavours), m), false
	case 19:
		m := map[int]int{}
		n := Choose(2)
		if n == 1 {
			m[0] = 0
		}
		return m, n == 0
	case 20:
		if Choose(2) == 0 {
			return [0]int{}, true
		}
		return [1]int{}, false
	case 21:
		if Choose(2) == 0 {
			return (*rec17)(nil), true
		}
		return &rec17{}, false
	case 22:
		return rec17{}, false
	}
	b := Bool()
	return flag17(b), !b
}

// identical: the same value (bit-equal floats and NaN included), the same reference for pointers.
func identical(a, b any_) bool {
	if p, ok := a.(*rec17); ok {
		q, ok := b.(*rec17)
		return ok && p == q
	}
	return same(a, b)
}

// Verif_C17_empty: for every kind of value (nil, bool, all int and uint sizes, named types, floats of every bit pattern, texts up to 2 characters, slices, arrays, maps, 5 flavours of lists and dictionaries, nil and non-nil pointers, structure): emptiness, ternary, default and isZero agree and return the values supplied.
func Verif_C17_empty() {
	v, empty := value17()
	yes, no := any_("yes"), any_([]any_{"no"})
	Assert(collections.IsEmptyValue(reflect.ValueOf(v)) == empty, "IsEmptyValue")
	r := collections.IIf(v, yes, no)
	if empty {
		Assert(identical(r, no), "iif on an empty value is the second alternative")
	} else {
		Assert(identical(r, yes), "iif on a non-empty value is the first alternative")
	}
	f, err := callF(utilsFuncs["iif"], v, yes, no)
	Assert(err == nil && identical(f, r), "template iif")
	d := collections.Default(v, no)
	if empty {
		Assert(identical(d, no), "default of an empty value is the default")
	} else {
		Assert(identical(d, v), "default of a non-empty value is the value")
	}
	z, err := data("isZero", v)
	Assert(err == nil && Eq(z, empty), "isZero")
}

// Verif_C17_undef: undef with no value, one value of every kind, or 2-3 values, and with every kind of default; isNil and isSet.
func Verif_C17_undef() {
	def := any_("default")
	if Choose(3) == 0 {
		def = nil
	}
	switch Choose(4) {
	case 0:
		r, err := data("undef", def)
		Assert(err == nil && identical(r, def), "undef without value is the default")
	case 1:
		n := 2 + Choose(2)
		args := []any_{def}
		for i := 0; i < n; i++ {
			args = append(args, []any_{nil, 0, "a"}[Choose(3)])
		}
		r, err := data("undef", args...)
		Assert(err == nil && Eq(r, args[1:]), "undef with several values is these values")
	default:
		v, _ := value17()
		r, err := data("undef", def, v)
		Assert(err == nil, "undef: no error")
		p, isPtr := v.(*rec17)
		if v == nil || isPtr && p == nil {
			Assert(identical(r, def), "undef of nil is the default")
		} else {
			Assert(identical(r, v), "undef of anything else is that value")
		}
		n, _ := data("isNil", v)
		s, _ := data("isSet", v)
		Assert(Eq(n, v == nil), "isNil")
		Assert(Eq(s, v != nil), "isSet")
	}
}
