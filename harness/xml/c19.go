package xml

import (
	"math"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C19_xml_numbers", Verif_C19_xml_numbers)
	Register("Verif_C19_xml_nested", Verif_C19_xml_nested)
	Register("Verif_C19_xml_transform", Verif_C19_xml_transform)
}

type c19any = interface{}

// number tells that got is the expected presentation of the number f read.
func number(f float64, got c19any) bool {
	if f >= -9223372036854775808.0 && f < 9223372036854775808.0 && math.Trunc(f) == f {
		i, ok := got.(int)
		return ok && float64(i) == f
	}
	g, ok := got.(float64)
	return ok && math.Float64bits(f) == math.Float64bits(g)
}

// Every double, NaN and infinities included.
func Verif_C19_xml_numbers() {
	f := Float64()
	Assert(number(f, transformElement(f)), "a whole number that fits becomes an integer, others stay as they are")
	Reach("end")
}

// leaf is an arbitrary non-number leaf, or the double f.
func leaf(f float64) c19any {
	switch Choose(4) {
	case 0:
		return f
	case 1:
		return StrN(1, "1a{")
	case 2:
		return Bool()
	}
	return Int()
}

// read builds what the reader gives: nested maps and slices around leaves.
func read(depth int, f float64) c19any {
	kinds := 3
	if depth == 0 {
		kinds = 1
	}
	switch Choose(kinds) {
	case 0:
		return leaf(f)
	case 1:
		l := make([]c19any, 1+Choose(2))
		for i := range l {
			l[i] = leaf(f)
		}
		l[0] = read(depth-1, f)
		return l
	}
	return map[string]c19any{"a": read(depth-1, f), "b": leaf(f)}
}

func presented(raw, got c19any) bool {
	switch raw := raw.(type) {
	case float64:
		return number(raw, got)
	case []c19any:
		l, ok := got.(collections.IGenericList)
		if !ok || l.Len() != len(raw) {
			return false
		}
		a := l.AsArray()
		for i := range raw {
			if !presented(raw[i], a[i]) {
				return false
			}
		}
		return true
	case map[string]c19any:
		d, ok := got.(collections.IDictionary)
		if !ok || d.Len() != len(raw) {
			return false
		}
		m := d.AsMap()
		for k := range raw {
			e, has := m[k]
			if !has || !presented(raw[k], e) {
				return false
			}
		}
		return true
	}
	return EqTyped(raw, got)
}

// copied is an independent copy of data read.
func copied(raw c19any) c19any {
	switch raw := raw.(type) {
	case []c19any:
		r := make([]c19any, len(raw))
		for i := range raw {
			r[i] = copied(raw[i])
		}
		return r
	case map[string]c19any:
		r := make(map[string]c19any, len(raw))
		for k := range raw {
			r[k] = copied(raw[k])
		}
		return r
	}
	return raw
}

// Maps and lists nested on 2 (quick) or 3 (thorough) levels, 1 or 2 entries each; leaves are one arbitrary double (every
// bit pattern), one-character text, booleans and ints.
func Verif_C19_xml_nested() {
	f := Float64()
	raw := read(2+Tier(), f)
	Assert(presented(copied(raw), transformElement(raw)), "numbers are presented as integers at every depth, the rest is unchanged")
	Reach("end")
}

// Data of one level given to the reader through an interface or a map variable.
func Verif_C19_xml_transform() {
	f := Float64()
	raw := read(1, f)
	if m, ok := raw.(map[string]c19any); ok {
		n := copied(m).(map[string]c19any)
		transform(&n)
		Assert(len(n) == len(m), "every key is kept")
		for k := range m {
			Assert(presented(m[k], n[k]) || Eq(transformElement(copied(m[k])), n[k]), "each value of a native map is transformed")
		}
		_, native := c19any(n).(map[string]interface{})
		Assert(native, "a native map stays a native map")
	}
	out := copied(raw)
	transform(&out)
	Assert(presented(raw, out), "the variable receives the transformed data")
	Reach("end")
}
