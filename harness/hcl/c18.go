package hcl

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C18_strings", Verif_C18_strings)
	Register("Verif_C18_hereDocs", Verif_C18_hereDocs)
	Register("Verif_C18_keys", Verif_C18_keys)
	Register("Verif_C18_nested", Verif_C18_nested)
	Register("Verif_C18_blocks", Verif_C18_blocks)
	Register("Verif_C18_scalars", Verif_C18_scalars)
	Register("Verif_C18_order", Verif_C18_order)
}

type any_ = interface{}

const hclForms = 4

// written renders data in one of the four forms.
func written(form int, data any_) string {
	var b []byte
	var err error
	switch form {
	case 0:
		b, err = Marshal(data)
	case 1:
		b, err = MarshalIndent(data, "", "  ")
	case 2:
		b, err = MarshalTFVars(data)
	default:
		b, err = MarshalTFVarsIndent(data, "", "  ")
	}
	Assert(err == nil, "data can be written")
	return string(b)
}

// collapse replaces the lists holding exactly one map by that map, at every depth.
func collapse(v any_) any_ {
	switch v := v.(type) {
	case collections.IGenericList:
		return collapse(v.AsArray())
	case collections.IDictionary:
		return collapse(v.AsMap())
	case []any_:
		r := make([]any_, len(v))
		for i := range v {
			r[i] = collapse(v[i])
		}
		if len(r) == 1 {
			if m, ok := r[0].(map[string]any_); ok {
				return m
			}
		}
		return r
	case map[string]any_:
		r := make(map[string]any_, len(v))
		for k := range v {
			r[k] = collapse(v[k])
		}
		return r
	}
	return v
}

// sameData compares collapsed data with what was read; text written as here-document lost its common indentation.
func sameData(data, got any_) bool {
	switch data := data.(type) {
	case []any_:
		a, ok := got.([]any_)
		if !ok || len(a) != len(data) {
			return false
		}
		for i := range data {
			if !sameData(data[i], a[i]) {
				return false
			}
		}
		return true
	case map[string]any_:
		m, ok := got.(map[string]any_)
		if !ok || len(m) != len(data) {
			return false
		}
		for k := range data {
			e, has := m[k]
			if !has || !sameData(data[k], e) {
				return false
			}
		}
		return true
	case string:
		s, ok := got.(string)
		if !ok {
			return false
		}
		if s == data {
			return true
		}
		u := collections.UnIndent(data)
		return s == u && len(u) > 0 && u[len(u)-1] == '\n'
	}
	return EqTyped(data, got)
}

func roundTrip(data any_, label string) {
	form := Choose(hclForms)
	text := written(form, data)
	var back any_
	err := Unmarshal([]byte(text), &back)
	Assert(err == nil, label+": the written form can be read")
	Assert(sameData(collapse(data), collapse(back)), label+": reading back gives the same data")
}

// Strings of 0..4 (quick) or 0..6 (thorough) arbitrary characters among letter, quote, backslash, line break, tab, space,
// control characters and a byte of a multi-byte character; four forms. Interpolations (${) are excluded.
func Verif_C18_strings() {
	s := Str(3+2*Tier(), "n\"\\\n\t \x01\rz")
	switch Choose(3) {
	case 1:
		s += "é\u2028♠"
	case 2:
		s += "\n"
	}
	roundTrip(map[string]any_{"a": s}, "string")
	Reach("end")
}

// Strings of 0..4 (quick) or 0..5 (thorough) characters among letter, space, backslash, quote and line break followed by
// a line break, directly in the document, in a map, in a list, in a map within a list; followed or not by another value;
// four forms; also text holding the marker of here-documents.
func Verif_C18_hereDocs() {
	s := Str(3+Tier(), "a \\\n\"") + "\n"
	switch Choose(3) {
	case 1:
		s += "HCLVALUE\n"
	case 2:
		s = "<<HCLVALUE\n" + s
	}
	switch Choose(5) {
	case 0:
		roundTrip(map[string]any_{"k": s, "l": 1}, "text in a map")
	case 1:
		roundTrip(map[string]any_{"k": map[string]any_{"k": s, "l": map[string]any_{"m": s}}}, "text in nested maps")
	case 2:
		roundTrip(map[string]any_{"k": []any_{s, 1, s}}, "text in a list")
	case 3:
		roundTrip([]any_{map[string]any_{"k": []any_{s}, "l": s}, s}, "text in a map in a list")
	case 4:
		roundTrip([]any_{s}, "text in the outer list")
	}
	Reach("end")
}

// One or two distinct keys of 0..2 (quick) or 0..3 (thorough) arbitrary characters among letters, digit, dash, underscore,
// bracket, caret, quote, space and dot, also true, false, null and a non-ASCII word; at top level or nested.
func Verif_C18_keys() {
	k := Str(2+Tier(), "zZ1-_[^\" .")
	switch Choose(6) {
	case 1:
		k = "true"
	case 2:
		k = "false"
	case 3:
		k = "null"
	case 4:
		k = "né"
	case 5:
		k = "${a}"
	}
	switch Choose(4) {
	case 0:
		roundTrip(map[string]any_{k: 1}, "key")
	case 1:
		roundTrip(map[string]any_{k: 1, "a": map[string]any_{k: "x", "b": 2}}, "keys")
	case 2:
		roundTrip(map[string]any_{k: map[string]any_{k: map[string]any_{k: 2}}}, "block labels")
	case 3:
		roundTrip(map[string]any_{k: []any_{map[string]any_{k: 1}, map[string]any_{k: 2}}, "m": 1}, "key of maps")
	}
	Reach("end")
}

// hclData builds nested data with concrete keys and arbitrary ints.
func hclData(depth int) any_ {
	kinds := 6
	if depth == 0 {
		kinds = 2
	}
	switch Choose(kinds) {
	case 0:
		return 7 - depth
	case 1:
		return "x y"
	case 2:
		l := make([]any_, Choose(3))
		for i := range l {
			if i == 0 {
				l[i] = hclData(depth - 1)
			} else {
				l[i] = hclData(depth - 2 + 1/depth)
			}
		}
		return l
	case 3:
		return map[string]any_{}
	case 4:
		return map[string]any_{"k": hclData(depth - 1)}
	}
	return map[string]any_{"kk": hclData(depth - 1), "b-1": hclData(depth - 2 + 1/depth)}
}

// Data nested on 3 (quick) or 4 (thorough) levels: maps of 0..2 entries, lists of 0..2 elements, integers and text;
// four forms, the outer value being a map, a list or a leaf.
func Verif_C18_nested() {
	if Choose(2) == 0 {
		roundTrip(map[string]any_{"top": hclData(2 + Tier()), "x": hclData(1)}, "nested data")
	} else {
		roundTrip(hclData(3), "data")
	}
	Reach("end")
}

// block builds chains of single-entry maps, ending with a map, a list or an integer.
func block(depth int) any_ {
	if depth == 0 {
		return depth + 3
	}
	switch Choose(6) {
	case 0:
		return map[string]any_{"k": block(depth - 1)}
	case 1:
		return []any_{block(depth - 1)}
	case 2:
		return []any_{map[string]any_{"k": block(depth - 1)}, map[string]any_{"l": block(depth - 1)}}
	case 3:
		return map[string]any_{}
	case 4:
		return map[string]any_{"k": block(depth - 1), "l": "z"}
	}
	return "m\n"
}

// Every chain of single-entry maps and lists nested on 2 (quick) or 3 (thorough) levels, alone or beside another entry;
// lists printed by their own methods too.
func Verif_C18_blocks() {
	b := block(2 + Tier())
	switch Choose(3) {
	case 0:
		roundTrip(map[string]any_{"x": b}, "block")
	case 1:
		roundTrip(map[string]any_{"x": b, "yy": 1}, "block beside an entry")
	case 2:
		var back any_
		data := []any_{b, 1}
		l := hclHelper.AsList(data)
		text := l.String()
		if Choose(2) == 1 {
			text = l.PrettyPrint()
		}
		err := Unmarshal([]byte(text), &back)
		Assert(err == nil && sameData(collapse(data), collapse(back)), "printing a list and reading it back gives the same data")
	}
	Reach("end")
}

// Integers -99..99 and the extreme 64-bit ones, unsigned integers, booleans, some floats, nil; alone, in a map and in a list.
func Verif_C18_scalars() {
	var v any_
	var text string
	switch Choose(8) {
	case 0:
		v = IntRange(-99, 99)
		text = fmt.Sprint(v)
	case 1:
		v, text = -1<<63, "-9223372036854775808"
	case 2:
		v, text = 1<<63-1, "9223372036854775807"
	case 3:
		b := Bool()
		v, text = b, "false"
		if b {
			text = "true"
		}
	case 4:
		v, text = []any_{1.5, -0.25, 1e21, 1e-7}[Choose(4)], ""
		text = fmt.Sprint(v)
	case 5:
		v, text = uint(18446744073709551615), "18446744073709551615"
	case 6:
		v, text = nil, "null"
	case 7:
		var p *int
		v, text = p, "null"
	}
	form := Choose(hclForms)
	eq := []string{"=", " = ", "=", " = "}[form]
	Assert(written(form, v) == text, "a scalar is written verbatim")
	Assert(written(form, map[string]any_{"a": v}) == "a"+eq+text, "a scalar in a map")
	Assert(written(form, []any_{v}) == "["+text+"]", "a scalar in a list")
	if _, unsigned := v.(uint); v != nil && text != "null" && !unsigned {
		var back any_
		err := Unmarshal([]byte(written(form, map[string]any_{"a": v})), &back)
		Assert(err == nil && sameData(map[string]any_{"a": v}, collapse(back)), "a scalar is read back")
	}
	Reach("end")
}

// Three arbitrary distinct keys of one letter among six with integers: the order in which they are written.
func Verif_C18_order() {
	k1, k2, k3 := StrN(1, "aZb_mc"), StrN(1, "aZb_mc"), StrN(1, "aZb_mc")
	Assume(k1 < k2 && k2 < k3)
	m := map[string]any_{k3: 3, k1: 1, k2: 2}
	Assert(written(0, m) == k1+"=1 "+k2+"=2 "+k3+"=3", "keys are written in order")
	Assert(written(3, m) == k1+" = 1\n"+k2+" = 2\n"+k3+" = 3", "keys are written in order on lines")
	Reach("end")
}
