package main

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

type any_ = interface{}

// flavour wraps raw slices and maps in one of the five list/dictionary implementations.
func flavourList(f int, raw []any_) collections.IGenericList {
	switch f {
	case 0:
		return implementation.ListTypeName(raw)
	case 1:
		return json.List(raw)
	case 2:
		return yaml.List(raw)
	case 3:
		return hcl.List(raw)
	}
	return xml.List(raw)
}

func flavourDict(f int, raw map[string]any_) collections.IDictionary {
	switch f {
	case 0:
		return implementation.DictTypeName(raw)
	case 1:
		return json.Dictionary(raw)
	case 2:
		return yaml.Dictionary(raw)
	case 3:
		return hcl.Dictionary(raw)
	}
	return xml.Dictionary(raw)
}

const flavours = 5

// newRaw is a slice of n arbitrary ints with spare capacity.
func newRaw(n, spare int) []any_ {
	r := make([]any_, n+spare)
	for i := range r {
		if i < n {
			r[i] = Int()
		} else {
			r[i] = "stale"
		}
	}
	return r[:n]
}

func dup(s []any_) []any_ { return append([]any_{}, s...) }

func cat(s ...[]any_) []any_ {
	r := []any_{}
	for i := range s {
		r = append(r, s[i]...)
	}
	return r
}

func elems(l collections.IGenericList) []any_ { return l.AsArray() }

// scalar is an arbitrary leaf: an int, a short string, nil, a boolean.
func scalar(kinds int) any_ {
	switch Choose(kinds) {
	case 0:
		return Int()
	case 1:
		return Str(1, "a1")
	case 2:
		return nil
	}
	return Bool()
}

// scalar2 is an arbitrary int or an arbitrary string of one letter among "a", "1".
func scalar2() any_ {
	if Choose(2) == 0 {
		return Int()
	}
	return StrN(1, "a1")
}

func mixed2(n int) []any_ {
	r := make([]any_, n)
	for i := range r {
		r[i] = scalar2()
	}
	return r
}

// printed is the printed form of a value.
func printed(v any_) string { return fmt.Sprint(v) }

func inPrinted(v any_, l []any_) bool {
	r := false
	for i := range l {
		r = Or(r, printed(v) == printed(l[i]))
	}
	return r
}

func uniq(l []any_) []any_ {
	r := []any_{}
	for i := range l {
		if !inPrinted(l[i], r) {
			r = append(r, l[i])
		}
	}
	return r
}

// snapshot copies a structure of maps and slices deeply (containers become plain, leaves are kept).
func snapshot(v any_) any_ {
	switch x := v.(type) {
	case map[string]any_:
		return snapMap(x)
	case []any_:
		return snapSlice(x)
	case collections.IDictionary:
		return snapMap(x.AsMap())
	case collections.IGenericList:
		return snapSlice(x.AsArray())
	}
	return v
}

func snapMap(m map[string]any_) any_ {
	r := make(map[string]any_, len(m))
	for k, v := range m {
		r[k] = snapshot(v)
	}
	return r
}

func snapSlice(l []any_) any_ {
	r := make([]any_, len(l))
	for i := range l {
		r[i] = snapshot(l[i])
	}
	return r
}
