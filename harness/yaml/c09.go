package yaml

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C09_yaml_transform", Verif_C09_yaml_transform)
}

type c09any = interface{}

func c09Read(depth int) c09any {
	kinds := 6
	if depth == 0 {
		kinds = 2
	}
	switch Choose(kinds) {
	case 0:
		return Int()
	case 1:
		return StrN(1, "1a{")
	case 2:
		return Float64()
	case 3:
		return []c09any{c09Read(depth - 1), Bool()}
	case 4:
		return map[string]c09any{"a": c09Read(depth - 1), "": Int()}
	}
	return map[c09any]c09any{1: c09Read(depth - 1), "a": c09Read(0), true: Int()}
}

func c09Presented(raw, got c09any) bool {
	switch raw := raw.(type) {
	case []c09any:
		l, ok := got.(collections.IGenericList)
		if !ok || l.Len() != len(raw) {
			return false
		}
		a := l.AsArray()
		for i := range raw {
			if !c09Presented(raw[i], a[i]) {
				return false
			}
		}
		return true
	case map[string]c09any:
		d, ok := got.(collections.IDictionary)
		if !ok || d.Len() != len(raw) {
			return false
		}
		m := d.AsMap()
		for k := range raw {
			e, has := m[k]
			if !has || !c09Presented(raw[k], e) {
				return false
			}
		}
		return true
	case map[c09any]c09any:
		n := map[string]c09any{}
		for k := range raw {
			n[fmt.Sprint(k)] = raw[k]
		}
		return c09Presented(n, got)
	case float64:
		f, ok := got.(float64)
		return ok && (f == raw || f != f && raw != raw)
	}
	return EqTyped(raw, got)
}

func c09Copy(raw c09any) c09any {
	switch raw := raw.(type) {
	case []c09any:
		r := make([]c09any, len(raw))
		for i := range raw {
			r[i] = c09Copy(raw[i])
		}
		return r
	case map[string]c09any:
		r := make(map[string]c09any, len(raw))
		for k := range raw {
			r[k] = c09Copy(raw[k])
		}
		return r
	case map[c09any]c09any:
		r := make(map[c09any]c09any, len(raw))
		for k := range raw {
			r[k] = c09Copy(raw[k])
		}
		return r
	}
	return raw
}

// What the YAML reader gives: lists and maps with string or mixed keys nested on 2 levels; leaves are arbitrary ints,
// doubles, booleans and one-character text (null excluded: it is read as an empty dictionary).
func Verif_C09_yaml_transform() {
	raw := c09Read(2)
	Assert(c09Presented(raw, transformElement(c09Copy(raw))), "data read become collections at every depth, nothing lost or altered")
	out := c09Copy(raw)
	transform(&out)
	Assert(c09Presented(raw, out), "the variable receives the collections")
	Reach("end")
}
