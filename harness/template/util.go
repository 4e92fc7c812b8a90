package template

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

type any_ = interface{}

// The collections are those of the gotemplate command, whatever ran before in the process.
func init() {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
}

type (
	funcN  = func(any_, ...any_) (any_, error)
	func1  = func(any_) (any_, error)
	func2  = func(any_, any_) (any_, error)
	func2N = func(any_, any_, ...any_) (any_, error)
)

// callF calls a function of the template function tables.
func callF(f any_, args ...any_) (any_, error) {
	switch f := f.(type) {
	case func1:
		return f(args[0])
	case func2:
		return f(args[0], args[1])
	case funcN:
		return f(args[0], args[1:]...)
	case func2N:
		return f(args[0], args[1], args[2:]...)
	case func(any_, int, any_) (any_, error):
		return f(args[0], args[1].(int), args[2])
	case func(any_, any_, any_) (string, error):
		return f(args[0], args[1], args[2])
	case func(any_, any_) (string, error):
		return f(args[0], args[1])
	case func(...any_) any_:
		return f(args...), nil
	case func(any_) any_:
		return f(args[0]), nil
	case func(any_) string:
		return f(args[0]), nil
	case func(any_) bool:
		return f(args[0]), nil
	case func(any_) int:
		return f(args[0]), nil
	case func(any_, any_) any_:
		return f(args[0], args[1]), nil
	case func(any_, any_, any_) any_:
		return f(args[0], args[1], args[2]), nil
	case func(any_, ...any_) any_:
		return f(args[0], args[1:]...), nil
	case func(any_, ...any_) (bool, error):
		return f(args[0], args[1:]...)
	case func(any_, ...any_) (iList, error):
		r, err := f(args[0], args[1:]...)
		if r == nil {
			return nil, err
		}
		return r, err
	case func(any_) (iList, error):
		r, err := f(args[0])
		if r == nil {
			return nil, err
		}
		return r, err
	case func(any_) iList:
		return f(args[0]), nil
	case func(...any_) iList:
		return f(args...), nil
	case func(iDictionary) iList:
		return f(args[0].(iDictionary)), nil
	case func(iDictionary, ...any_) iDictionary:
		return f(args[0].(iDictionary), args[1:]...), nil
	case func(iDictionary, any_, ...any_) iDictionary:
		return f(args[0].(iDictionary), args[1], args[2:]...), nil
	case func(iDictionary, iDictionary, ...iDictionary) iDictionary:
		rest := []iDictionary{}
		for _, a := range args[2:] {
			rest = append(rest, a.(iDictionary))
		}
		return f(args[0].(iDictionary), args[1].(iDictionary), rest...), nil
	case func(any_, ...iDictionary) iList:
		rest := []iDictionary{}
		for _, a := range args[1:] {
			rest = append(rest, a.(iDictionary))
		}
		return f(args[0], rest...), nil
	case func(iDictionary, string, any_, ...any_) (any_, error):
		return f(args[0].(iDictionary), args[1].(string), args[2], args[3:]...)
	case func(...any_) (iDictionary, error):
		r, err := f(args...)
		if r == nil {
			return nil, err
		}
		return r, err
	case func(...any_) (any_, error):
		return f(args...)
	case func(...any_) (iList, error):
		r, err := f(args...)
		if r == nil {
			return nil, err
		}
		return r, err
	}
	panic(fmt.Sprintf("unexpected function type %T", f))
}

// data calls a data function by its registered name.
func data(name string, args ...any_) (any_, error) { return callF(dataFuncsBase[name], args...) }

const flavours = 5

func flavourList(f int, raw []any_) iList {
	switch f {
	case 0:
		return implementation.ListTypeName(raw)
	case 1:
		return json.List(raw)
	case 2:
		return yaml.List(raw)
	case 3:
		return hcl.List(raw)
	}
	return xml.List(raw)
}

func flavourDict(f int, raw map[string]any_) iDictionary {
	switch f {
	case 0:
		return implementation.DictTypeName(raw)
	case 1:
		return json.Dictionary(raw)
	case 2:
		return yaml.Dictionary(raw)
	case 3:
		return hcl.Dictionary(raw)
	}
	return xml.Dictionary(raw)
}

func newRaw(n, spare int) []any_ {
	r := make([]any_, n+spare)
	for i := range r {
		if i < n {
			r[i] = Int()
		} else {
			r[i] = "stale"
		}
	}
	return r[:n]
}

func dup(s []any_) []any_ { return append([]any_{}, s...) }

func cat(s ...[]any_) []any_ {
	r := []any_{}
	for i := range s {
		r = append(r, s[i]...)
	}
	return r
}

// elems gives the elements of a list (nil for anything else).
func elems(l any_) []any_ {
	switch l := l.(type) {
	case collections.IGenericList:
		if l == nil {
			return nil
		}
		return l.AsArray()
	case []any_:
		return l
	}
	return nil
}

func copyMap(m map[string]any_) map[string]any_ {
	r := map[string]any_{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func printed(v any_) string { return fmt.Sprint(v) }

func inPrinted(v any_, l []any_) bool {
	r := false
	for i := range l {
		r = Or(r, printed(v) == printed(l[i]))
	}
	return r
}

func scalar2() any_ {
	if Choose(2) == 0 {
		return Int()
	}
	return StrN(1, "a1")
}

func mixed2(n int) []any_ {
	r := make([]any_, n)
	for i := range r {
		r[i] = scalar2()
	}
	return r
}
