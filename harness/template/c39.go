package template

import (
	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/yaml"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C39_json", Verif_C39_json)
	Register("Verif_C39_yaml", Verif_C39_yaml)
	Register("Verif_C39_printed", Verif_C39_printed)
}

// data39 is any value made of lists and dictionaries, of up to 2 elements and of the given flavour, around texts of up to 2 characters of the alphabet, whole numbers, floats, booleans and nil (which is read as an empty dictionary).
func data39(depth int, alphabet string, list func([]any_) any_, dict func(map[string]any_) any_) any_ {
	kinds := 7
	if depth == 0 {
		kinds = 5
	}
	switch Choose(kinds) {
	case 0:
		s := Str(2, alphabet)
		Assume(len(s) == 0 || s[0] != '\n')
		return s
	case 1:
		return []int{0, -7, 1 << 40, 1<<53 - 1}[Choose(4)]
	case 2:
		return Choose(2) == 1
	case 3:
		return nil
	case 4:
		return []float64{1.5, -0.25, 1e-7}[Choose(3)]
	case 5:
		l := make([]any_, Choose(3))
		for i := range l {
			l[i] = data39(depth-1, alphabet, list, dict)
		}
		return list(l)
	}
	d := map[string]any_{}
	n := Choose(3)
	if n > 0 {
		d["a"] = data39(depth-1, alphabet, list, dict)
	}
	if n > 1 {
		key := ConcreteStr(StrN(1, alphabet)) + "b"
		Assume(key[0] != '\n')
		d[key] = data39(0, "a", list, dict)
	}
	return dict(d)
}

// read39 is the value with empty dictionaries instead of nil, as null is read.
func read39(value any_) any_ {
	switch v := value.(type) {
	case nil:
		return map[string]any_{}
	case collections.IGenericList:
		result := make([]any_, v.Len())
		for i, e := range v.AsArray() {
			result[i] = read39(e)
		}
		return result
	case collections.IDictionary:
		result := make(map[string]any_, v.Len())
		for k, e := range v.AsMap() {
			result[k] = read39(e)
		}
		return result
	}
	return value
}

func dataJSON39(alphabet string) any_ {
	return data39(1+Tier(), alphabet, func(l []any_) any_ { return json.List(l) }, func(d map[string]any_) any_ { return json.Dictionary(d) })
}

func dataYAML39(alphabet string) any_ {
	return data39(1+Tier(), alphabet, func(l []any_) any_ { return yaml.List(l) }, func(d map[string]any_) any_ { return yaml.Dictionary(d) })
}

// Any value of the types above, up to 1 level deep (2 when thorough), null being read as an empty dictionary, written as compact, pretty or quoted JSON; texts among "a", quote, backslash, newline and less than.
func Verif_C39_json() {
	value := dataJSON39("a\"\\\n<")
	var text string
	var err error
	switch Choose(3) {
	case 0:
		text, err = toJSON(value)
	case 1:
		text, err = toPrettyJSON(value)
	case 2:
		var quoted string
		quoted, err = toQuotedJSON(value)
		Assert(err == nil && json.NativeUnmarshal([]byte(`"`+quoted+`"`), &text) == nil, "the quoted form is the content of a string")
	}
	Assert(err == nil, "the value is written")
	Observe("text", text)
	var back any_
	Assert(json.Unmarshal([]byte(text), &back) == nil, "what is written is valid")
	Assert(Eq(back, read39(value)), "what is written denotes the same data")
	Reach("end")
}

// Any value of the types above, up to 1 level deep (2 when thorough), null being read as an empty dictionary, written as YAML; texts among "a", colon, space, hash, dash, newline (not first), "1", "~", quotes and brackets.
func Verif_C39_yaml() {
	value := dataYAML39("a: #-\n1~'\"{")
	text, err := toYAML(value)
	Assert(err == nil, "the value is written")
	Observe("text", text)
	var back any_
	Assert(yaml.Unmarshal([]byte(text), &back) == nil, "what is written is valid")
	Assert(Eq(back, read39(value)), "what is written denotes the same data")
	Reach("end")
}

// Any list or dictionary printed by its own flavour (JSON or YAML, as it is or in its pretty form).
func Verif_C39_printed() {
	var value, back any_
	read := json.Unmarshal
	if Choose(2) == 0 {
		value = dataJSON39("a\"\\")
	} else {
		value, read = dataYAML39("a: -'"), yaml.Unmarshal
	}
	var text string
	pretty := Choose(2) == 1
	switch v := value.(type) {
	case collections.IGenericList:
		text = v.String()
		if pretty {
			text = v.PrettyPrint()
		}
	case collections.IDictionary:
		text = v.String()
		if pretty {
			text = v.PrettyPrint()
		}
	default:
		Assume(false)
	}
	Observe("text", text)
	Assert(read([]byte(text), &back) == nil, "what is printed is valid")
	Assert(Eq(back, read39(value)), "what is printed denotes the same data")
	Reach("end")
}
