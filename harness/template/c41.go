package template

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C41_identifier", Verif_C41_identifier)
	Register("Verif_C41_repeat", Verif_C41_repeat)
	Register("Verif_C41_format", Verif_C41_format)
	Register("Verif_C41_merge", Verif_C41_merge)
	Register("Verif_C41_lines", Verif_C41_lines)
	Register("Verif_C41_indent", Verif_C41_indent)
	Register("Verif_C41_char", Verif_C41_char)
	Register("Verif_C41_text", Verif_C41_text)
	Register("Verif_C41_get", Verif_C41_get)
	Register("Verif_C41_pick", Verif_C41_pick)
	Register("Verif_C41_single", Verif_C41_single)
	Register("Verif_C41_raw", Verif_C41_raw)
}

func word41(c byte) bool {
	return Or(Or(And(c >= 'a', c <= 'z'), And(c >= 'A', c <= 'Z')), Or(And(c >= '0', c <= '9'), c == '_'))
}

// The function id on texts of up to 4 (6) characters of a set of 7, with the default replacement, an empty one and each of _ - . + * | ^ $ ? ( \ -- $1: what is not a letter, a digit or an underscore is
// replaced, consecutive replacements count for one.
func Verif_C41_identifier() {
	s := Str(4+2*Tier(), "aZ9_-. ")
	// The values of the replacement are those that mean something in a regular expression
	replacements := []string{"_", "-", ".", "+", "*", "|", "^", "$", "?", "(", `\`, "--", "$1"}
	k := Choose(len(replacements)+2) - 2
	rep := "_"
	f := utilsFuncs["id"].(func(string, ...any_) string)
	var result string
	switch k {
	case -2:
		Reach("default")
		result = f(s)
	case -1:
		Reach("empty")
		result = f(s, "")
	default:
		Reach("given")
		rep = replacements[k]
		result = f(s, rep)
	}
	expected, replaced := "", false
	for i := 0; i < len(s); i++ {
		switch {
		case word41(s[i]) && !(rep == "_" && s[i] == '_'):
			expected, replaced = expected+s[i:i+1], false
		case !replaced:
			expected, replaced = expected+rep, true
		}
	}
	Observe("text", s)
	Observe("replacement", rep)
	Assert(result == expected, "the identifier is the text with what is not valid replaced")
}

// The function repeat for every number from -3 to 4 (8) and any of an int, a text, a list, a dictionary and nil.
func Verif_C41_repeat() {
	n := IntRange(-3, 4+4*Tier())
	v := []any_{Int(), Str(1, "ab"), []any_{1}, map[string]any_{"a": 1}, nil}[Choose(5)]
	result, err := repeat(n, v)
	if n < 0 {
		Reach("negative")
		Assert(err != nil, "a negative number of times is an error")
		return
	}
	Reach("repeated")
	Assert(err == nil && result.Len() == n, "the list has the number of elements requested")
	for _, e := range result.AsArray() {
		Assert(Eq(e, collections.GetListHelper().Convert(v)), "every element is the one given")
	}
}

// The function formatList with the formats %v, <%v>, a%vb%%, %q and "" on lists of 0 to 3 elements (ints and texts) of every flavour, on raw slices, on arguments given one by one and on a single value.
func Verif_C41_format() {
	format := []string{"%v", "<%v>", "a%vb%%", "%q"}[Choose(4)]
	raw := []any_{}
	for i, n := 0, Choose(4); i < n; i++ {
		if Bool() {
			raw = append(raw, IntRange(-20, 20))
		} else {
			raw = append(raw, Str(2, `a"%`))
		}
	}
	kept := dup(raw)
	var args []any_
	switch k := Choose(flavours + 3); k {
	case flavours:
		Reach("raw")
		args = []any_{raw}
	case flavours + 1:
		Assume(len(raw) != 1)
		Reach("arguments")
		args = raw
	case flavours + 2:
		Assume(len(raw) == 1)
		Reach("single")
		args = raw
	default:
		Reach("list")
		args = []any_{flavourList(k, raw)}
	}
	result := utilsFuncs["formatList"].(func(string, ...any_) collections.IGenericList)(format, args...)
	Assert(result.Len() == len(kept), "there is one text per element")
	for i := range kept {
		Assert(Eq(result.Get(i), fmt.Sprintf(format, kept[i])), "every element is formatted")
		Assert(Eq(raw[i], kept[i]), "the list formatted is unchanged")
	}
}

// The function mergeList on 1 to 3 lists of up to 2 (3) elements of any flavours.
func Verif_C41_merge() {
	n := 1 + Choose(3)
	lists, all, kept := []collections.IGenericList{}, []any_{}, [][]any_{}
	first := Choose(flavours)
	for i := 0; i < n; i++ {
		raw := newRaw(Choose(3+Tier()), Choose(2))
		lists = append(lists, flavourList((first+i)%flavours, raw))
		kept, all = append(kept, dup(raw)), append(all, raw...)
	}
	result := utilsFuncs["mergeList"].(func(...collections.IGenericList) collections.IGenericList)(lists...)
	Reach("merged")
	Assert(result.Len() == len(all), "the merged list has all the elements")
	for i := range all {
		Assert(Eq(result.Get(i), all[i]), "the elements are in order")
	}
	for i := range lists {
		Assert(lists[i].Len() == len(kept[i]), "the lists merged are unchanged")
		for j := range kept[i] {
			Assert(Eq(lists[i].Get(j), kept[i][j]), "the lists merged are unchanged")
		}
	}
}

// joinLines and concat on up to 3 values (ints, texts with line breaks, nil, booleans); splitLines on texts of up to 5 (7) characters.
func Verif_C41_lines() {
	if Choose(2) == 0 {
		var values []any_
		joined, concat := "", ""
		for i, n := 0, Choose(4); i < n; i++ {
			v := []any_{IntRange(-12, 12), Str(2, "a\n "), nil, Bool()}[Choose(4)]
			values = append(values, v)
			if i > 0 {
				joined += "\n"
			}
			joined += fmt.Sprint(v)
			concat += fmt.Sprint(v)
		}
		Reach("joined")
		Assert(collections.JoinLines(values...) == joined, "joinLines gives the values separated by a line break")
		Assert(collections.Concat(values...) == concat, "concat gives the values one after the other")
		return
	}
	Reach("split")
	s := Str(5+2*Tier(), "a\n ")
	var v any_ = s
	if Bool() {
		v = String(s)
	}
	lines := collections.SplitLines(v)
	rest := s
	if len(rest) > 0 && rest[len(rest)-1] == '\n' {
		rest = rest[:len(rest)-1]
	}
	text := ""
	for i := range lines {
		line := lines[i].(string)
		Assert(strings.Index(line, "\n") < 0, "a line holds no line break")
		if i > 0 {
			text += "\n"
		}
		text += line
	}
	Assert(text == rest, "the lines are those of the text, a last line break apart")
}

// indent, nIndent and sIndent, by 0 to 3 blanks or with each of the spacers "", "- ", a tab, on one text of up to 5 characters, on two texts, on an int and a text, and on a list of texts of each flavour.
func Verif_C41_indent() {
	a, b := Str(3, "a \n"), Str(2, "b\n")
	var args []any_
	text := a
	switch k := Choose(flavours + 3); k {
	case flavours:
		Reach("one")
		args = []any_{a + b}
		text = a + b
	case flavours + 1:
		Reach("two")
		args, text = []any_{a, b}, a+"\n"+b
	case flavours + 2:
		Reach("number")
		n := IntRange(-5, 50)
		args, text = []any_{n, b}, fmt.Sprint(n)+"\n"+b
	default:
		Reach("list")
		args, text = []any_{flavourList(k, []any_{a, b})}, a+"\n"+b
	}
	space := Choose(4)
	spacer := "   "[:space]
	var result string
	switch Choose(3) {
	case 0:
		result = utilsFuncs["indent"].(func(int, ...any_) string)(space, args...)
	case 1:
		result = utilsFuncs["nIndent"].(func(int, ...any_) string)(space, args...)
		Assert(len(result) > 0 && result[0] == '\n', "nIndent begins by a line break")
		result = result[1:]
	default:
		spacer = []string{"", "- ", "\t"}[Choose(3)]
		result = utilsFuncs["sIndent"].(func(string, ...any_) string)(spacer, args...)
	}
	expected := spacer
	for i := 0; i < len(text); i++ {
		expected += text[i : i+1]
		if text[i] == '\n' {
			expected += spacer
		}
	}
	Assert(result == expected, "every line is indented")
}

// char on every number from 0 to 0x10FFFF that is a character, alone and in a list; lenc on texts of up to 5 characters of 1 to 3 bytes.
func Verif_C41_char() {
	switch Choose(3) {
	case 0:
		Reach("char")
		n := IntRange(0, 0x10FFFF)
		Assume(n < 0xD800 || n > 0xDFFF)
		r, err := data("char", n)
		s, ok := r.(string)
		Assert(err == nil && ok, "a character is a text")
		c, size := utf8.DecodeRuneInString(s)
		Assert(And(int(c) == n, size == len(s)), "the character is the one of the code given")
	case 1:
		Reach("list")
		a, b := IntRange(32, 126), IntRange(0x400, 0x4FF)
		r, err := data("char", []any_{a, b})
		l := elems(r)
		Assert(err == nil && len(l) == 2, "the characters of a list are a list")
		c, _ := utf8.DecodeRuneInString(l[0].(string))
		d, _ := utf8.DecodeRuneInString(l[1].(string))
		Assert(And(int(c) == a, int(d) == b), "the characters are those of the codes given")
	default:
		Reach("length")
		s, n := "", 0
		for ; n < 5 && Bool(); n++ {
			s += []string{"a", "é", "♠", "\n"}[Choose(4)]
		}
		Assert(dataFuncsBase["lenc"].(func(string) int)(s) == n, "the length is the number of characters")
	}
}

// string, String, array, isNil and isSet on an int from -20 to 1000, a text, a boolean, nil, a list (of each flavour), a raw slice and a dictionary.
func Verif_C41_text() {
	l := []any_{IntRange(-20, 1000), "b"}
	v := []any_{IntRange(-20, 1000), Str(2, "a1"), Bool(), nil, flavourList(Choose(flavours), l), l, flavourDict(Choose(flavours), map[string]any_{"a": 1})}[Choose(7)]
	Reach("any")
	Assert(toString(v) == fmt.Sprint(v), "string gives the printed form")
	Assert(string(toStringClass(v)) == fmt.Sprint(v), "String gives the printed form")
	Assert(isNil41(v) == (v == nil), "isNil is true for nil only")
	r, err := data("array", v)
	Assert(err == nil, "array never fails")
	switch v.(type) {
	case nil:
		Assert(r == nil, "nil stays nil")
	case iList, []any_:
		Reach("sequence")
		Assert(Eq(r, v), "a sequence is unchanged")
	default:
		Reach("value")
		Assert(Eq(r, []any_{v}), "any other value is the only element of the array")
	}
}

func isNil41(v any_) bool {
	n, s := dataFuncsBase["isNil"].(func(any_) bool)(v), dataFuncsBase["isSet"].(func(any_) bool)(v)
	Assert(n != s, "isSet is the opposite of isNil")
	return n
}

// get with the dictionary (of each flavour or raw) first or last, hasKey, with 0 to 2 defaults, on keys present, absent and holding nil.
func Verif_C41_get() {
	x := Int()
	raw := map[string]any_{"a": x, "n": nil, "z": 0, "e": ""}
	var d any_ = raw
	if k := Choose(flavours + 1); k < flavours {
		d = flavourDict(k, raw)
	}
	key := []string{"a", "n", "z", "e", "b"}[Choose(5)]
	defaults := []any_{}
	for n := Choose(3); n > 0; n-- {
		defaults = append(defaults, Int())
	}
	a, b := d, any_(key)
	if len(defaults) == 0 && Bool() {
		Reach("inverted")
		a, b = b, a
	}
	r, err := get(a, b, defaults...)
	Assert(err == nil, "reading a key never fails")
	expected := raw[key]
	if expected == nil {
		switch len(defaults) {
		case 1:
			Reach("default")
			expected = defaults[0]
		case 2:
			expected = defaults
		}
	}
	Assert(Eq(r, expected), "the value is the one of the key, or else the default")
	has, err := hasKey(a, b)
	_, in := raw[key]
	Assert(err == nil && has.(bool) == in, "a key present is reported so")
	_, err = get(1, "x")
	Assert(err != nil, "something must be a dictionary")
}

// pluck on up to 3 dictionaries, pick, pickv and omit on a dictionary of up to 3 keys for 1 or 2 keys.
func Verif_C41_pick() {
	names := []string{"a", "b", "c"}
	if Choose(2) == 0 {
		Reach("pluck")
		dicts, expected := []iDictionary{}, []any_{}
		for i, n := 0, Choose(4); i < n; i++ {
			raw := map[string]any_{}
			if Bool() {
				v := Int()
				raw["a"] = v
				expected = append(expected, v)
			}
			if Bool() {
				raw["b"] = 1
			}
			dicts = append(dicts, flavourDict(i%flavours, raw))
		}
		r := elems(pluck("a", dicts...))
		Assert(len(r) == len(expected), "one value for each dictionary that has the key")
		for i := range r {
			Assert(Eq(r[i], expected[i]), "the values are in the order of the dictionaries")
		}
		return
	}
	raw := map[string]any_{}
	for _, k := range names {
		if Bool() {
			raw[k] = Int()
		}
	}
	kept := copyMap(raw)
	d := flavourDict(Choose(flavours), raw)
	keys := []any_{names[Choose(3)]}
	if Bool() {
		keys = append(keys, names[Choose(3)])
	}
	over := []string{}
	for _, k := range names {
		if _, ok := kept[k]; ok && !inPrinted(k, keys) {
			over = append(over, k)
		}
	}
	message := []string{"", "no %v!", "bad:"}[Choose(3)]
	r, err := pickv(d, message, keys[0], keys[1:]...)
	if len(over) > 0 {
		Reach("intruders")
		Assert(err != nil, "keys that are not listed are an error")
		list := strings.Join(over, ", ")
		expected := []string{"Unwanted values " + list, "no " + list + "!", "bad: " + list}[map[string]int{"": 0, "no %v!": 1, "bad:": 2}[message]]
		Assert(err.Error() == expected, "the error names the intruders")
	} else {
		Reach("picked")
		Assert(err == nil, "a dictionary with only the keys listed is accepted")
		for _, k := range names {
			v, ok := kept[k]
			Assert(!ok || Eq(r.(iDictionary).Get(k), v), "the values picked are those of the dictionary")
		}
	}
	Assert(len(d.AsMap()) == len(kept), "the dictionary is unchanged")
}

// key and content on maps of 0 to 3 entries (raw and of each flavour), on a list of up to 3 maps of one entry, and on values that are not maps.
func Verif_C41_single() {
	switch Choose(3) {
	case 0:
		raw := map[string]any_{}
		for _, k := range []string{"a", "b", "c"}[:Choose(4)] {
			raw[k] = Int()
		}
		var m any_ = raw
		if k := Choose(flavours + 1); k < flavours {
			m = flavourDict(k, raw)
		}
		k, err1 := key(m)
		v, err2 := content(m)
		if len(raw) != 1 {
			Reach("several")
			Assert(err1 != nil && err2 != nil, "a map that has not exactly one entry is an error")
			return
		}
		Reach("one")
		Assert(err1 == nil && err2 == nil && Eq(k, "a") && Eq(v, raw["a"]), "the key and the content are those of the only entry")
	case 1:
		Reach("list")
		names := []string{"a", "b", "c"}
		raw, values := []any_{}, []any_{}
		n := 1 + Choose(3)
		for i := 0; i < n; i++ {
			values = append(values, Int())
			raw = append(raw, map[string]any_{names[i]: values[i]})
		}
		var l any_ = raw
		if k := Choose(flavours + 1); k < flavours {
			l = flavourList(k, raw)
		}
		k, err1 := key(l)
		v, err2 := content(l)
		Assert(err1 == nil && err2 == nil, "a list of maps of one entry is accepted")
		ks, m := elems(k), v.(dictionary)
		Assert(len(ks) == n && len(m) == n, "there is one key per map")
		for i := range ks {
			Assert(Eq(ks[i], names[i]) && Eq(m[names[i]], values[i]), "the keys are in order, with their contents")
		}
	default:
		Reach("other")
		v := []any_{nil, 1, "a", true, []any_{1}}[Choose(5)]
		_, err1 := key(v)
		_, err2 := content(v)
		Assert(err1 != nil && err2 != nil, "anything else is an error")
	}
}

// The function rawList in a template, on lists of 1 to 3 texts of 1 or 2 characters (of a, 1 and blank): every element that holds no blank is printed without quotes.
func Verif_C41_raw() {
	raw := []any_{}
	expected := ""
	for i, n := 0, 1+Choose(3); i < n; i++ {
		s := StrN(1+Choose(2), "a1 ")
		if i > 0 {
			expected += ","
		}
		if strings.Index(s, " ") >= 0 {
			Reach("quoted")
			expected += `"` + s + `"`
		} else {
			Reach("bare")
			expected += s
		}
		raw = append(raw, s)
	}
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	t, err := NewTemplate("/tmp", map[string]any_{"l": raw}, "", OptionsSet{Utils: true})
	Assert(err == nil, "a template is created")
	r, err := t.ProcessContent("{{ rawList .l }}", "test.gt")
	Assert(err == nil, "the template is rendered")
	Assert(r == "["+expected+"]", "the elements are printed outside of their quotes")
}
