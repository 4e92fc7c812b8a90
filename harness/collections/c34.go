package collections

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C34_strings", Verif_C34_strings)
	Register("Verif_C34_numbers", Verif_C34_numbers)
	Register("Verif_C34_splits", Verif_C34_splits)
	Register("Verif_C34_arrays", Verif_C34_arrays)
	Register("Verif_C34_join", Verif_C34_join)
	Register("Verif_C34_quote", Verif_C34_quote)
	Register("Verif_C34_numbering", Verif_C34_numbering)
	Register("Verif_C34_title", Verif_C34_title)
}

func upper34(c rune) bool { return c == 'B' || c == ' ' }

func strings34(list StringArray) []string {
	r := make([]string, len(list))
	for i := range list {
		r[i] = string(list[i])
	}
	return r
}

func same34(a StringArray, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	ok := true
	for i := range b {
		ok = And(ok, string(a[i]) == b[i])
	}
	return ok
}

// Methods of String that return text: any text of up to 3 characters and any argument of up to 2 characters (letters, blank, end of line, accent).
func Verif_C34_strings() {
	s := Str(3+Tier(), "aBb \n\xc3\xa9")
	t := Str(2, "aBb \xa9")
	o := String(s)
	n := Choose(5) - 1
	drop := func(c rune) rune {
		switch c {
		case 'a':
			return -1
		case 'B':
			return 'x'
		}
		return c
	}
	var got String
	var want string
	switch Choose(20) {
	case 0:
		got, want = o.ToLower(), strings.ToLower(s)
	case 1:
		got, want = o.ToUpper(), strings.ToUpper(s)
	case 2:
		got, want = o.ToTitle(), strings.ToTitle(s)
	case 3:
		got, want = o.Trim(t), strings.Trim(s, t)
	case 4:
		got, want = o.TrimLeft(t), strings.TrimLeft(s, t)
	case 5:
		got, want = o.TrimRight(t), strings.TrimRight(s, t)
	case 6:
		got, want = o.TrimPrefix(t), strings.TrimPrefix(s, t)
	case 7:
		got, want = o.TrimSuffix(t), strings.TrimSuffix(s, t)
	case 8:
		got, want = o.TrimSpace(), strings.TrimSpace(s)
	case 9:
		got, want = o.TrimFunc(upper34), strings.TrimFunc(s, upper34)
	case 10:
		got, want = o.TrimLeftFunc(upper34), strings.TrimLeftFunc(s, upper34)
	case 11:
		got, want = o.TrimRightFunc(upper34), strings.TrimRightFunc(s, upper34)
	case 12:
		got, want = o.Map(drop), strings.Map(drop, s)
	case 13:
		got, want = o.Replace(t, "yz"), strings.Replace(s, t, "yz", -1)
	case 14:
		got, want = o.ReplaceN(t, "yz", n), strings.Replace(s, t, "yz", n)
	case 15:
		Assume(n >= 0)
		got, want = o.Repeat(n), strings.Repeat(s, n)
	case 16:
		got, want = o.ToLowerSpecial(unicode.TurkishCase), strings.ToLowerSpecial(unicode.TurkishCase, s)
	case 17:
		got, want = o.ToUpperSpecial(unicode.TurkishCase), strings.ToUpperSpecial(unicode.TurkishCase, s)
	case 18:
		got, want = o.ToTitleSpecial(unicode.TurkishCase), strings.ToTitleSpecial(unicode.TurkishCase, s)
	case 19:
		got, want = String(o.Str()), o.String()
		Assert(want == s, "the text is unchanged")
	}
	Observe("got", string(got))
	Assert(string(got) == want, "a method gives what the function of the standard library gives")
	Assert(string(o) == s, "the text is not changed")
}

// Methods of String that return numbers and booleans: any text of up to 3 characters, any argument of up to 2 characters.
func Verif_C34_numbers() {
	s := Str(3+Tier(), "aBb \xc3\xa9")
	t := Str(2, "aBb\xc3\xa9")
	o := String(s)
	var got, want int
	b := func(x bool) int {
		if x {
			return 1
		}
		return 0
	}
	switch Choose(18) {
	case 0:
		got, want = o.Compare(t), strings.Compare(s, t)
	case 1:
		got, want = b(o.Contains(t)), b(strings.Contains(s, t))
	case 2:
		got, want = b(o.ContainsAny(t)), b(strings.ContainsAny(s, t))
	case 3:
		got, want = b(o.ContainsRune('B')), b(strings.ContainsRune(s, 'B'))
	case 4:
		got, want = o.Count(t), strings.Count(s, t)
	case 5:
		got, want = b(o.EqualFold(t)), b(strings.EqualFold(s, t))
	case 6:
		got, want = b(o.HasPrefix(t)), b(strings.HasPrefix(s, t))
	case 7:
		got, want = b(o.HasSuffix(t)), b(strings.HasSuffix(s, t))
	case 8:
		got, want = o.Index(t), strings.Index(s, t)
	case 9:
		got, want = o.IndexAny(t), strings.IndexAny(s, t)
	case 10:
		got, want = o.IndexByte('b'), strings.IndexByte(s, 'b')
	case 11:
		got, want = o.IndexFunc(upper34), strings.IndexFunc(s, upper34)
	case 12:
		got, want = o.IndexRune('é'), strings.IndexRune(s, 'é')
	case 13:
		got, want = o.LastIndex(t), strings.LastIndex(s, t)
	case 14:
		got, want = o.LastIndexAny(t), strings.LastIndexAny(s, t)
	case 15:
		got, want = o.LastIndexByte('b'), strings.LastIndexByte(s, 'b')
	case 16:
		got, want = o.LastIndexFunc(upper34), strings.LastIndexFunc(s, upper34)
	case 17:
		got, want = o.Len(), len(s)
	}
	Observe("got", got)
	Assert(got == want, "a method gives what the function of the standard library gives")
}

// Methods of String that split: any text of up to 3 characters, separator of up to 1 character, limits -1 to 3.
func Verif_C34_splits() {
	s := Str(3+Tier(), "a_, \n")
	t := Str(1, "a, ")
	n := Choose(5) - 1
	o := String(s)
	var got StringArray
	var want []string
	switch Choose(8) {
	case 0:
		got, want = o.Split(t), strings.Split(s, t)
	case 1:
		got, want = o.SplitN(t, n), strings.SplitN(s, t, n)
	case 2:
		got, want = o.SplitAfter(t), strings.SplitAfter(s, t)
	case 3:
		got, want = o.SplitAfterN(t, n), strings.SplitAfterN(s, t, n)
	case 4:
		got, want = o.Fields(), strings.Fields(s)
	case 5:
		f := func(c rune) bool { return c == 'a' || c == ',' }
		got, want = o.FieldsFunc(f), strings.FieldsFunc(s, f)
	case 6:
		got = o.FieldsID()
		word := ""
		for i := 0; i <= len(s); i++ {
			if i < len(s) && (s[i] == 'a' || s[i] == '_') {
				word += s[i : i+1]
			} else if word != "" {
				want, word = append(want, word), ""
			}
		}
	case 7:
		got, want = o.Lines(), strings.Split(s, "\n")
	}
	Observe("got", strings34(got))
	Assert(same34(got, want), "splitting gives the parts of the text in order")
}

// Methods of StringArray: 0-2 texts of up to 2 characters; each text is replaced by the result of the method of String, the array is unchanged.
func Verif_C34_arrays() {
	n := Choose(3)
	texts := make([]string, n)
	list := make(StringArray, n)
	for i := range texts {
		texts[i] = Str(2, "aB \n")
		list[i] = String(texts[i])
	}
	methods := []struct {
		all func(StringArray) StringArray
		one func(String) String
	}{
		{StringArray.ToLower, String.ToLower}, {StringArray.ToUpper, String.ToUpper}, {StringArray.ToTitle, String.ToTitle}, {StringArray.TrimSpace, String.TrimSpace}, {StringArray.UnIndent, String.UnIndent},
		{func(a StringArray) StringArray { return a.Trim("a ") }, func(s String) String { return s.Trim("a ") }},
		{func(a StringArray) StringArray { return a.TrimLeft("a ") }, func(s String) String { return s.TrimLeft("a ") }},
		{func(a StringArray) StringArray { return a.TrimRight("a ") }, func(s String) String { return s.TrimRight("a ") }},
		{func(a StringArray) StringArray { return a.TrimPrefix("a") }, func(s String) String { return s.TrimPrefix("a") }},
		{func(a StringArray) StringArray { return a.TrimSuffix("a") }, func(s String) String { return s.TrimSuffix("a") }},
		{func(a StringArray) StringArray { return a.TrimFunc(upper34) }, func(s String) String { return s.TrimFunc(upper34) }},
		{func(a StringArray) StringArray { return a.TrimLeftFunc(upper34) }, func(s String) String { return s.TrimLeftFunc(upper34) }},
		{func(a StringArray) StringArray { return a.TrimRightFunc(upper34) }, func(s String) String { return s.TrimRightFunc(upper34) }},
		{func(a StringArray) StringArray { return a.Center(3) }, func(s String) String { return s.Center(3) }},
		{func(a StringArray) StringArray { return a.Wrap(2) }, func(s String) String { return s.Wrap(2) }},
		{func(a StringArray) StringArray { return a.Indent("-") }, func(s String) String { return s.Indent("-") }},
		{func(a StringArray) StringArray { return a.IndentN(2) }, func(s String) String { return s.IndentN(2) }},
		{func(a StringArray) StringArray { return a.ToLowerSpecial(unicode.TurkishCase) }, func(s String) String { return s.ToLowerSpecial(unicode.TurkishCase) }},
		{func(a StringArray) StringArray { return a.ToUpperSpecial(unicode.TurkishCase) }, func(s String) String { return s.ToUpperSpecial(unicode.TurkishCase) }},
		{func(a StringArray) StringArray { return a.ToTitleSpecial(unicode.TurkishCase) }, func(s String) String { return s.ToTitleSpecial(unicode.TurkishCase) }},
	}
	m := methods[Choose(len(methods))]
	got := m.all(list)
	Assert(len(got) == n, "there is a result for each text")
	for i := range texts {
		Assert(string(got[i]) == string(m.one(String(texts[i]))), "each text is replaced by the result of the method")
	}
	Assert(same34(list, texts), "the array is not changed")
}

// Joining 0-3 texts of up to 1 character with a separator (text or number), sorting them, conversions between arrays, texts and objects.
func Verif_C34_join() {
	n := Choose(4)
	texts := make([]string, n)
	list := make(StringArray, n)
	objects := make([]interface{}, n)
	for i := range texts {
		texts[i] = Str(1, "abC1")
		list[i] = String(texts[i])
		objects[i] = texts[i]
	}
	sep := Str(1, ",a")
	Assert(string(list.Join(sep)) == strings.Join(texts, sep), "joining puts the separator between the texts")
	Assert(string(list.Join(7)) == strings.Join(texts, "7"), "joining puts the printed form of the separator between the texts")
	Assert(string(String(sep).Join(objects...)) == strings.Join(texts, sep), "joining from the separator is the same")
	Assert(Concat(objects...) == strings.Join(texts, ""), "concatenation puts the texts one after the other")
	Assert(JoinLines(objects...) == strings.Join(texts, "\n"), "lines are joined by ends of line")
	Assert(same34(stringArray(list.Strings()), texts), "the texts are given back")
	Assert(same34(stringArray(list.Str()), texts), "the texts are given back")
	back := ToInterfaces(texts...)
	Assert(len(back) == n, "there is an object for each text")
	for i := range back {
		Assert(back[i] == objects[i], "the objects are the texts")
	}
	sorted := list.Sorted()
	want := append([]string{}, texts...)
	sort.Strings(want)
	Assert(same34(sorted, want), "sorting gives the texts in order")
	Assert(same34(list, texts), "the array is not changed")
}

// Quoting any text of up to 3 characters (quotes, backslash, control characters, accent) reads back as the text.
func Verif_C34_quote() {
	s := Str(2+Tier(), "a\"\\\n\t\x01'\xc3\xa9")
	q := string(String(s).Quote())
	Observe("quote", q)
	back, err := strconv.Unquote(q)
	Assert(err == nil && back == s, "the quoted text reads back as the text")
	Assert("\""+string(String(s).Escape())+"\"" == q, "the escaped text is the quoted text without its quotes")
}

// Numbering the lines of any text of up to 3 characters, with width 0 to 3; more than 9 lines.
func Verif_C34_numbering() {
	s := Str(3+Tier(), "a \n")
	if Choose(2) == 1 {
		s += strings.Repeat("\n", 9)
	}
	width := Choose(4)
	got := strings.Split(string(String(s).AddLineNumber(width)), "\n")
	lines := strings.Split(s, "\n")
	if width == 0 {
		width = len(fmt.Sprint(len(lines)))
	}
	Assert(len(got) == len(lines), "each line is numbered")
	for i := range lines {
		number := fmt.Sprint(i + 1)
		for len(number) < width {
			number = " " + number
		}
		Assert(got[i] == number+" "+lines[i], "a line is its number right aligned, a blank and its text")
	}
}

// Title puts the first letter of each word in upper case and the others in lower case, any text of up to 3 characters.
func Verif_C34_title() {
	s := Str(3, "aB -")
	got := string(String(s).Title())
	Observe("title", got)
	want := []byte(s)
	for i := range want {
		letter := want[i] == 'a' || want[i] == 'B'
		if !letter {
			continue
		}
		start := i == 0 || s[i-1] == ' ' || s[i-1] == '-'
		if start && want[i] == 'a' {
			want[i] = 'A'
		} else if !start && want[i] == 'B' {
			want[i] = 'b'
		}
	}
	Assert(got == string(want), "the first letter of each word is in upper case and the others in lower case")
	if s != "" {
		Assert(string(StringArray{String(s)}.Title()[0]) == got, "the method of arrays gives the same")
	}
}
