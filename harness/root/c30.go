package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C30_scalars", Verif_C30_scalars)
	Register("Verif_C30_lists", Verif_C30_lists)
	Register("Verif_C30_maps", Verif_C30_maps)
	Register("Verif_C30_order", Verif_C30_order)
	Register("Verif_C30_nested", Verif_C30_nested)
	Register("Verif_C30_words", Verif_C30_words)
}

// bashWord is how one string is written: quoted and escaped when it contains one of the special characters.
func bashWord(s string, special string) string {
	for i := 0; i < len(s); i++ {
		for j := 0; j < len(special); j++ {
			if s[i] == special[j] {
				return strconv.Quote(s)
			}
		}
	}
	return s
}

const (
	bashScalar = " \t\n[]()"
	bashInList = bashScalar + ","
)

// bashLeaf gives a leaf and its printed form.
func bashLeaf() (any_, string, bool) {
	switch Choose(4) {
	case 0:
		i := IntRange(-9, 9)
		return i, fmt.Sprint(i), false
	case 1:
		b := Bool()
		return b, fmt.Sprint(b), false
	case 2:
		return 1.5, "1.5", false
	}
	s := bashText(2)
	return s, s, true
}

func bashText(n int) string { return StrN(n, "a ,\n(\"") }

// Numbers of -9..9 or among 0.5, 1e21, the smallest integer, booleans, and strings of 0..3 (quick) or 0..4 (thorough)
// arbitrary characters among letter, blank, tab, line break, brackets, parentheses, comma, quote and backslash.
func Verif_C30_scalars() {
	switch Choose(4) {
	case 0:
		s := Str(3+Tier(), "a \t\n[]),\"\\")
		Assert(collections.ToBash(s) == bashWord(s, bashScalar), "a string is quoted when it needs it")
		Assert(collections.ToBash(collections.String(s)) == bashWord(s, bashScalar), "a string object too")
	case 1:
		i := IntRange(-9, 9)
		Assert(collections.ToBash(i) == fmt.Sprint(i), "an integer is printed")
	case 2:
		b := Bool()
		Assert(collections.ToBash(b) == fmt.Sprint(b), "a boolean is printed")
	case 3:
		Assert(collections.ToBash(0.5) == "0.5" && collections.ToBash(1e21) == "1e+21", "a float is printed")
		Assert(collections.ToBash(-1<<63) == "-9223372036854775808", "the smallest integer is printed")
	}
	Reach("end")
}

// Lists of 0..2 (quick) or 0..3 (thorough) elements: arbitrary strings of 2 characters, ints, booleans, floats; plain
// slices, typed slices and lists of every flavour.
func Verif_C30_lists() {
	n := Choose(3 + Tier())
	l := make([]any_, n)
	words := make([]string, n)
	texts := true
	for i := range l {
		var text bool
		l[i], words[i], text = bashLeaf()
		if text {
			words[i] = bashWord(words[i], bashInList)
		}
		texts = texts && text
	}
	expected := "(" + strings.Join(words, " ") + ")"
	Assert(collections.ToBash(l) == expected, "each element is one word, in order")
	f := Choose(flavours)
	Assert(collections.ToBash(flavourList(f, l)) == expected, "a list of any flavour")
	if texts {
		s := make([]string, n)
		for i := range s {
			s[i] = l[i].(string)
		}
		Assert(collections.ToBash(s) == expected, "a slice of strings")
	}
	Reach("end")
}

// Maps of three entries, any iteration order of the map within two deviations.
func Verif_C30_order() {
	MapOrder(2)
	m := map[string]any_{"b": 1, "a": []any_{2}, "Z": map[string]any_{"d": 4, "c": 3}}
	Assert(collections.ToBash(m) == "declare -A Z\nZ=([c]=3 [d]=4)\ndeclare -a a\na=(2)\nb=1", "key order")
	Reach("end")
}

// Maps of 0..2 (quick) or 0..3 (thorough) entries holding leaves or lists of up to 2 arbitrary strings, written last key
// first.
func Verif_C30_maps() {
	keys := []string{"Z", "a", "b1"}[:Choose(3+Tier())]
	m := map[string]any_{}
	lines := make([]string, len(keys))
	for i := len(keys) - 1; i >= 0; i-- {
		k := keys[i]
		if Choose(2) == 0 {
			v, word, text := bashLeaf()
			if text {
				word = bashWord(word, bashScalar)
			}
			m[k], lines[i] = v, k+"="+word
		} else {
			s := bashText(1)
			m[k] = []any_{s, 1}
			lines[i] = "declare -a " + k + "\n" + k + "=(" + bashWord(s, bashInList) + " 1)"
		}
	}
	Assert(collections.ToBash(m) == strings.Join(lines, "\n"), "every entry is assigned under its key, in key order")
	Assert(collections.ToBash(flavourDict(Choose(1+Tier()*(flavours-1)), m)) == strings.Join(lines, "\n"), "a dictionary of a flavour")
	Reach("end")
}

// A map within a map: 0..2 entries holding leaves or lists of 2 arbitrary strings, dollars included.
func Verif_C30_nested() {
	keys := []string{"a", "b"}[:Choose(3)]
	inner := map[string]any_{}
	words := make([]string, len(keys))
	for i, k := range keys {
		switch Choose(3) {
		case 0:
			v, word, text := bashLeaf()
			if text {
				word = bashWord(word, bashScalar)
			}
			inner[k], words[i] = v, word
		case 1:
			s := StrN(2, "$ a")
			inner[k], words[i] = s, strings.Replace(bashWord(s, bashScalar), "$", "\\$", -1)
		case 2:
			s, t := bashText(1), bashText(1)
			inner[k], words[i] = []any_{s, t}, bashWord(s, bashInList)+","+bashWord(t, bashInList)
		}
		words[i] = "[" + k + "]=" + words[i]
	}
	expected := "declare -A m\nm=(" + strings.Join(words, " ") + ")"
	Assert(collections.ToBash(map[string]any_{"m": inner}) == expected, "every entry of the inner map is assigned")
	Reach("end")
}

// bashWords splits the inside of a bash array into words the way bash does (no expansion is considered).
func bashWords(s string) (n int) {
	in, quoted := false, false
	for i := 0; i < len(s); i++ {
		switch {
		case quoted:
			if s[i] == '\\' {
				i++
			} else if s[i] == '"' {
				quoted = false
			}
		case s[i] == '"':
			quoted, in = true, true
		case s[i] == ' ' || s[i] == '\t' || s[i] == '\n':
			if in {
				n++
			}
			in = false
		default:
			in = true
		}
	}
	if in {
		n++
	}
	return
}

// Lists of 1..2 (quick) or 1..3 (thorough) strings of 1..2 arbitrary characters among letter, blank, tab, line break,
// parentheses and brackets, and deeper data: a list and a map in a map in a map.
func Verif_C30_words() {
	n := 1 + Choose(2+Tier())
	l := make([]any_, n)
	for i := range l {
		l[i] = StrN(1+Choose(2), "a \t\n([")
	}
	r := collections.ToBash(l)
	Assert(strings.HasPrefix(r, "(") && strings.HasSuffix(r, ")"), "a list is an array")
	Assert(bashWords(r[1:len(r)-1]) == n, "list elements stay separate words")
	r = collections.ToBash(map[string]any_{"m": map[string]any_{"a": l, "b": map[string]any_{"c": l[0], "d": 1}, "e": map[string]any_{}}})
	const head = "declare -A m\nm=("
	Assert(strings.HasPrefix(r, head) && strings.HasSuffix(r, ")"), "a map of maps is an associative array")
	Assert(bashWords(r[len(head):len(r)-1]) == 3, "each entry of a nested map stays one word")
	Reach("end")
}
