package collections

import (
	"strings"
	"unicode/utf8"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C12_word", Verif_C12_word)
	Register("Verif_C12_wordMultiByte", Verif_C12_wordMultiByte)
	Register("Verif_C12_context", Verif_C12_context)
	Register("Verif_C12_contextLong", Verif_C12_contextLong)
	Register("Verif_C12_contextAny", Verif_C12_contextAny)
	Register("Verif_C12_indexAll", Verif_C12_indexAll)
}

// Text of 0..6 (quick) or 0..8 (thorough) arbitrary characters among letter, dollar, dot, space and underscore; every
// position from -1 to the length; no accepted punctuation, dot, or dot and underscore given separately.
func Verif_C12_word() {
	s := Str(6+2*Tier(), "a$. _")
	pos := Choose(len(s)+2) - 1
	accept := [][]string{nil, {"."}, {".", "_"}}[Choose(3)]
	word, at := String(s).GetWordAtPosition(pos, accept...)
	Assert(String(s).SelectWord(pos, accept...) == word, "both functions select the same word")
	if pos < 0 || pos >= len(s) {
		Assert(word == "" && at == -1, "nothing out of the text")
		return
	}
	inWord := func(i int) bool {
		return s[i] == 'a' || s[i] == '$' || s[i] == '.' && len(accept) > 0 || s[i] == '_' && len(accept) > 1
	}
	if !inWord(pos) {
		Assert(word == "", "nothing is selected out of a word")
		return
	}
	begin, end := pos, pos
	for begin > 0 && inWord(begin-1) {
		begin--
	}
	for end < len(s) && inWord(end) {
		end++
	}
	Assert(at == begin && string(word) == s[begin:end], "the whole word is selected and its start is reported")
	Reach("end")
}

// Text of 0..4 characters (quick) or 0..5 (thorough) among letter, space, dot, é, à (whose bytes read as spaces or
// punctuation when taken alone) and », every byte position.
func Verif_C12_wordMultiByte() {
	n := Choose(5 + Tier())
	chars := make([]string, n)
	s := ""
	for i := range chars {
		chars[i] = []string{"b", " ", "é", "à", "»", "."}[Choose(6)]
		s += chars[i]
	}
	pos := Choose(len(s) + 1)
	word, at := String(s).GetWordAtPosition(pos, ".")
	if pos == len(s) {
		Assert(word == "" && at == -1, "nothing after the text")
		return
	}
	start := 0
	wordStart := -1
	for i := 0; i <= n; i++ {
		isWord := i < n && chars[i] != " " && chars[i] != "»"
		if isWord && wordStart < 0 {
			wordStart = start
		}
		if !isWord {
			if wordStart >= 0 && wordStart <= pos && pos < start {
				Assert(at == wordStart && string(word) == s[wordStart:start], "the whole word is selected")
				return
			}
			wordStart = -1
		}
		if i < n {
			if pos >= start && pos < start+len(chars[i]) && !isWord {
				Assert(word == "", "nothing is selected out of a word")
				return
			}
			start += len(chars[i])
		}
	}
	Fail("position not found")
}

// balanced tells that s is one context opened by l and closed by r at its end only.
func balanced(s string, l, r string) bool {
	depth := 0
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], l) {
			depth++
			i += len(l)
		} else if strings.HasPrefix(s[i:], r) {
			depth--
			i += len(r)
			if depth == 0 {
				return i == len(s)
			}
		} else {
			i++
		}
	}
	return false
}

func checkContext(s string, pos int, l, r string) (found bool) {
	c, at := String(s).GetContextAtPosition(pos, l, r)
	Assert(String(s).SelectContext(pos, l, r) == c, "both functions select the same context")
	if at < 0 {
		Assert(at == -1 && c == "", "nothing is selected")
		return false
	}
	Assert(at <= pos && pos < at+len(c) && at+len(c) <= len(s), "the context contains the position")
	Assert(string(c) == s[at:at+len(c)], "the context is a fragment of the text")
	Assert(c.HasPrefix(l) && c.HasSuffix(r), "the context starts and ends with the markers")
	if l != "" && r != "" {
		if l != r {
			Assert(balanced(string(c), l, r), "the context is balanced")
		}
		Assert(len(c) >= len(l)+len(r), "the markers do not overlap")
	}
	return true
}

// Text of 0..7 (quick) or 0..9 (thorough) arbitrary characters among both parentheses and a letter; every position from -1
// to the length. When the text is balanced, the innermost context opened before the position and containing it is selected.
func Verif_C12_context() {
	s := Str(7+2*Tier(), "()a")
	pos := Choose(len(s)+2) - 1
	found := checkContext(s, pos, "(", ")")
	if pos < 0 || pos >= len(s) {
		Assert(!found, "nothing out of the text")
		return
	}
	depth, ok := 0, true
	for i := 0; i < len(s); i++ {
		if s[i] == '(' {
			depth++
		} else if s[i] == ')' {
			depth--
			ok = ok && depth >= 0
		}
	}
	if !ok || depth != 0 {
		return
	}
	begin := -1
	for i := pos - 1; i >= 0; i-- {
		if s[i] != '(' {
			continue
		}
		end, d := i, 0
		for end < len(s) {
			if s[end] == '(' {
				d++
			} else if s[end] == ')' {
				d--
			}
			end++
			if d == 0 {
				break
			}
		}
		if end > pos {
			begin = i
			break
		}
	}
	_, at := String(s).GetContextAtPosition(pos, "(", ")")
	Assert(at == begin, "the innermost context is selected when the text is balanced")
	Reach("end")
}

// Text of 0..7 (quick) or 0..8 (thorough) arbitrary characters among two marker characters and a letter; markers of two
// characters; every position.
func Verif_C12_contextLong() {
	s := Str(7+Tier(), "[]a")
	pos := Choose(len(s) + 1)
	checkContext(s, pos, "[[", "]]")
	Reach("end")
}

// Text of 0..5 (quick) or 0..6 (thorough) arbitrary characters among bar, parenthesis and a letter, every position; left
// and right markers among empty, bar, double bar and parenthesis.
func Verif_C12_contextAny() {
	s := Str(5+Tier(), "|(a")
	pos := Choose(len(s)+2) - 1
	markers := []string{"", "|", "||", "("}
	checkContext(s, pos, markers[Choose(4)], markers[Choose(4)])
	Reach("end")
}

// Text of 0..7 (quick) or 0..9 (thorough) arbitrary characters among two, substring of 0..3 such characters.
func Verif_C12_indexAll() {
	s, sub := Str(7+2*Tier(), "ab"), Str(3, "ab")
	r := String(s).IndexAll(sub)
	if sub == "" {
		Assert(len(r) == 0, "an empty substring is never found")
		return
	}
	k := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			Assert(k < len(r) && r[k] == i, "each occurrence is reported in order")
			k++
			i += len(sub)
		} else {
			i++
		}
	}
	Assert(k == len(r), "nothing else is reported")
	Assert(utf8.ValidString(s), "valid")
	Reach("end")
}
