package collections

import (
	"strings"
	"unicode/utf8"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C10_center", Verif_C10_center)
	Register("Verif_C10_wrap", Verif_C10_wrap)
	Register("Verif_C10_wrapWords", Verif_C10_wrapWords)
	Register("Verif_C10_indent", Verif_C10_indent)
	Register("Verif_C10_unIndent", Verif_C10_unIndent)
	Register("Verif_C10_lines", Verif_C10_lines)
	Register("Verif_C10_split2", Verif_C10_split2)
	Register("Verif_C10_arrays", Verif_C10_arrays)
}

func splitAll(s string, sep byte) (r []string) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == sep {
			r = append(r, s[start:i])
			start = i + 1
		}
	}
	return append(r, s[start:])
}

func isBlank(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] != ' ' && s[i] != '\t' && s[i] != '\n' {
			return false
		}
	}
	return true
}

// words splits on spaces, tabs and line ends.
func words(s string) (r []string) {
	start := -1
	for i := 0; i <= len(s); i++ {
		blank := i == len(s) || s[i] == ' ' || s[i] == '\t' || s[i] == '\n'
		if blank && start >= 0 {
			r = append(r, s[start:i])
			start = -1
		} else if !blank && start < 0 {
			start = i
		}
	}
	return
}

func same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = And(r, a[i] == b[i])
	}
	return r
}

// Text of 0..3 (quick) or 0..5 (thorough) arbitrary characters among one-byte and multi-byte ones, width -1..8 (quick) or
// -1..12 (thorough), as function, method and array method.
func Verif_C10_center() {
	max, widths := 3, 10
	if Tier() > 0 {
		max, widths = 5, 14
	}
	n := Choose(max + 1)
	s := ""
	for i := 0; i < n; i++ {
		switch Choose(4) {
		case 0:
			s += "é"
		case 1:
			s += "♠"
		default:
			s += string(ByteIn("a %\t"))
		}
	}
	width := Choose(widths) - 1
	r := CenterString(s, width)
	l := utf8.RuneCountInString(s)
	if l >= width {
		Assert(r == s, "text that fills the width is left alone")
	} else {
		Assert(utf8.RuneCountInString(r) == width, "the result has the requested width")
		left := (width - l) / 2
		Assert(r[left:left+len(s)] == s, "the text is in the middle")
		Assert(r[:left] == strings.Repeat(" ", left), "the left part is spaces")
		Assert(r[left+len(s):] == strings.Repeat(" ", width-l-left), "the right part is spaces")
	}
	Assert(String(s).Center(width) == String(r), "the method agrees")
	Assert(StringArray{String(s), "x"}.Center(width)[0] == String(r), "the array method agrees")
	Reach("end")
}

// checkWrap verifies the wrapping of a single line.
func checkWrap(line, wrapped string, width int) {
	if isBlank(line) {
		Assert(wrapped == "", "a blank line stays a blank line")
		return
	}
	chunks := splitAll(wrapped, '\n')
	Assert(same(words(line), words(wrapped)), "every word is kept in order")
	indented := line[0] == ' ' || line[0] == '\t'
	for i := range chunks {
		w := words(chunks[i])
		if indented && (i == 0 || i == len(chunks)-1) {
			// The indentation of a line is not part of what is verified
			continue
		}
		Assert(len(w) > 0, "no blank line is added")
		Assert(chunks[i] == strings.Join(w, " "), "words are separated by one space")
		Assert(len(w) == 1 || len(chunks[i]) <= width+1, "words wider than the width are never put together")
		if i+1 < len(chunks) && !(indented && i+2 == len(chunks)) {
			next := words(chunks[i+1])
			Assert(len(next) > 0 && len(chunks[i])+1+len(next[0]) > width, "a line is broken only when the next word does not fit")
		}
	}
}

// One line of 0..5 (quick) or 0..7 (thorough) arbitrary characters among letter, space and tab, then a blank or a second
// line; width -1..4 (quick) or -1..6 (thorough).
func Verif_C10_wrap() {
	max, widths := 5, 6
	if Tier() > 0 {
		max, widths = 7, 8
	}
	line := Str(max, "a \t")
	width := Choose(widths) - 1
	wrapped := WrapString(line, width)
	checkWrap(line, wrapped, width)
	Assert(WrapString(line+"\n"+"  b", width) == wrapped+"\n"+WrapString("  b", width), "lines are wrapped one by one")
	Assert(WrapString("\n"+line+"\n \t", width) == "\n"+wrapped+"\n", "blank lines are kept")
	Assert(String(line).Wrap(width) == String(wrapped), "the method agrees")
	Reach("end")
}

// Four (quick) or five (thorough) words of 1..3 letters; any width from -1 to 20.
func Verif_C10_wrapWords() {
	n := 4 + Tier()
	line := ""
	for i := 0; i < n; i++ {
		if i > 0 {
			line += " "
		}
		line += "abcdefghijklmno"[3*i : 3*i+1+Choose(3)]
	}
	width := IntRange(-1, 20)
	wrapped := WrapString(line, width)
	checkWrap(line, wrapped, Concretize(width))
	Reach("end")
}

// Text of 0..6 (quick) or 0..8 (thorough) arbitrary characters among letter, line end and space; arbitrary indentation
// text of 0..2 characters, 0..3 spaces.
func Verif_C10_indent() {
	s := Str(6+2*Tier(), "a\n ")
	prefix := Str(2, "\t-")
	lines := splitAll(s, '\n')
	expected := ""
	for i := range lines {
		if i > 0 {
			expected += "\n"
		}
		expected += prefix + lines[i]
	}
	Assert(Indent(s, prefix) == expected, "every line is prefixed")
	Assert(String(s).Indent(prefix) == String(expected), "the method agrees")
	n := Choose(4)
	Assert(IndentN(s, n) == Indent(s, "   "[:n]), "a number of spaces")
	Assert(String(s).IndentN(n) == String(Indent(s, "   "[:n])), "a number of spaces by method")
	Reach("end")
}

// Text of 0..6 (quick) or 0..8 (thorough) arbitrary characters among letter, line end, space and tab.
func Verif_C10_unIndent() {
	s := Str(6+2*Tier(), "a\n \t")
	r := UnIndent(s)
	Assert(String(s).UnIndent() == String(r), "the method agrees")
	lines, results := splitAll(s, '\n'), splitAll(r, '\n')
	Assert(len(lines) == len(results), "the number of lines is kept")
	first := -1
	for i := range lines {
		if !isBlank(lines[i]) {
			first = i
			break
		}
	}
	if first < 0 || len(lines) == 1 {
		Assert(r == s, "nothing to remove")
		return
	}
	n := 0
	for lines[first][n] == ' ' || lines[first][n] == '\t' {
		n++
	}
	common := lines[first][:n]
	shared := true
	for i := range lines {
		shared = shared && (isBlank(lines[i]) || strings.HasPrefix(lines[i], common))
	}
	if !shared {
		Assert(r == s, "text without common indentation is left unchanged")
		return
	}
	for i := range lines {
		if isBlank(lines[i]) {
			Assert(isBlank(results[i]) && strings.HasSuffix(lines[i], results[i]), "blank lines stay blank")
		} else {
			Assert(results[i] == lines[i][n:], "exactly the common indentation is removed")
		}
	}
	Reach("end")
}

// Text of 0..6 (quick) or 0..9 (thorough) arbitrary characters among letter, line end and carriage return.
func Verif_C10_lines() {
	s := Str(6+3*Tier(), "a\n\r")
	lines := SplitLines(s)
	joined := JoinLines(lines...)
	Assert(joined == s || joined+"\n" == s, "splitting and joining lines loses nothing")
	for i := range lines {
		l, ok := lines[i].(string)
		Assert(ok && !strings.Contains(l, "\n"), "a line contains no line end")
	}
	all := String(s).Lines()
	Assert(all.Join("\n") == String(s), "joining the lines gives the text")
	for i := range all {
		Assert(!strings.Contains(string(all[i]), "\n"), "a line has no line end")
	}
	Assert(len(lines) == len(all) || len(lines) == len(all)-1, "both give the same lines")
	for i := range lines {
		Assert(lines[i].(string) == string(all[i]), "both give the same text")
	}
	Assert(String("-").Join(lines...) == String(strings.Join(all[:len(lines)].Strings(), "-")), "join keeps the order")
	Reach("end")
}

// Text of 0..5 (quick) or 0..7 (thorough) arbitrary characters among three, separators of 1 or 2 characters.
func Verif_C10_split2() {
	s := Str(5+2*Tier(), "=a,")
	sep := StrN(1+Choose(2), "=,")
	left, right := Split2(s, sep)
	if i := strings.Index(s, sep); i >= 0 {
		Assert(left+sep+right == s, "both sides and the separator give the text")
		Assert(len(left) == i, "the split is at the first separator")
	} else {
		Assert(left == s && right == "", "no separator")
	}
	Reach("end")
}

// Arrays of 0..2 texts of 0..2 arbitrary characters.
func Verif_C10_arrays() {
	n := Choose(3)
	a := make(StringArray, n)
	for i := range a {
		a[i] = String(Str(2, "a \n"))
	}
	before := append(StringArray{}, a...)
	indented, indentedN, un, wrapped := a.Indent("--"), a.IndentN(2), a.UnIndent(), a.Wrap(1)
	Assert(len(indented) == n && len(indentedN) == n && len(un) == n && len(wrapped) == n, "one result for each text")
	for i := range a {
		Assert(a[i] == before[i], "the array is unchanged")
		Assert(indented[i] == a[i].Indent("--"), "indent")
		Assert(indentedN[i] == a[i].IndentN(2), "indentN")
		Assert(un[i] == a[i].UnIndent(), "unindent")
		Assert(wrapped[i] == a[i].Wrap(1), "wrap")
	}
	Reach("end")
}
