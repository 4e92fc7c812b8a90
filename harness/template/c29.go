package template

import (
	"os"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/utils"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C29_expressions", Verif_C29_expressions)
	Register("Verif_C29_delete", Verif_C29_delete)
	Register("Verif_C29_groups", Verif_C29_groups)
	Register("Verif_C29_order", Verif_C29_order)
	Register("Verif_C29_separator", Verif_C29_separator)
	Register("Verif_C29_malformed", Verif_C29_malformed)
	Register("Verif_C29_template", Verif_C29_template)
}

// atom is an element of the simple expressions: a character, any character (.), a start (^) or an end ($), possibly repeated.
type atom struct {
	kind byte // 'c', '.', '^', '$'
	c    byte
	star bool
}

// atoms parses a simple expression, it fails if it is not one.
func atoms(expr string) (result []atom, ok bool) {
	for i := 0; i < len(expr); i++ {
		a := atom{kind: 'c', c: expr[i]}
		switch expr[i] {
		case '.', '^', '$':
			a.kind = expr[i]
		case '\\':
			i++
			if i == len(expr) || expr[i] != '$' && expr[i] != '\\' && expr[i] != '.' {
				return nil, false
			}
			a.c = expr[i]
		case '*':
			return nil, false
		}
		if i+1 < len(expr) && expr[i+1] == '*' {
			if a.kind == '^' || a.kind == '$' {
				return nil, false
			}
			a.star = true
			i++
		}
		result = append(result, a)
	}
	return result, true
}

// match returns the end of the match of the expression at a position of the text (negative if there is none).
func match(list []atom, text string, pos int, multi bool) int {
	if len(list) == 0 {
		return pos
	}
	a := list[0]
	switch a.kind {
	case '^':
		if pos == 0 || multi && text[pos-1] == '\n' {
			return match(list[1:], text, pos, multi)
		}
		return -1
	case '$':
		if pos == len(text) || multi && text[pos] == '\n' {
			return match(list[1:], text, pos, multi)
		}
		return -1
	}
	one := pos < len(text) && (a.kind == '.' && text[pos] != '\n' || a.kind == 'c' && text[pos] == a.c)
	if a.star {
		if one {
			if end := match(list, text, pos+1, multi); end >= 0 {
				return end
			}
		}
		return match(list[1:], text, pos, multi)
	}
	if !one {
		return -1
	}
	return match(list[1:], text, pos+1, multi)
}

// replaced replaces the matches from left to right, an empty match right after another one being ignored.
func replaced(list []atom, text, by string, multi, lineEnd bool) string {
	result, last := "", -1
	for pos := 0; pos <= len(text); {
		end := match(list, text, pos, multi)
		if end >= 0 && lineEnd && end < len(text) && text[end] == '\n' {
			end++
		}
		if end < 0 || end == pos && pos == last {
			if pos < len(text) {
				result += text[pos : pos+1]
			}
			pos++
			continue
		}
		result += by
		last = end
		if end == pos {
			if pos < len(text) {
				result += text[pos : pos+1]
			}
			pos++
		} else {
			pos = end
		}
	}
	return result
}

func substituted(content string, expressions ...string) (result string, err error) {
	defer func() {
		if rec := recover(); rec != nil {
			err = rec.(error)
		}
	}()
	return utils.Substitute(content, utils.InitReplacers(expressions...)...), nil
}

// Every expression of up to 3 (quick) or 4 characters among literals, escapes, dots, stars and anchors, with every replacement of
// up to 2 plain characters, on every text of up to 4 (quick) or 5 characters.
func Verif_C29_expressions() {
	expr := ConcreteStr(Str(3+Tier(), "ab.*^$\\"))
	list, ok := atoms(expr)
	Assume(ok && expr != "")
	by := Str(2, "axd-")
	Assume(by != "d")
	content := Str(4+Tier(), "ab.$\n")
	result, err := substituted(content, "/"+expr+"/"+by)
	Observe("expr", expr)
	Observe("result", result)
	Assert(err == nil && result == replaced(list, content, by, false, false), "the matches are replaced")
	Reach("end")
}

// Every such expression with the deletion command, with and without a multi-line flag, on every text of up to 4 (quick) or 5 characters.
func Verif_C29_delete() {
	flag := []string{"", "(?m)"}[Choose(2)]
	expr := ConcreteStr(Str(3+Tier(), "ab.*^$\\"))
	list, ok := atoms(expr)
	Assume(ok && expr != "")
	content := Str(4+Tier(), "ab.$\n")
	lines := list[len(list)-1].kind == '$'
	result, err := substituted(content, "/"+flag+expr+"/d")
	Observe("expr", expr)
	Observe("content", content)
	Observe("result", result)
	Assert(err == nil && result == replaced(list, content, "", lines || flag != "", lines), "the matches are deleted")
	Reach("end")
}

// Two groups with every combination of up to 2 references, on every text of up to 4 characters.
func Verif_C29_groups() {
	parts := []string{"$1", "${2}", "$name", "${name}", "x", "$$", "${0}"}
	values := []string{"a", "b", "b", "b", "x", "$", "ab"}
	i, j := Choose(len(parts)), Choose(len(parts))
	if strings.HasPrefix(parts[i], "$") && !strings.HasSuffix(parts[i], "}") && parts[i] != "$$" {
		Assume(parts[j] != "x") // $1x is the group 1x
	}
	content := Str(4, "ab$\n")
	result, err := substituted(content, "/(a)(?P<name>b)/"+parts[i]+parts[j])
	Assert(err == nil && result == strings.Replace(content, "ab", values[i]+values[j], -1), "the references are replaced by the groups")
	Reach("end")
}

// Two (quick) or three substitutions of characters on every text of up to 2 characters.
func Verif_C29_order() {
	n := 2 + Choose(1+Tier())
	expressions, want := make([]string, n), Str(2, "abcd")
	content := want
	for i := range expressions {
		from, to := StrN(1, "abc"), StrN(1, "abcd")
		if Choose(2) == 0 {
			to += StrN(1, "ab")
		}
		expressions[i] = "/" + ConcreteStr(from) + "/" + to
		if to == "d" {
			to = ""
		}
		want = strings.Replace(want, from, to, -1)
	}
	result, err := substituted(content, expressions...)
	Assert(err == nil && result == want, "the substitutions are applied in order")
	Reach("end")
}

// Every printable ASCII character and some others as separator, with blanks around the expression.
func Verif_C29_separator() {
	separator := ConcreteStr(StrN(1, "!\"#$%&'()*+,-./0:;<=>?@AZ[\\]^_`z{|}~"))
	if Choose(8) == 0 {
		separator = []string{"é", "→", "§"}[Choose(3)]
	}
	content := Str(2, "abc")
	by := Str(1, "ax")
	expr := Str(1, " \n") + separator + "b" + separator + by + Str(1, " \n")
	result, err := substituted(content, expr)
	Observe("expr", expr)
	Assert(err == nil && result == strings.Replace(content, "b", by, -1), "any separator can be used")
	Reach("end")
}

// Every expression of up to 5 characters without exactly two separators, without expression or with an invalid one.
func Verif_C29_malformed() {
	expr := ConcreteStr(Str(4, "/ad("))
	trimmed := strings.TrimSpace(expr)
	valid := trimmed != ""
	if valid {
		parts := strings.Split(trimmed, trimmed[:1])
		valid = len(parts) == 3 && parts[1] != "" && !strings.Contains(parts[1], "(")
	}
	options := DefaultOptions()
	t, err := NewTemplate("", collections.CreateDictionary(), "", options, "/x/y", expr)
	Observe("expr", expr)
	if valid {
		Assert(err == nil && t != nil, "a well-formed expression is accepted")
	} else {
		Assert(err != nil && t == nil, "a malformed expression is refused")
	}
	Reach("end")
}

// A text of up to 4 characters rendered by a template with 2 substitutions given as parameters or by the environment, and passed to the function substitute.
func Verif_C29_template() {
	substitutions, fromEnv := []string{"/a/b", "/^c$/d"}, Choose(2) == 0
	if fromEnv {
		os.Setenv(EnvSubstitutes, "/a/b\n/^c$/d")
		defer os.Unsetenv(EnvSubstitutes)
		substitutions = nil
	}
	t, err := NewTemplate("", collections.CreateDictionary(), "", DefaultOptions(), substitutions...)
	Assert(err == nil, "the template is created")
	content := Str(4, "abc\n")
	result, err := t.ProcessContent(content, "x.txt")
	list, _ := atoms("^c$")
	want := replaced(list, strings.Replace(content, "a", "b", -1), "", true, true)
	Observe("content", content)
	Observe("result", result)
	Assert(err == nil && result == want, "the substitutions are applied to the text")
	called := t.substitute(content)
	Assert(called == want, "the function substitute applies the substitutions")
	Reach("end")
}
