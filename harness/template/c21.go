package template

import (
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C21_before", Verif_C21_before)
	Register("Verif_C21_after", Verif_C21_after)
	Register("Verif_C21_between", Verif_C21_between)
	Register("Verif_C21_email", Verif_C21_email)
	Register("Verif_C21_plain", Verif_C21_plain)
	Register("Verif_C21_disabled", Verif_C21_disabled)
	Register("Verif_C21_ignored", Verif_C21_ignored)
	Register("Verif_C21_words", Verif_C21_words)
	Register("Verif_C21_ignored_delimiter", Verif_C21_ignored_delimiter)
}

type construct struct {
	text, want string
	follow     string // Characters that can follow the construct without being a part of it
}

var constructs = []construct{
	{"@x", "X", "\n,)]}'\"/<>?|$"},
	{"@x;", "X", ""},
	{"@{v}", "V", ""},
	{"@(x)", "X", "a\n,)].}'\"/<>?|$(-"},
	{"@.x", "X", "\n,)]}'\"/<>?|$"},
	{"@$v", "V", "\n,)]}'\"/<>?|"},
	{"@id(x)", "X", "a\n,)]}'\"/<>?|$-"},
	{"@o.p", "P", "\n,)]}'\""},
	{"@(add(1, 2))", "3", "a\n,)].}'\"/<>?|$(-"},
	{"@@", "@", ""},
}

func template21(delimiters ...string) *Template {
	t := plainTemplate(collections.AsDictionary(map[string]any_{"x": "X", "o": map[string]any_{"p": "P"}}), delimiters...)
	t.AddFunctions(dictionary{"id": func(v any_) any_ { return v }, "add": mathBaseFuncs["add"]}, "test", nil)
	return t
}

const prelude21 = "@{v} := \"V\"\n"

func surrounded(t *Template, content, want string) {
	result, err := t.ProcessContent(prelude21+content, "a.gt")
	Observe("content", content)
	Observe("result", result)
	Assert(err == nil, "the document is rendered")
	Assert(result == "\n"+want, "the text around the expressions is left as is")
}

// before is text that can precede an expression: neither template code, nor the start of a comment, nor the user part of an
// e-mail address for an expression that could be its domain.
func before(c construct, max int) string {
	p := Str(max, "a $\"<`{}=.;\n-/(")
	Assume(!strings.Contains(p, "{{") && !strings.Contains(p, "}}") && !strings.Contains(p, "///") && !strings.Contains(p, "<<"))
	if strings.HasPrefix(c.text, "@o.") && p != "" {
		Assume(strings.Contains(" \"<`(;\n", p[len(p)-1:]))
	}
	return p
}

// after is text that can follow a construct.
func after(c construct, max int) string {
	s := Str(max, "a \"<>{}.,;\n-/([@x")
	if c.follow != "" && s != "" {
		Assume(strings.Contains(c.follow, s[:1]))
	}
	if c.follow == "" {
		Assume(s == "" || s[0] != ';' && s[0] != ' ')
	}
	Assume(!strings.Contains(s, "{{") && !strings.Contains(s, "}}") && !strings.Contains(s, "@"))
	return s
}

// Every text of up to 2 (quick) or 3 arbitrary characters before each kind of expression.
func Verif_C21_before() {
	c := constructs[Choose(len(constructs))]
	p := before(c, 2+Tier())
	surrounded(template21(), p+c.text, p+c.want)
	Reach("end")
}

// Every text of up to 3 (quick) or 4 arbitrary characters after each kind of expression, not being a part of it.
func Verif_C21_after() {
	c := constructs[Choose(len(constructs))]
	s := after(c, 3+Tier())
	surrounded(template21(), c.text+s, c.want+s)
	Reach("end")
}

// An expression of every kind and an expression of 3 (quick) or 5 kinds with every text of up to 1 (quick) or 2 arbitrary characters before, between and after.
func Verif_C21_between() {
	c1, c2 := constructs[Choose(len(constructs))], constructs[Choose(3+2*Tier())]
	p, s := "", ""
	m := after(c1, 1+Tier())
	if Choose(2) == 0 {
		p = before(c1, 1+Tier())
	} else {
		s = after(c2, 1+Tier())
	}
	Assume(c1.text != "@@" || m != "")
	if strings.HasPrefix(c2.text, "@o.") {
		Assume(m != "" && strings.Contains(" \"<`(;\n", m[len(m)-1:]))
	}
	surrounded(template21(), p+c1.text+m+c2.text+s, p+c1.want+m+c2.want+s)
	Reach("end")
}

// Every e-mail address of the form user@host.domain with up to 2 characters per part, with text around.
func Verif_C21_email() {
	email := "u" + Str(1, "aZ0._-+!%") + "@" + StrN(1, "b0-_") + Str(1, "bx") + "." + StrN(1, "c9-") + Str(1, "cx.")
	Assume(!strings.HasSuffix(email, "."))
	p, s := Str(1, "a <\"(\n:,;{"), Str(1, "> \"\n:,;)}!")
	other := []string{"", " @x,", " e@f.gh"}[Choose(3)]
	want := strings.Replace(other, "@x", "X", 1)
	surrounded(template21(), p+email+s+other, p+email+s+want)
	Reach("end")
}

// Every text of up to 5 characters without delimiter.
func Verif_C21_plain() {
	p := Str(5, "a{}$`\"\n/*-")
	t := template21()
	razor, changed := t.applyRazor([]byte(p))
	Assert(string(razor) == p && !changed, "text without delimiter is left as is")
	Reach("end")
}

// Every kind of expression with text around and an opt-out marker before or after, or with the option disabled.
func Verif_C21_disabled() {
	c := constructs[Choose(len(constructs))]
	content := before(c, 1) + c.text + after(c, 2)
	t := template21()
	switch Choose(4) {
	case 0:
		content += "no-razor!"
	case 1:
		content = "// no-razor!\n" + content
	case 2:
		content += "no-gotemplate!"
	case 3:
		t.options[Razor] = false
	}
	result, err := t.ProcessContent(content, "a.gt")
	Observe("content", content)
	Observe("result", result)
	Assert(err == nil && result == content, "the text is left as is")
	Reach("end")
}

// Expressions to ignore (a name, a pattern) with text of up to 1 (quick) or 2 characters before and 2 after.
func Verif_C21_ignored() {
	t := template21()
	t.IgnoreRazorExpression("media", "im\\w*", "k.+")
	p := before(constructs[0], 1+Tier())
	name := []string{"@media", "@import", "@im", "@key"}[Choose(4)]
	s := Str(2, " (\n\",;<.")
	surrounded(t, p+name+s+"\n@x,", p+name+s+"\nX,")
	Reach("end")
}

// Expressions to ignore with the razor delimiters #, ?, +, $ and **, with text of up to 1 (quick) or 2 characters after.
func Verif_C21_ignored_delimiter() {
	d := []string{"#", "?", "+", "$", "**"}[Choose(5)]
	t := plainTemplate(collections.AsDictionary(map[string]any_{"x": "X"}), "", "", d)
	t.IgnoreRazorExpression("media", "im\\w*")
	name := []string{"media", "import", "im"}[Choose(3)]
	s := Str(1+Tier(), " (\n\",;<.")
	text := "a " + d + name + s + "\nb"
	result, err := t.ProcessContent(text, "a.gt")
	Observe("result", result)
	Assert(err == nil, "the document is rendered")
	Assert(result == text, "an expression to ignore is left as is")
}

// Each kind of expression, also selecting fields with digits and indexed values, followed by a word then every text of up to 2 characters
// (quick), with text of up to 1 character before (thorough).
func Verif_C21_words() {
	t := plainTemplate(collections.AsDictionary(map[string]any_{"x": "X", "o": map[string]any_{"p": "P", "k1": "K", "q2r": "Q", "l": []any_{"1", "2"}}, "l": []any_{"3", "4"}, "m1": "M"}))
	t.AddFunctions(dictionary{"id": func(v any_) any_ { return v }, "add": mathBaseFuncs["add"], "extract": dataFuncsBase["extract"], "slice": dataFuncsBase["slice"]}, "test", nil)
	all := append(constructs[:9:9], construct{"@o.k1", "K", ""}, construct{"@o.q2r", "Q", ""}, construct{"@m1", "M", ""}, construct{"@o.l[1]", "2", ""}, construct{"@l[1]", "4", ""},
		construct{"@(o.l)[0]", "1", ""}, construct{"@.l[0]", "3", ""}, construct{"@id(o).k1", "K", ""})
	c := all[Choose(len(all))]
	p := before(c, Tier())
	s := " a" + Str(2, " b1,.:!?-\"'<>()/[")
	surrounded(t, p+c.text+s, p+c.want+s)
}
