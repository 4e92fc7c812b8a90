package template

import (
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C25_lines", Verif_C25_lines)
	Register("Verif_C25_text", Verif_C25_text)
	Register("Verif_C25_razor", Verif_C25_razor)
	Register("Verif_C25_covered", Verif_C25_covered)
	Register("Verif_C25_delimiters", Verif_C25_delimiters)
}

type line25 struct{ text, razorPaused, rendered string }

var lines25 = []line25{
	{"# gotemplate-pause!", "", ""},
	{"# gotemplate-resume!", "", ""},
	{"# razor-pause!", "", ""},
	{"# razor-resume!", "", ""},
	{"a={{ .x }} b=@x, c", "a=1 b=@x, c", "a=1 b=1, c"},
	{"{{ .x }}@{v}.{{/* c */}}", "1@{v}.", "1V."},
	{"@(x), gotemplate-pause! {{ .x }}", "", ""},
	{"@x, razor-resume! {{ .x }} gotemplate-resume!", "@x, razor-resume! 1 gotemplate-resume!", "1, razor-resume! 1 gotemplate-resume!"},
	{"plain", "plain", "plain"},
}

// pausable tells how a document made of these lines is rendered.
func pausable(lines []line25) string {
	template, razor := true, true
	var result []string
	for _, l := range lines {
		switch {
		case strings.Contains(l.text, "gotemplate-pause!"):
			template = false
		case strings.Contains(l.text, "gotemplate-resume!"):
			template = true
		}
		switch {
		case strings.Contains(l.text, "razor-pause!"):
			razor = false
		case strings.Contains(l.text, "razor-resume!"):
			razor = true
		}
		switch {
		case !template || l.rendered == "":
			result = append(result, l.text)
		case !razor:
			result = append(result, l.razorPaused)
		default:
			result = append(result, l.rendered)
		}
	}
	return strings.Join(result, "\n")
}

func document(lines []line25) (result string) {
	for i, l := range lines {
		if i > 0 {
			result += "\n"
		}
		result += l.text
	}
	return
}

func template25(delimiters string) *Template {
	t, err := NewTemplate("/tmp", collections.AsDictionary(map[string]any_{"x": 1}), delimiters, OptionsSet{Razor: true})
	Assert(err == nil, "a template is created")
	return t
}

func pausing(t *Template, content, want string) {
	result, changed, err := processed(t, content, "a.gt")
	Observe("want", want)
	Assert(err == nil, "the document is rendered")
	Assert(result == want, "paused sections are emitted as written and the others are rendered")
	Assert(changed == (want != content), "a change is reported")
}

const prelude25 = "@{v} := \"V\"\n"

// Documents of 4 (quick) or 5 lines of any kind: pause and resume markers (alone or with delimiters on the line), lines with
// template and razor code, text.
func Verif_C25_lines() {
	plainTemplate(nil)
	var lines []line25
	for i := 0; i < 4+Tier(); i++ {
		lines = append(lines, lines25[Choose(len(lines25))])
	}
	t := template25("")
	pausing(t, prelude25+document(lines), "\n"+pausable(lines))
	Reach("end")
}

// Every text of up to 4 (quick) or 5 arbitrary characters in a section where the templating is paused, with code after.
func Verif_C25_text() {
	plainTemplate(nil)
	text := Str(4+Tier(), "a{}@\n\"$x-")
	content := "{{ .x }}\n# gotemplate-pause!\n" + text + "\n# gotemplate-resume!\n@x,"
	want := "1\n# gotemplate-pause!\n" + text + "\n# gotemplate-resume!\n1,"
	pausing(template25(""), content, want)
	Reach("end")
}

// Every text of up to 3 (quick) or 4 arbitrary characters in a section where razor is paused, with code before, within and
// after.
func Verif_C25_razor() {
	plainTemplate(nil)
	text := Str(3+Tier(), "a}@\n\"$x-(;")
	content := "@x,\n# razor-pause!\n@" + text + "{{ .x }}" + text + "\n# razor-resume!\n@x,"
	want := "1,\n# razor-pause!\n@" + text + "1" + text + "\n# razor-resume!\n1,"
	pausing(template25(""), content, want)
	Reach("end")
}

// Every document whose delimiters are all in paused sections (text of up to 2 arbitrary characters in two sections and between
// them), with the rendering enabled or not: it is rendered to itself.
func Verif_C25_covered() {
	plainTemplate(nil)
	section := func() string { return "# gotemplate-pause!\n" + Str(2+Tier(), "a{}@\n") + "\ngotemplate-resume!\n" }
	content := section() + Str(2, "a{}\n$")
	Assume(!strings.Contains(content[strings.Index(content, "resume!"):], "{{") && !strings.Contains(content[strings.Index(content, "resume!"):], "}}"))
	content += section()
	t := template25("")
	if Choose(2) == 1 {
		t.options[RenderingDisabled] = true
	}
	pausing(t, content, content)
	Reach("end")
}

// Documents of 3 lines of any kind with other delimiters.
func Verif_C25_delimiters() {
	plainTemplate(nil)
	delimiters := [][]string{{"<<", ">>", "&"}, {"[[", "]]", "§"}, {"<%", "%>", ""}}[Choose(3)]
	convert := func(s string) string {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "{{", delimiters[0]), "}}", delimiters[1])
		if delimiters[2] != "" {
			s = strings.ReplaceAll(s, "@", delimiters[2])
		}
		return s
	}
	var lines []line25
	for i := 0; i < 3+Tier(); i++ {
		lines = append(lines, lines25[Choose(len(lines25))])
	}
	pausing(template25(strings.Join(delimiters, ",")), convert(prelude25+document(lines)), "\n"+convert(pausable(lines)))
	Reach("end")
}
