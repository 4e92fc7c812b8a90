package template

import (
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	"github.com/coveooss/gotemplate/v3/utils"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C24_plain", Verif_C24_plain)
	Register("Verif_C24_marker", Verif_C24_marker)
	Register("Verif_C24_disabled", Verif_C24_disabled)
	Register("Verif_C24_strict", Verif_C24_strict)
	Register("Verif_C24_failures", Verif_C24_failures)
	Register("Verif_C24_lines", Verif_C24_lines)
	Register("Verif_C24_razor", Verif_C24_razor)
	Register("Verif_C24_original", Verif_C24_original)
}

// pipeline gives a template whose context is {"x": 1, "m": {"k": "v"}} with the functions raise, fail2 and id.
func pipeline(options ...Options) *Template {
	context := collections.AsDictionary(map[string]any_{"x": 1, "m": map[string]any_{"k": "v"}})
	t := plainTemplate(context)
	delete(t.options, Razor)
	for _, option := range options {
		t.options[option] = true
	}
	t.AddFunctions(dictionary{"raise": raise, "id": func(v any_) any_ { return v }}, "test", nil)
	return t
}

// processed calls the rendering of a content.
func processed(t *Template, content, name string) (result string, changed bool, err error) {
	Assert(!Catch(func() { result, changed, err = t.processContentInternal(content, name, nil, 0, true, nil) }), "processing does not panic")
	Observe("content", content)
	Observe("name", name)
	Observe("result", result)
	Observe("changed", changed)
	Observe("error", err != nil)
	return
}

func anyOptions() (options []Options) {
	for _, option := range []Options{Razor, StrictErrorCheck, AcceptNoValue, RenderingDisabled} {
		if Choose(2) == 1 {
			options = append(options, option)
		}
	}
	return
}

// unsubstituted assumes that the lines removed by the standard substitutions are absent.
func unsubstituted(content string) {
	for _, line := range strings.Split(content, "\n") {
		Assume(strings.TrimSpace(line) != "#!")
	}
}

// Every content without delimiter of up to 4 characters, every combination of 4 options.
func Verif_C24_plain() {
	content := Str(4, "a{}#!\n")
	Assume(!strings.Contains(content, "{{") && !strings.Contains(content, "}}"))
	unsubstituted(content)
	t := pipeline(anyOptions()...)
	result, changed, err := processed(t, content, []string{"a.txt", "a.gt", "."}[Choose(3)])
	Assert(err == nil && !changed && result == content, "content without delimiter is returned as is")
	Reach("end")
}

// Every content of up to 2 arbitrary characters before and after the opt-out marker (not an interpreter line), every combination of 4 options.
func Verif_C24_marker() {
	content := Str(2, "a{}@\n#!") + "no-gotemplate!" + Str(2, "a{}@\n#!")
	unsubstituted(content)
	Assume(!strings.HasPrefix(content, "#!"))
	t := pipeline(anyOptions()...)
	result, changed, err := processed(t, content, []string{"a.txt", "a.gt", "."}[Choose(3)])
	Assert(err == nil && !changed && result == content, "content with the opt-out marker is returned as is")
	Reach("end")
}

// Every content of up to 4 characters with delimiters while the rendering is disabled.
func Verif_C24_disabled() {
	content := Str(4, "a{}@\n")
	t := pipeline(RenderingDisabled)
	result, changed, err := processed(t, content, "a.gt")
	Assert(err == nil && !changed && result == content, "content is returned as is when the rendering is disabled")
	Reach("end")
}

// Every name with an extension of up to 3 (quick) or 4 arbitrary characters, or a template extension, each source of strictness:
// a failure is an error when it is requested and leaves the content as is otherwise.
func Verif_C24_strict() {
	content := []string{"{{ raise \"e\" }}", "{{ index 1 2 }}", "{{ if", "{{ $y }}", "{{ .x }}{{ .y }}"}[Choose(5)]
	name, template := "a", false
	switch Choose(3) {
	case 0:
		ext := Str(3+Tier(), ".gte")
		name += ext
		template = strings.HasSuffix(ext, ".gt") || strings.HasSuffix(ext, ".gte")
	case 1:
		name += []string{".template", ".templates", "template", ".emplate", ".gt.template", ".template.txt", ".gt.txt", ",.gte"}[Choose(8)]
		template = strings.HasSuffix(name, ".template") || strings.HasSuffix(name, ".gte")
	case 2:
		name = "d.gt/" + name + []string{"", ".gt", ".txt"}[Choose(3)]
		template = strings.HasSuffix(name, "a.gt")
	}
	strict := Choose(3)
	t := pipeline()
	switch strict {
	case 1:
		t.options[StrictErrorCheck] = true
	case 2:
		content = "# force-gotemplate!\n" + content
	}
	result, changed, err := processed(t, content, name)
	if template || strict > 0 {
		Assert(err != nil, "failures are errors in strict mode")
		Reach("strict")
	} else {
		Assert(err == nil && !changed && result == content, "failures leave the content as is")
		Reach("ignored")
	}
}

// A failure that is ignored (4 kinds) in a document with up to 2 (3) characters before and what is changed before the rendering: a substitution, a line of substitution mark, an interpreter line, paused
// razor and code, an existing no value, a razor expression: the document is left exactly as is.
func Verif_C24_original() {
	failure := []string{"{{ raise \"e\" }}", "{{ if", "{{ $y }}", "@raise(1)"}[Choose(4)]
	lines := []string{"q", "#!", "#! /usr/bin/env gotemplate", "// gotemplate-pause! {{ a }} @b\n@c {{ gotemplate-resume!", "// razor-pause! @b", "<no value> <nil>", "@x @(1) a@b.cd"}
	content := Str(2+Tier(), "q \n") + lines[Choose(len(lines))] + "\n" + failure + "\n"
	t := pipeline(Razor)
	t.substitutes = append(t.substitutes, utils.InitReplacers("/q/z")...)
	result, changed, err := processed(t, content, "a.txt")
	if strings.Contains(content, "razor-pause!") && failure[0] == '@' {
		Assert(err == nil, "razor is paused")
		Reach("paused")
		return
	}
	Assert(err == nil && !changed && result == content, "failures leave the document exactly as is")
	Reach("ignored")
}

// Every action of up to 3 (quick) or 4 arbitrary characters, with text around it: it is either rendered the same way whether
// the mode is strict or not, or is an error in strict mode and left as is otherwise.
func Verif_C24_failures() {
	content := []string{"", "a\n"}[Choose(2)] + "{{" + Str(3+Tier(), " .$x\"(|-}") + []string{"}}", "", "}}\n{{ end }}", " }} {{ raise \"e\" }}"}[Choose(4)]
	differential(content)
}

// Every razor expression of up to 3 (quick) or 4 arbitrary characters, alone, within parentheses or braces or as an assignment.
func Verif_C24_razor() {
	code := Str(3+Tier(), "x.(+\"$ )[;")
	differential([]string{"a\n@" + code, "@(" + code + ")\n", "@{" + code + "}", "@x = " + code}[Choose(4)], Razor)
}

func differential(content string, options ...Options) {
	t := pipeline(options...)
	result, changed, err := processed(t, content, "a.txt")
	t.options[StrictErrorCheck] = true
	result2, changed2, err2 := processed(t, content, "a.txt")
	Assert(err == nil, "failures are not errors")
	if err2 != nil {
		Assert(!changed && result == content, "failures leave the content as is")
		Reach("failure")
	} else {
		Assert(changed == changed2 && result == result2, "the mode does not alter the rendering")
		Assert(changed == (result != content), "a rendering that differs is reported")
		Reach("success")
	}
}

// Documents of 3 lines of any kind (text, valid and invalid actions, actions over several lines, error markers).
func Verif_C24_lines() {
	lines := []string{"text", "{{ .x }}", "{{", "raise \"e\" }}", "{{ raise \"e\" }}", "\"<RUN_ERROR>\" {{ raise \"e\" }}", "{{ index 1 2 }} {{ index \"<RUN_ERROR>\" 1 2 }}",
		"{{ if .x }}", "{{ end }}", "contains undefined value(s) {{ end }}", "{{ $y }} {{ $y }}", "{{ .y }}", "<no value>", "}}", "{{ id \"<no value>\" }}",
		"{{ define \"t\" }}", "{{ template \"t\" }}", "{{ .x.y }}", "\"<UNDEF $y>\""}
	content := ""
	for i := 0; i < 2+Tier(); i++ {
		content += lines[Choose(len(lines))] + "\n"
	}
	differential(content + lines[Choose(len(lines))])
}
