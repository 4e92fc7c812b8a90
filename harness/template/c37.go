package template

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C37_sources", Verif_C37_sources)
	Register("Verif_C37_context", Verif_C37_context)
	Register("Verif_C37_caller", Verif_C37_caller)
	Register("Verif_C37_argument", Verif_C37_argument)
	Register("Verif_C37_failures", Verif_C37_failures)
	Register("Verif_C37_nested", Verif_C37_nested)
	Register("Verif_C37_razor", Verif_C37_razor)
	Register("Verif_C37_ellipsis", Verif_C37_ellipsis)
}

// including37 is a template that may include others, whose folder is work/sub.
func including37(context map[string]any_) (t *Template, folder string) {
	root := Scratch()
	folder = path.Join(root, "work/sub")
	Assume(os.MkdirAll(folder, 0755) == nil && os.Chdir(path.Join(root, "work")) == nil)
	options := DefaultOptions()
	for _, o := range []Options{Sprig, Net, OS, Git, Logging, Extension} {
		options[o] = false
	}
	t, err := NewTemplate(path.Join(root, "work"), collections.AsDictionary(context), "", options)
	Assert(err == nil, "the template is created")
	return t, folder
}

func included37(t *Template, code string) (string, error) {
	var result string
	var err error
	Assert(!Catch(func() { result, err = t.ProcessContent(code, "sub/a.gt") }), "no panic")
	Observe("result", result)
	Observe("failed", err != nil)
	return result, err
}

// What is included: a template, a file of the folder of the caller (relative or full path) and code, with the same or with distinct names, by every function, with 0 to 2 arguments;
// a result that is the same as the name.
func Verif_C37_sources() {
	value := Str(2, "a {<\n")
	t, folder := including37(map[string]any_{"v": value})
	named, file := Choose(2) == 1, Choose(2) == 1
	name := "x"
	prelude, body := "", `{{ range .ARGS }}[{{ . }}]{{ end }}`
	if named {
		prelude = `{{ define "x" }}T` + body + `{{ end }}`
	}
	if file {
		PutFile(path.Join(folder, "x"), "F"+strings.ReplaceAll(body, "range .ARGS", "range $a := .ARGS"), 0644)
	}
	source := `"x"`
	args, want := "", ""
	for i, n := 0, Choose(3); i < n; i++ {
		args, want = args+" .v", want+"["+value+"]"
	}
	switch Choose(4) {
	case 0:
		Assume(named || file)
		if named {
			want = "T" + want
		} else {
			want = "F" + want
		}
	case 1:
		Assume(file)
		source, want = fmt.Sprintf("%q", path.Join(folder, name)), "F"+want
	case 2:
		source, want = "`C"+body+"`", "C"+want
	case 3:
		prelude, source, want = `{{ define "same" }}{{ "same" }}{{ end }}`, `"same"`, "same"
	}
	f := []string{"include", "eval"}[Choose(2)]
	before := Tree(path.Dir(folder))
	result, err := included37(t, prelude+"{{ "+f+" "+source+args+" }}")
	Assert(err == nil, "the source is found")
	Assert(result == want, "a template is preferred to a file, and a file to the code")
	Assert(SameFiles(before, Tree(path.Dir(folder))), "nothing is modified")
	Reach("end")
}

// The context of what is included: the names of the dictionary given (any subset of 2, possibly shadowing the variables and constants of the caller), the variables and constants
// of the caller, directly and through _, ARGS for the other arguments.
func Verif_C37_context() {
	a, b := "A"+Str(1, "1{"), "B"+StrN(1, "1<")
	t, _ := including37(map[string]any_{"a": a, "m": map[string]any_{"k": b}})
	code := "{{ ._.a }};{{ ._.m.k }};{{ .a }};{{ .m.k }};{{ .NL }};{{ .c }}"
	want := []string{a, b, a, b, "\n", "<no value>"}
	t.options[AcceptNoValue] = true
	args := ""
	switch Choose(4) {
	case 0:
		code, want = code+";{{ len .ARGS }}", append(want, "0")
	case 1:
		code, want, args = code+";{{ index .ARGS 0 }}", append(want, "1"), " 1"
	case 2:
		code, want, args = code+";{{ index .ARGS 1 }}", append(want, b), " 1 .m.k"
	case 3:
		args = " (dict"
		for i, name := range []string{"a", "NL", "c"} {
			if Choose(2) == 1 {
				v := "N" + StrN(1, "x{")
				args += fmt.Sprintf(" %q %q", name, v)
				want[[]int{2, 4, 5}[i]] = v
			}
		}
		args += ")"
	}
	result, err := included37(t, `{{ define "x" }}`+code+"{{ end }}{{ include \"x\""+args+" }}")
	Assert(err == nil, "the template is rendered")
	Assert(result == strings.Join(want, ";"), "the names are those of the argument, then those of the caller")
	Reach("end")
}

// The caller keeps its own context after an inclusion that succeeds or that fails (the failure being ignored by the caller), whatever the arguments.
func Verif_C37_caller() {
	a := "A" + Str(1, "1{<")
	t, _ := including37(map[string]any_{"a": a})
	args := []string{"", " 1", " 1 2", ` (dict "a" 1)`, ` (dict "z" 1)`, " .a"}[Choose(6)]
	body := []string{"ok", "{{ .missing.k }}", `{{ raise "x" }}`, "{{ set . \"z\" 1 }}"}[Choose(4)]
	before := t.Context().Clone()
	result, err := included37(t, `{{ define "x" }}`+body+`{{ end }}{{ .a }};{{ $r := "" }}{{ if true }}{{ $r = include "x"`+args+` }}{{ end }};{{ .a }};{{ get . "z" "-" }}`)
	if err == nil {
		Assert(result == a+";;"+a+";-", "the caller keeps its own context")
	}
	Assert(Eq(t.Context().AsMap(), before.AsMap()), "the context of the template is restored")
	result, err = included37(t, "{{ .a }};{{ get . \"z\" \"-\" }};{{ get . \"ARGS\" \"-\" }};{{ get . \"_\" \"-\" }}")
	Assert(err == nil && result == a+";-;-;-", "the next rendering has its own context")
	Reach("end")
}

// The dictionary given to an inclusion (0 to 2 values), alone or with another argument, still holds what the caller put in it and only that.
func Verif_C37_argument() {
	t, _ := including37(map[string]any_{"a": "A"})
	n := Choose(3)
	d := `(dict`
	want := ""
	for i := 0; i < n; i++ {
		name := string("xy"[i])
		d += fmt.Sprintf(" %q %d", name, i)
		want += name + " "
	}
	body := []string{"ok", "{{ .a }}"}[Choose(2)]
	more := []string{"", " 1"}[Choose(2)]
	result, err := included37(t, `{{ define "t" }}`+body+`{{ end }}{{ $d := `+d+`) }}{{ $r := include "t" $d`+more+` }}{{ range keys $d }}{{ . }} {{ end }};{{ get $d "x" "-" }}{{ get $d "y" "-" }}`)
	Assert(err == nil, "the template is rendered")
	names, values, _ := strings.Cut(result, ";")
	Assert(values == []string{"--", "0-", "01"}[n], "the argument keeps its values")
	for _, name := range strings.Fields(names) {
		Assert(strings.Contains("|"+strings.ReplaceAll(want, " ", "|")+"CR|Math|NEWLINE|NL|_|a|false|null|true|", "|"+name+"|"), "nothing but the names of the caller comes in the argument")
	}
	Assert(names == want, "the argument is unchanged")
	Reach("end")
}

// What cannot be found, parsed, executed, or gives no value is an error.
func Verif_C37_failures() {
	t, folder := including37(map[string]any_{"a": "A"})
	PutFile(path.Join(folder, "bad"), "{{ if }}", 0644)
	PutFile(path.Join(folder, "f"), "{{ .a }}", 0644)
	source := []string{`""`, `"missing"`, `"bad"`, "`{{ undefinedFunction }}`", "`{{ raise \"x\" }}`", "`a {{ .missing }}`", "`{{ .missing }}`", `"missing/f"`, `"../f"`}[Choose(9)]
	args := []string{"", " 1", ` (dict "a" 1)`}[Choose(3)]
	_, err := included37(t, "{{ include "+source+args+" }}")
	Assert(err != nil, "the failure is reported")
	result, err := included37(t, `{{ include "f" }}`)
	Assert(err == nil && result == "A", "the template is still usable")
	Reach("end")
}

// Razor is applied once to what is included, whether it refers to the variables of the caller or not: a file or code held by a variable, containing protected and unprotected expressions.
func Verif_C37_razor() {
	a := Str(1, "1{@x")
	contents := [][2]string{{"@@x", "@x"}, {"@@(1)", "@(1)"}, {"b@@c.d", "b@c.d"}, {"@(1 + 1)", "2"}, {"{{ .n }}@@{n}", "N@{n}"}, {"@.n", "N"}, {"@@@@x", "@@x"}}
	content := contents[Choose(len(contents))]
	code, want := content[0], content[1]
	for i := Choose(3); i > 0; i-- {
		code, want = code+" {{ .a }}", want+" "+a
	}
	t, folder := including37(map[string]any_{"a": a, "code": code, "n": "N"})
	PutFile(path.Join(folder, "f"), code, 0644)
	source := []string{`"f"`, ".code"}[Choose(2)]
	args := []string{"", " 1", ` (dict "n" "N")`}[Choose(3)]
	result, err := included37(t, "{{ include "+source+args+" }}")
	Assert(err == nil, "the template is rendered")
	Assert(result == want, "razor is applied once")
	Reach("end")
}

// Inclusions within inclusions, up to 3 levels, of templates, files and code, each adding an argument and using a variable of the caller before what it includes, after it or not at all.
func Verif_C37_nested() {
	a := Str(1, "a{<")
	t, folder := including37(map[string]any_{"a": a})
	depth := 1 + Choose(3)
	levels := make([]int, depth+1)
	for i := 1; i <= depth; i++ {
		levels[i] = Choose(3)
	}
	prelude, want := "", ""
	source := ""
	for i := depth; i > 0; i-- {
		name := fmt.Sprint("level", i)
		body := fmt.Sprintf("(%d{{ .n }}", i)
		if levels[i] == 0 {
			body += "{{ .a }}"
		}
		if source != "" {
			body += fmt.Sprintf(`{{ include %s (dict "n" %d) }}`, source, 10*(i+1))
		}
		if levels[i] == 1 {
			body += "{{ .a }}"
		}
		body += "{{ .n }})"
		source = fmt.Sprintf("%q", name)
		switch Choose(2 + Tier()) {
		case 0:
			prelude += fmt.Sprintf("{{ define %q }}%s{{ end }}", name, body)
		case 1:
			PutFile(path.Join(folder, name), body, 0644)
		case 2:
			source = fmt.Sprintf("%q", body)
		}
	}
	for i := depth; i > 0; i-- {
		switch levels[i] {
		case 0:
			want = a + want
		case 1:
			want += a
		}
		want = fmt.Sprintf("(%d%d%s%d)", i, 10*i, want, 10*i)
	}
	result, err := included37(t, prelude+"{{ include "+source+` (dict "n" 10) }}{{ .a }}`)
	Assert(err == nil && result == want+a, "each level has its own arguments and the variables of its callers")
	Reach("end")
}

// ellipsis of functions with up to 1 argument before a list of up to 3 values.
func Verif_C37_ellipsis() {
	n := Choose(4)
	values := make([]any_, n)
	for i := range values {
		values[i] = 10*i + Choose(2)
	}
	t, _ := including37(map[string]any_{"l": values, "p": 100})
	total := 0
	for _, v := range values {
		total += v.(int)
	}
	call, first := `ellipsis "print" .l`, Choose(3)
	switch first {
	case 0:
		Assume(n > 0)
		call = `ellipsis "add" .l`
		Assume(n > 1)
	case 1:
		Assume(n > 0)
		call, total = `ellipsis "add" .p .l`, total+100
	case 2:
		call = `len (ellipsis "list" .l)`
		total = n
	}
	result, err := included37(t, "{{ "+call+" }}")
	Assert(err == nil, "the function is called")
	Assert(result == fmt.Sprint(total), "the function gets the values of the list as arguments")
	Reach("end")
}
