package template

import (
	"fmt"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C32_render", Verif_C32_render)
	Register("Verif_C32_functions", Verif_C32_functions)
	Register("Verif_C32_delimiters", Verif_C32_delimiters)
	Register("Verif_C32_context", Verif_C32_context)
	Register("Verif_C32_three", Verif_C32_three)
}

// outcome is what a rendering gives.
type outcome struct {
	result string
	failed string
}

// rendering creates a template and renders a content with it.
func rendering(content string, x any_, delimiters string, options OptionsSet) (o outcome) {
	t, err := NewTemplate("/tmp", map[string]any_{"x": x}, delimiters, options)
	if err != nil {
		o.failed = err.Error()
		return
	}
	o.result, err = t.ProcessContent(content, "file")
	if err != nil {
		o.failed = err.Error()
	}
	return
}

// contents32 lists contents with their result alone (%v stands for x), or the error given.
var contents32 = []struct{ content, result, failed string }{
	{"{{ .x }}", "%v", ""},
	{"@x", "%v", ""},
	{"`a\nb` @(x) `c\nd`", "`a\nb` %v `c\nd`", ""},
	{"u@v.w @@ @x", "u@v.w @ %v", ""},
	{"@y := x\n@{y}", "ERROR function \"set\" not defined\n<UNDEF $y>", "function \"set\" not defined"},
	{"{{ raise .x }}", "ERROR function \"raise\" not defined", "function \"raise\" not defined"},
	{"{{ .x", "ERROR unclosed action", "unclosed action"},
	{"text", "text", ""},
}

// asAlone tells if an outcome is the one a rendering gives alone.
func asAlone(o outcome, content, result, failed string, x any_, strict bool) bool {
	if failed != "" && !strict {
		return o.result == content && o.failed == ""
	}
	return o.result == strings.ReplaceAll(result, "%v", fmt.Sprint(x)) && strings.Contains(o.failed, failed) && (failed == "") == (o.failed == "")
}

// Two templates created and rendered concurrently, each with any of 8 contents (template and razor code, text over several lines
// between back quotes, e-mail, assignment, failures), strict or not, with its own context: same results as alone.
func Verif_C32_render() {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	a, b := contents32[Choose(len(contents32))], contents32[Choose(len(contents32))]
	strict := Choose(2) == 1
	options := func() OptionsSet { return OptionsSet{Razor: true, StrictErrorCheck: strict} }
	var r [2]outcome
	Parallel(
		func() { r[0] = rendering(a.content, "first", "", options()) },
		func() { r[1] = rendering(b.content, 2, "", options()) },
	)
	Observe("first", r[0].result)
	Assert(asAlone(r[0], a.content, a.result, a.failed, "first", strict), "the first rendering is not affected by the other")
	Assert(asAlone(r[1], b.content, b.result, b.failed, 2, strict), "the second rendering is not affected by the other")
}

var functions32 = []struct{ content, result string }{
	{"{{ add .x 10 }} {{ mul 2 3 }} {{ .Math.Pi | lt 3.0 }}", "1%v 6 true"},
	{"{{ list 1 2 .x | toJson }} {{ dict \"a\" .x | toYaml }}", "[1,2,%v] a: %v\n"},
	{"{{ (data \"{\\\"a\\\": 1}\").a }} {{ (data \"a = 2\").a }}{{ .x }}", "1 2%v"},
	{"{{ func \"f\" \"include\" \"[{{ .x }}]\" (dict \"args\" (list \"x\")) }}{{ .x }}", "%v"},
	{"{{ alias \"g\" \"include\" \"<{{ .x }}>\" . }}{{ .x }}", "%v"},
	{"{{ include \"@x\" }} {{ ellipsis \"add\" (list 1 2) }}", "%v 3"},
	{"{{ set . \"z\" .x }}{{ .z }}{{ undef 1 .missing }}", "%v1"},
	{"{{ functions | len | lt 100 }} {{ aliases | len | lt 10 }} {{ .x }}", "true true %v"},
	{"{{ wrap 3 \"a b c\" }} {{ splitLines \"a\\nb\" | len }}{{ .x }}", "a b\nc 2%v"},
	{"{{ substitute \"abc\" }} {{ indent 2 \"a\" }}{{ .x }}", "abc   a%v"},
}

// Two templates with the builtin functions of most categories created and rendered concurrently, each with any of 10 contents calling
// functions; the threads switch when one is blocked or ends, the solver deciding for the other schedules that no race can occur.
func Verif_C32_functions() {
	Preemptions(0)
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	a, b := functions32[Choose(len(functions32))], functions32[Choose(len(functions32))]
	options := func() OptionsSet {
		o := DefaultOptions()
		for _, k := range []Options{Sprig, Net, OS, Git, Logging, Extension} {
			o[k] = false
		}
		o[StrictErrorCheck] = true
		return o
	}
	var r [2]outcome
	Parallel(
		func() { r[0] = rendering(a.content, 1, "", options()) },
		func() { r[1] = rendering(b.content, 2, "", options()) },
	)
	Observe("first", r[0].result)
	Observe("failed", r[0].failed)
	Assert(asAlone(r[0], a.content, a.result, "", 1, true), "the first rendering is not affected by the other")
	Assert(asAlone(r[1], b.content, b.result, "", 2, true), "the second rendering is not affected by the other")
}

// Two templates with their own delimiters (any pair among 3 sets), ignoring a razor expression, rendered concurrently, with razor and
// template code.
func Verif_C32_delimiters() {
	sets := [][3]string{{"", "{{ .x }} @x @w", "%v %v @w"}, {"[[,]],#", "[[ .x ]] #x #w @x", "%v %v #w @x"}, {"<,>,?", "<.x> ?x ?w {{", "%v %v ?w {{"}}
	rendering := func(content string, x any_, delimiters string) (o outcome) {
		t, err := NewTemplate("/tmp", map[string]any_{"x": x}, delimiters, OptionsSet{Razor: true})
		if err != nil {
			o.failed = err.Error()
			return
		}
		t.IgnoreRazorExpression("w")
		o.result, err = t.ProcessContent(content, "file")
		if err != nil {
			o.failed = err.Error()
		}
		return
	}
	i, j := Choose(3), Choose(3)
	a, b := sets[i], sets[j]
	var r [2]outcome
	Parallel(
		func() { r[0] = rendering(a[1], "first", a[0]) },
		func() { r[1] = rendering(b[1], 2, b[0]) },
	)
	Observe("first", r[0].result)
	Assert(asAlone(r[0], a[1], a[2], "", "first", true), "the first rendering is not affected by the other")
	Assert(asAlone(r[1], b[1], b[2], "", 2, true), "the second rendering is not affected by the other")
}

// Two templates with their own context (a map or a dictionary) holding the same nested map and list, which they only read: same
// results as alone, the shared values are unchanged.
func Verif_C32_context() {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	contents := [][3]string{{"{{ .x }}{{ .m.k }}", "12", "12"}, {"{{ .m.l }}", "[1,\"a\"]", "[1,\"a\"]"}, {"@m.l[0]", "[1,\"a\"]", "[1,\"a\"]"},
		{"{{ range $k, $v := .m }}{{ $k }} {{ end }}", "k l ", "k l "}}
	a, b := contents[Choose(len(contents))], contents[Choose(len(contents))]
	build := func() any_ { return map[string]any_{"l": []any_{1, "a"}, "k": 2} }
	dict := Choose(2) == 1
	value := func() any_ {
		if dict {
			return collections.AsDictionary(build())
		}
		return build()
	}
	render := func(content string, m any_) (o outcome) {
		var context any_ = map[string]any_{"x": 1, "m": m}
		if dict {
			context = json.DictionaryHelper.AsDictionary(context)
		}
		t, err := NewTemplate("/tmp", context, "", OptionsSet{Razor: true})
		Assert(err == nil, "a template is created")
		if o.result, err = t.ProcessContent(content, "file"); err != nil {
			o.failed = err.Error()
		}
		return
	}
	alone := func(o outcome, c [3]string) bool {
		if dict {
			return o == outcome{c[2], ""}
		}
		return o == outcome{c[1], ""}
	}
	var r [2]outcome
	m := value()
	Parallel(
		func() { r[0] = render(a[0], m) },
		func() { r[1] = render(b[0], m) },
	)
	Observe("first", r[0].result)
	Observe("second", r[1].result)
	Assert(alone(r[0], a), "the first rendering is not affected by the other")
	Assert(alone(r[1], b), "the second rendering is not affected by the other")
	Assert(Eq(m, build()), "the shared values are unchanged")
}

// Three templates rendered concurrently, without preemption.
func Verif_C32_three() {
	Preemptions(0)
	var p [3]int
	for i := range p {
		p[i] = 1 + Choose(5)
	}
	var r [3]outcome
	run := func(i int) func() {
		return func() { r[i] = rendering(contents32[p[i]].content, i, "", OptionsSet{Razor: true}) }
	}
	Parallel(run(0), run(1), run(2))
	for i := range p {
		c := contents32[p[i]]
		Assert(asAlone(r[i], c.content, c.result, c.failed, i, false), "no rendering is affected by the others")
	}
}
