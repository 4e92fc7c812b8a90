package template

import (
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C31_register", Verif_C31_register)
	Register("Verif_C31_override", Verif_C31_override)
	Register("Verif_C31_builtin", Verif_C31_builtin)
	Register("Verif_C31_listing", Verif_C31_listing)
	Register("Verif_C31_alias", Verif_C31_alias)
	Register("Verif_C31_func", Verif_C31_func)
}

func template31(context any_) *Template {
	options := DefaultOptions()
	for _, o := range []Options{Sprig, Net, OS, Git, Logging, Extension} {
		options[o] = false
	}
	t, err := NewTemplate("/", context, "", options)
	Assert(err == nil, "the template is created")
	return t
}

func sameStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// Two functions, with every name of up to 2 characters, with up to 2 aliases each, a group (common or by function),
// arguments and a description, registered in a template that has its builtin functions, the maps being iterated in order and in reverse.
func Verif_C31_register() {
	t := template31(nil)
	before := map[string]*FuncInfo{}
	for name, fi := range t.functions {
		before[name] = fi
	}
	names := []string{"f", "g", "h", "i", "j", "k"}
	first := "q" + Str(1, "az_")
	n1, n2 := Choose(3), Choose(3)
	k1, k2 := first, "r"+StrN(1, "bZ")
	a1, a2 := names[:n1], names[2:2+n2]
	text := StrN(1, "ab")
	group := []string{"", "G"}[Choose(2)]
	MapOrder(Choose(2))
	t.AddFunctions(dictionary{
		k1: func(a, b string) string { return a + "1" + b },
		k2: func(a string) (string, error) { return a + "2", nil },
	}, group, FuncOptions{
		FuncAliases:  aliases{k1: a1, k2: a2},
		FuncArgs:     arguments{k1: {"left", "right"}},
		FuncHelp:     descriptions{k1: "D1" + text, k2: "D2"},
		FuncGroup:    groups{k1: "G1", k2: "G2"},
		FuncExamples: examples{k1: {{Razor: "r", Result: text}}},
	})
	MapOrder(0)
	all := append([]string{}, t.getAllFunctions()...)
	count := 0
	check := func(name, primary, result, description, args, defaultGroup string, list []string, examples int) {
		fi := t.getFunction(name)
		Assert(fi != nil, "the name is known")
		Assert(fi.Name() == name && fi.RealName() == primary && fi.IsAlias() == (name != primary), "the function is known under its names")
		Assert(fi.Description() == description && fi.Group() == map[bool]string{true: defaultGroup, false: group}[group == ""], "the help and the category are those of the function")
		Assert(sameStrings(fi.Aliases(), list) && fi.Arguments() == args && fi.Result() == "string", "the signature and the aliases are those of the function")
		Assert(len(fi.Examples()) == examples, "the examples are those of the function")
		rendered, err := t.ProcessContent("{{ "+name+" "+map[bool]string{true: `"x" "y"`, false: `"x"`}[primary == k1]+" }}", "a.gt")
		Assert(err == nil && rendered == result, "the function is callable under its name")
		found := sort.SearchStrings(all, name)
		Assert(found < len(all) && all[found] == name, "the function is listed")
		count++
	}
	check(k1, k1, "x1y", "D1"+text, "left string, right string", "G1", a1, 1)
	check(k2, k2, "x2", "D2", "arg1 string", "G2", a2, 0)
	for _, alias := range a1 {
		check(alias, k1, "x1y", "D1"+text, "left string, right string", "G1", a1, 1)
	}
	for _, alias := range a2 {
		check(alias, k2, "x2", "D2", "arg1 string", "G2", a2, 0)
	}
	Assert(len(all) == len(before)+count, "nothing else is added")
	for i := range all {
		Assert(i == 0 || all[i-1] < all[i], "the list is sorted")
	}
	Reach("end")
}

// A builtin function of the list replaced by a user function, called in a template and in another folder.
func Verif_C31_override() {
	t := template31(nil)
	names := []string{"add", "sub", "len", "lorem", "list", "sIndent", "eq", "iif", "current", "string"}
	name := names[Choose(len(names))]
	other := names[Choose(len(names))]
	t.AddFunctions(dictionary{name: func(args ...any_) string { return "mine" }}, "G", nil)
	for _, file := range []string{"a.gt", "sub/a.gt", "a.gt"} {
		result, err := t.ProcessContent("{{ "+name+" 1 2 }}", file)
		Assert(err == nil && result == "mine", "the function registered last is called")
		if other == "sub" && name != other {
			result, err = t.ProcessContent("{{ sub 5 2 }}", file)
			Assert(err == nil && result == "3", "the other functions are kept")
		}
	}
	Assert(t.getFunction(name).Group() == "G", "the function registered last is known")
	Reach("end")
}

// Every builtin function and alias of the categories that are enabled.
func Verif_C31_builtin() {
	t := template31(nil)
	MapOrder(2)
	listed := map[string]bool{}
	for _, name := range t.getAllFunctions() {
		Assert(!listed[name], "a name is listed once")
		listed[name] = true
		fi := t.getFunction(name)
		Assert(fi != nil && fi.Name() == name, "the function is known under its name")
		for _, alias := range fi.Aliases() {
			other := t.getFunction(alias)
			Assert(other != nil && other.IsAlias() && other.RealName() == fi.RealName(), "the alias is an alias of the function")
			Assert(other.Group() == fi.Group() && other.Description() == fi.Description() && other.Arguments() == fi.Arguments() && other.Result() == fi.Result(), "the alias has the help of the function")
		}
		Assert(fi.Group() != "" && fi.Description() != "", "the function has a category and a description")
	}
	Assert(len(listed) == len(t.functions), "every function is listed")
	Reach("end")
}

// Functions registered with up to 3 aliases; the lists of functions, aliases and categories.
func Verif_C31_listing() {
	t := template31(nil)
	alias := []string{StrN(1, "aZ_") + Str(1, "0b"), "yy", "Xx"}[:Choose(4)]
	t.AddFunctions(dictionary{"z": func() string { return "" }, "Y_": func() string { return "" }}, "G", FuncOptions{FuncAliases: aliases{"z": alias}})
	MapOrder(2)
	all, functions, aliases := t.getAllFunctions(), t.getFunctions(), t.getAliases()
	Assert(sort.StringsAreSorted(functions) && sort.StringsAreSorted(aliases) && sort.StringsAreSorted(all), "the lists are sorted")
	merged := append(append([]string{}, functions...), aliases...)
	sort.Strings(merged)
	Assert(sameStrings(merged, all), "a function or an alias is listed once")
	for _, name := range alias {
		i := sort.SearchStrings(aliases, name)
		Assert(i < len(aliases) && aliases[i] == name, "an alias is listed as such")
	}
	Reach("end")
}

// An alias with up to 2 presets called with up to 2 arguments, the values being any text of up to 2 characters, defined globally or
// locally, on an included text, a sub template or an unknown function.
func Verif_C31_alias() {
	t := template31(collections.AsDictionary(map[string]any_{"base": "B"}))
	_, err := t.ProcessContent(`{{ define "tpl" }}{{ range .ARGS }}[{{ . }}]{{ end }}{{ ._.base }}{{ end }}`, "a.gt")
	Assert(err == nil, "the sub template is defined")
	source := `{{ range .ARGS }}[{{ . }}]{{ end }}{{ ._.base }}`
	presets := make([]any_, Choose(3))
	want := ""
	for i := range presets {
		value := Str(2, "a <")
		presets[i] = value
		want += "[" + value + "]"
	}
	define, kind := t.alias, []string{"include", "template", "unknown"}[Choose(3)]
	if Choose(2) == 0 {
		define = t.localAlias
	}
	_, err = define("myAlias", kind, source, presets...)
	if kind == "unknown" {
		Assert(err != nil, "the function must be known")
		_, err = t.ProcessContent("{{ myAlias }}", "sub/a.gt")
		Assert(err != nil, "the alias is not defined")
		Reach("unknown")
		return
	}
	Assert(err == nil, "the alias is defined")
	for call := 0; call < 2; call++ {
		args, expected := "", want
		for n := Choose(3); n > 0; n-- {
			value := Str(1, "b>")
			args += ` "` + value + `"`
			expected += "[" + value + "]"
		}
		result, err := t.ProcessContent("{{ myAlias"+args+" }}", "sub/b.gt")
		Observe("result", result)
		Assert(err == nil && result == expected+"B", "the aliased function is called with the presets followed by the arguments")
	}
	Reach("end")
}

// A function with up to 2 (quick) or 3 named arguments, a default value for any of them and an alias, called with up to 4 arguments or
// with a dictionary that has any of them.
func Verif_C31_func() {
	t := template31(collections.AsDictionary(map[string]any_{"a": "A", "base": "B"}))
	names := []string{"a", "b", "c"}[:Choose(3+Tier())]
	args, def, want := make([]any_, len(names)), map[string]any_{}, map[string]string{"a": "A", "b": "-", "c": "-"}
	for i, name := range names {
		args[i] = name + []string{"", " string", " int"}[i]
		if Choose(2) == 0 {
			def[name] = "d" + StrN(1, "xy")
			want[name] = def[name].(string)
		}
	}
	config := collections.AsDictionary(map[string]any_{"args": collections.AsList(args), "def": collections.AsDictionary(def), "aliases": collections.AsList([]any_{"myAlias"}),
		"description": "D", "group": "G"})
	source := `{{ range $n := list "a" "b" "c" }}{{ $v := get $ $n }}{{ if $v }}{{ $v }}{{ else }}-{{ end }},{{ end }}{{ .base }}{{ range .ARGS }}[{{ . }}]{{ end }}`
	_, err := t.defineFunc("myFunc", "include", source, config)
	Assert(err == nil, "the function is defined")
	call, rest := []string{"myFunc", "myAlias"}[Choose(2)], ""
	if n := Choose(6); n == 5 {
		Assume(len(names) != 1) // The dictionary would be the value of the argument
		call += " (dict"
		for _, name := range []string{"a", "b", "base"} {
			if Choose(2) == 0 {
				value := "v" + StrN(1, "yz")
				call += ` "` + name + `" "` + value + `"`
				want[name] = value
			}
		}
		call += ")"
	} else {
		for i := 0; i < n; i++ {
			value := "w" + StrN(1, "z{")
			call += ` "` + value + `"`
			if i < len(names) {
				want[names[i]] = value
			} else {
				rest += "[" + value + "]"
			}
		}
		Assume(n == 0 || n != 1 || len(names) > 0)
	}
	if want["base"] == "" {
		want["base"] = "B"
	}
	result, err := t.ProcessContent("{{ "+call+" }}", "sub/b.gt")
	Observe("call", call)
	Observe("result", result)
	Assert(err == nil && result == strings.Join([]string{want["a"], want["b"], want["c"], want["base"]}, ",")+rest, "the function gets its arguments by name, or their default value")
	fi := t.children["/sub"]
	if fi == nil {
		fi = t.children["sub"]
	}
	Assert(fi != nil && fi.getFunction("myFunc") != nil && fi.getFunction("myAlias") != nil, "the function is known")
	primary, alias := fi.getFunction("myFunc"), fi.getFunction("myAlias")
	Assert(alias.RealName() == "myFunc" && alias.Description() == "D" && alias.Group() == "G" && alias.Arguments() == primary.Arguments(), "the alias has the help of the function")
	Reach("end")
}
