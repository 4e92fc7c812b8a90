package template

import (
	"os"
	"path"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C42_groups", Verif_C42_groups)
	Register("Verif_C42_tables", Verif_C42_tables)
	Register("Verif_C42_children", Verif_C42_children)
	Register("Verif_C42_delimiters", Verif_C42_delimiters)
	Register("Verif_C42_ignored", Verif_C42_ignored)
	Register("Verif_C42_ignored_text", Verif_C42_ignored_text)
	Register("Verif_C42_delimiter_text", Verif_C42_delimiter_text)
	Register("Verif_C42_depth", Verif_C42_depth)
	Register("Verif_C42_content", Verif_C42_content)
	Register("Verif_C42_path", Verif_C42_path)
	Register("Verif_C42_same_name", Verif_C42_same_name)
}

type use42 struct {
	option         Options
	template, want string
}

// The uses of functions (one or two for each addon) that exist only with the addon
var uses42 = []use42{
	{Math, `{{hypot 3 4}}`, "5"}, {Math, `{{power 2 3}}`, "8"}, {Sprig, `{{swapcase "aB"}}`, "Ab"}, {Data, `{{lenc "abc"}}`, "3"}, {Data, `{{nbChars "ab"}}`, "2"},
	{Logging, `{{if false}}{{infof "x"}}{{end}}z`, "z"}, {Runtime, `{{if false}}{{exec "x"}}{{end}}y`, "y"}, {Utils, `{{id "a b"}}`, "a_b"}, {Utils, `{{identifier "c d"}}`, "c_d"},
	{Net, `{{if false}}{{curl "x"}}{{end}}w`, "w"}, {OS, `{{joinPath "a" "b"}}`, "a/b"}, {Git, `{{if false}}{{currentBranch "x"}}{{end}}v`, "v"}, {Razor, `@(1)`, "1"}, {Razor, `@x`, "X"},
}

var addons42 = []Options{Razor, Math, Sprig, Data, Logging, Runtime, Utils, Net, OS, Git}

func template42(options OptionsSet, delimiters string) (*Template, error) {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	return NewTemplate("/tmp", collections.AsDictionary(map[string]any_{"x": "X"}), delimiters, options)
}

// Each use of a function of an addon (14 uses, names and other names) with every set of at most two addons disabled or enabled: the function exists when and only when its addon is enabled.
func Verif_C42_groups() {
	u := uses42[Choose(len(uses42))]
	inverted := Bool()
	options := OptionsSet{}
	first, second := addons42[Choose(len(addons42))], u.option
	if Tier() > 0 {
		second = addons42[Choose(len(addons42))]
	}
	enabled := false
	for _, o := range addons42 {
		options[o] = (o == first || o == second) != inverted
		if o == u.option {
			enabled = options[o]
		}
	}
	if Choose(2) == 0 {
		options = DefaultOptions()
		delete(options, Extension)
		enabled = true
		if first == u.option {
			options.Unset(first)
			enabled = false
		}
	}
	t, err := template42(options, "")
	Assert(err == nil, "a template is created")
	result, err := t.ProcessContent(u.template, ".")
	Observe("result", result)
	switch {
	case enabled:
		Reach("enabled")
		Assert(err == nil && result == u.want, "a function of an addon that is enabled gives its result")
	case u.option == Razor:
		Reach("razor disabled")
		Assert(err == nil && result == u.template, "razor expressions are left when the addon is disabled")
	default:
		Reach("disabled")
		Assert(err != nil, "a function of an addon that is disabled does not exist")
	}
}

// The functions a template knows with one or two addons are those of each addon and of the base, for every pair of addons.
func Verif_C42_tables() {
	a, b := addons42[Choose(len(addons42))], addons42[Choose(len(addons42))]
	names := func(options ...Options) map[string]bool {
		t, err := template42(OptionsSet{}.Set(options...), "")
		Assert(err == nil, "a template is created")
		r := map[string]bool{}
		for _, n := range t.getFunctionsInternal(true, true) {
			r[n] = true
		}
		return r
	}
	base, one, two, both := names(), names(a), names(b), names(a, b)
	for n := range both {
		Assert(one[n] || two[n], "a function belongs to an enabled addon")
	}
	for n := range one {
		Assert(both[n], "no function is missing")
	}
	for n := range base {
		Assert(one[n] && both[n], "base functions are always there")
		Assert(baseGoTemplateFuncs[n] != nil, "without addon, only functions of the base exist")
	}
	for n := range baseGoTemplateFuncs {
		Assert(base[n], "every function of the base exists")
	}
}

// An option of a context or of its parent changed after the context has been created (cached or not), for every option: it changes nothing in the other one.
func Verif_C42_children() {
	initial, value := Bool(), Bool()
	option := Options(Choose(int(StrictErrorCheck) + 1))
	options := OptionsSet{option: initial}
	if option == Extension {
		options = OptionsSet{Extension: false}
	}
	t, err := template42(options, "")
	Assert(err == nil, "a template is created")
	initial = t.options[option]
	child := t.GetNewContext("/tmp/sub", Bool())
	Assert(child.options[option] == initial, "a context has the options of its parent")
	if Bool() {
		child.SetOption(option, value)
		Assert(t.options[option] == initial && child.options[option] == value, "an option of a context is its own")
	} else {
		t.SetOption(option, value)
		Assert(child.options[option] == initial && t.options[option] == value, "an option of a template is not one of its contexts created before")
	}
}

// Lists of up to 4 delimiters, each of them possibly absent, among "", "<<", "[[" and "%": those given replace the default ones, in order, more than three are refused.
func Verif_C42_delimiters() {
	n := Choose(5)
	given := []string{"", "", "", ""}
	for i := 0; i < n; i++ {
		given[i] = [][]string{{"", "<<", "[["}, {"", ">>", "]]"}, {"", "%", "::"}, {"", "%", "y"}}[i][Choose(3)]
	}
	text := strings.Join(given[:n], ",")
	t, err := template42(OptionsSet{Razor: true}, text)
	if n > 3 {
		Assert(err != nil && t == nil, "more than three delimiters are refused")
		return
	}
	Assert(err == nil, "a template is created")
	want := []string{"{{", "}}", "@"}
	for i := range want {
		if given[i] != "" {
			want[i] = given[i]
		}
	}
	Assert(t.LeftDelim() == want[0] && t.RightDelim() == want[1] && t.RazorDelim() == want[2], "the delimiters are those given, default ones for those not given")
	result, err := t.ProcessContent("a "+want[0]+" .x "+want[1]+" b "+want[2]+"x c", ".")
	Observe("result", result)
	Assert(err == nil && result == "a X b X c", "the delimiters are used")
	other := ""
	for i, d := range []string{"{{", "}}", "@"} {
		if want[i] != d {
			other += " " + d + " e"
		}
	}
	if want[0] != "{{" && want[1] != "}}" {
		result, err = t.ProcessContent("a"+other, ".")
		Assert(err == nil && result == "a"+other, "the default delimiters that are replaced are text")
	}
}

// The names to ignore given in GOTEMPLATE_IGNORE_RAZOR (one to three names, separated by a comma, a blank, a line break of both kinds, or as a JSON, YAML or HCL list), possibly with names given afterwards:
// these expressions are left, the others are evaluated.
func Verif_C42_ignored() {
	names := []string{"media", "x", "import"}[:1+Choose(3)]
	text := ""
	switch k := Choose(6); k {
	case 4, 5:
		Reach("list")
		text = `["` + strings.Join(names, `","`) + `"]`
		if k == 5 {
			text = "- " + strings.Join(names, "\n- ") + "\n"
		}
	default:
		Reach("separator")
		text = strings.Join(names, []string{",", " ", "\n", "\r\n"}[k])
	}
	os.Setenv(EnvIgnoreRazor, text)
	defer os.Unsetenv(EnvIgnoreRazor)
	t, err := template42(OptionsSet{Razor: true}, "")
	Assert(err == nil, "a template is created")
	ignored := map[string]bool{}
	for _, n := range names {
		ignored[n] = true
	}
	switch Choose(3) {
	case 1:
		t.AppendIgnoreRazorExpression("y", "z")
		ignored["y"] = true
	case 2:
		t.IgnoreRazorExpression("y")
		ignored = map[string]bool{"y": true}
	}
	t.Add("y", "Y")
	t.Add("media", "M")
	t.Add("import", "I")
	source, want := "", ""
	for _, n := range [][2]string{{"media", "M"}, {"x", "X"}, {"import", "I"}, {"y", "Y"}} {
		source += "@" + n[0] + ", "
		if ignored[n[0]] {
			want += "@" + n[0] + ", "
		} else {
			want += n[1] + ", "
		}
	}
	result, err := t.ProcessContent(source, ".")
	Observe("result", result)
	Assert(err == nil && result == want, "exactly the given expressions are left")
}

// Every value of GOTEMPLATE_IGNORE_RAZOR of up to 4 (6) characters among x, y, the comma, the blank and the line break that begins by x or y: of the expressions @x, @y, @xx, @xy, @yx and @yy, exactly those
// whose name is in the list are left.
func Verif_C42_ignored_text() {
	text := Str(4+2*Tier(), "xy, \n")
	Assume(text != "")
	Assume(Or(text[0] == 'x', text[0] == 'y'))
	os.Setenv(EnvIgnoreRazor, text)
	defer os.Unsetenv(EnvIgnoreRazor)
	t, err := template42(OptionsSet{Razor: true}, "")
	Assert(err == nil, "a template is created")
	names := []string{"x", "y", "xx", "xy", "yx", "yy"}
	name := names[Choose(len(names))]
	for i, n := range names {
		t.Context().Set(n, string(rune('A'+i)))
	}
	listed := false
	for _, n := range strings.FieldsFunc(text, func(r rune) bool { return r == ',' || r == ' ' || r == '\n' }) {
		listed = Or(listed, n == name)
	}
	source := "a @" + name + ", b"
	result, err := t.ProcessContent(source, ".")
	Observe("result", result)
	Assert(err == nil, "the document is rendered")
	value, _ := t.Context().Get(name).(string)
	Assert(Or(And(listed, result == source), And(!listed, result == "a "+value+", b")), "an expression is left when and only when it is listed")
}

// Every left delimiter of 1 or 2 characters and right delimiter of 2 characters among < % [ and >, with the razor delimiter "$$": a document with these delimiters is rendered as one with the default delimiters.
func Verif_C42_delimiter_text() {
	left, right := Str(2, "<%["), StrN(2, ">%]")
	Assume(left != "")
	Assume(left != right)
	t, err := template42(OptionsSet{Razor: true}, left+","+right+",$$")
	Assert(err == nil, "a template is created")
	Assert(t.LeftDelim() == left && t.RightDelim() == right && t.RazorDelim() == "$$", "the delimiters are those given")
	result, err := t.ProcessContent("a "+left+" .x "+right+" b $$x;c", ".")
	Observe("result", result)
	Assert(err == nil && result == "a X b Xc", "the delimiters are used")
}

func folder42(folder string, context collections.IDictionary) *Template {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	t, err := NewTemplate(folder, context, "", DefaultOptions())
	Assert(err == nil, "a template is created")
	return t
}

// One extension in a folder at a depth of 0 to 4, with a depth of search from 0 to 3, the addon enabled or not, under a name that is one of an extension or not, and a template rendered in the folder
// or in another one: what the extension defines is there when and only when the addon is enabled, the name ends by .gte and the depth is not more than the one of the search.
func Verif_C42_depth() {
	root := Scratch()
	depth, search := Choose(5), Choose(4)
	name := []string{"e.gte", "!e.gte", "e.gt", "e.gte.txt", ".gte"}[Choose(5)]
	folder := path.Join(append([]string{root}, []string{"a", "b", "c", "d"}[:depth]...)...)
	PutFile(path.Join(folder, name), "text {{define \"hello\"}}Hello {{.}}{{end}}", 0644)
	saved := ExtensionDepth
	defer func() { ExtensionDepth = saved }()
	ExtensionDepth = search
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	options := DefaultOptions()
	if Choose(2) == 0 {
		options.Unset(Extension)
	}
	t, err := NewTemplate(root, collections.CreateDictionary(), "", options)
	Assert(err == nil, "a template is created")
	result, err := t.ProcessContent(`{{template "hello" "you"}}`, []string{".", path.Join(root, "other.gt"), path.Join(root, "sub", "other.gt")}[Choose(3)])
	Observe("result", result)
	if options[Extension] && depth <= search && strings.HasSuffix(name, ".gte") {
		Reach("available")
		Assert(err == nil && result == "Hello you", "what an extension defines is available everywhere")
	} else {
		Reach("not available")
		Assert(err != nil, "files that are not extensions define nothing")
	}
}

// What an extension can define: a template, a function made of a template (with its aliases), an alias, a variable of the context, or several of them in an extension or in two; with text of up to 2 (3) characters around
// in the extension, and an extension that fails beside: all of it is available, the text is not rendered.
func Verif_C42_content() {
	root := Scratch()
	text := Str(2+Tier(), "a \n.")
	parts := []string{
		text + `{{define "hello"}}Hello {{.}}{{end}}`,
		`{{define "bye"}}Bye {{.name}}{{end}}` + text + `{{func "Bye" "template" "bye" (dict "arguments" (list "name") "aliases" (list "by"))}}`,
		`{{alias "five" "ellipsis" "list" 5}}`,
		`{{set . "global" "set"}}` + text,
	}
	uses := []string{`{{template "hello" "you"}}`, `{{Bye "me"}}{{by "him"}}`, `{{five}}`, `{{.global}}`}
	wants := []string{"Hello you", "Bye meBye him", "[5]", "set"}
	i := []int{0, 1, 3}[Choose(3)]
	j := []int{0, 1, 3}[Choose(3)]
	PutFile(path.Join(root, "a.gte"), parts[i], 0644)
	PutFile(path.Join(root, "b", "a.gte"), parts[j], 0644)
	if Choose(2) == 0 {
		Reach("error")
		PutFile(path.Join(root, []string{"0.gte", "z.gte"}[Choose(2)]), []string{"{{if}}", "{{index 1 2}}"}[Choose(2)], 0644)
	}
	t := folder42(root, collections.CreateDictionary())
	for _, k := range []int{i, j} {
		result, err := t.ProcessContent(uses[k]+"!", ".")
		Observe("result", result)
		Assert(err == nil && result == wants[k]+"!", "what the extension defines is available and nothing else is rendered")
	}
}

// Extensions in one or two folders of GOTEMPLATE_PATH (with empty elements, a folder that does not exist, depths from 0 to 3), with or without extensions in the folder of the template.
func Verif_C42_path() {
	root := Scratch()
	depth := Choose(4)
	PutFile(path.Join(append([]string{root, "p"}, []string{"a", "b", "c"}[:depth]...)...)+"/x.gte", `{{define "one"}}1{{end}}`, 0644)
	PutFile(path.Join(root, "q", "y.gte"), `{{define "two"}}2{{end}}`, 0644)
	PutFile(path.Join(root, "work", "z.gte"), `{{define "three"}}3{{end}}`, 0644)
	PutFile(path.Join(root, "other", "z.gte"), `{{define "four"}}4{{end}}`, 0644)
	p, q := path.Join(root, "p"), path.Join(root, "q")
	variable := []string{"", p, q, p + ":" + q, q + "::" + p, ":" + p, path.Join(root, "none") + ":" + p, " "}[Choose(8)]
	os.Setenv(EnvExtensionPath, variable)
	defer os.Unsetenv(EnvExtensionPath)
	t := folder42(path.Join(root, "work"), collections.CreateDictionary())
	has := func(name string) bool {
		result, err := t.ProcessContent(`{{template "`+name+`"}}`, ".")
		return err == nil && result != ""
	}
	Assert(has("one") == (strings.Contains(variable, p) && depth <= ExtensionDepth), "the extensions of each folder of GOTEMPLATE_PATH up to the depth of search are available")
	Assert(has("two") == strings.Contains(variable, q), "the extensions of each folder of GOTEMPLATE_PATH are available")
	Assert(has("three"), "the extensions of the folder are available")
	Assert(!has("four"), "the extensions of other folders are not available")
}

// Extensions in two or three folders, below the folder of the template or in GOTEMPLATE_PATH, that define templates of the same name, whatever the order maps are visited in: the last one loaded is used.
func Verif_C42_same_name() {
	root := Scratch()
	for _, f := range []string{"work/a/x.gte", "work/b/x.gte", "work/x.gte", "p/x.gte"} {
		if f != "work/x.gte" {
			PutFile(path.Join(root, f), `{{define "t"}}`+f+`{{end}}`, 0644)
		}
	}
	k := Choose(3)
	if k > 0 {
		PutFile(path.Join(root, "work/x.gte"), `{{define "t"}}work{{end}}`, 0644)
	}
	if k > 1 {
		os.RemoveAll(path.Join(root, "work", "a"))
		os.RemoveAll(path.Join(root, "work", "b"))
	}
	os.Setenv(EnvExtensionPath, path.Join(root, "p"))
	defer os.Unsetenv(EnvExtensionPath)
	MapOrder(1)
	t := folder42(path.Join(root, "work"), collections.CreateDictionary())
	result, err := t.ProcessContent(`{{template "t"}}`, ".")
	Observe("result", result)
	Assert(err == nil && result == []string{"work/b/x.gte", "work/b/x.gte", "work"}[k], "the last extension loaded gives the template")
}
