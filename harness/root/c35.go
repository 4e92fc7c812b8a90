package main

import (
	"bytes"
	"os"
	"path"
	"strings"

	"github.com/coveooss/gotemplate/v3/template"
	multicolor "github.com/coveooss/multilogger/color"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C35_selection", Verif_C35_selection)
	Register("Verif_C35_explicit", Verif_C35_explicit)
	Register("Verif_C35_places", Verif_C35_places)
	Register("Verif_C35_values", Verif_C35_values)
	Register("Verif_C35_imports", Verif_C35_imports)
	Register("Verif_C35_options", Verif_C35_options)
	Register("Verif_C35_addons", Verif_C35_addons)
	Register("Verif_C35_text", Verif_C35_text)
	Register("Verif_C35_input", Verif_C35_input)
	Register("Verif_C35_failures", Verif_C35_failures)
}

// command35 is an execution of the command in the folder work.
type command35 struct {
	root, work string
	code       int
	printed    string
	before     []File
}

func newCommand(files ...File) *command35 {
	c := &command35{root: Scratch()}
	c.work = path.Join(c.root, "work")
	for _, d := range []string{c.work, path.Join(c.root, "temp")} {
		Assume(os.Mkdir(d, 0755) == nil)
	}
	for _, f := range files {
		PutFile(path.Join(c.work, f.Name), f.Content, f.Mode)
	}
	Assume(os.Chdir(c.work) == nil)
	return c
}

var defaultDepth = template.ExtensionDepth

// run executes the command in the folder work; the command may be explicit or implicit.
func (c *command35) run(args ...string) {
	c.before = Tree(c.work)
	tempFolder, stdinContent = path.Join(c.root, "temp"), ""
	template.ExtensionDepth = defaultDepth
	os.Args = append([]string{"gotemplate"}, args...)
	var out bytes.Buffer
	multicolor.SetOut(&out)
	Assert(!Catch(func() { c.code = runGotemplate() }), "the command does not panic")
	c.printed = out.String()
	Observe("code", c.code)
	_, err := os.Stat(tempFolder)
	Assert(os.IsNotExist(err), "the temporary folder is removed")
}

func (c *command35) expect(label string, files []File) {
	found := Tree(c.work)
	for _, f := range found {
		Observe("name", f.Name)
		Observe("content", f.Content)
	}
	Assert(SameFiles(found, files), label)
}

// selected35 is a file of the source folder.
type selected35 struct {
	name  string
	depth int
}

func (s selected35) base() string { return path.Base(s.name) }

var files35 = []selected35{{"a.gt", 0}, {"b.x.template", 0}, {"c.txt", 0}, {"d.TXT", 0}, {"sub/e.gt", 1}, {"sub/f.txt", 1}, {"sub/deep/g.gt", 2}, {"gt", 0}}

func (s selected35) template() bool {
	return strings.HasSuffix(s.name, ".gt") || strings.HasSuffix(s.name, ".template")
}

// processed35 is the expected files once the file s is rendered in place.
func processed35(files []File, s selected35, old, rendered string, overwrite bool) []File {
	if s.template() {
		target := strings.TrimSuffix(strings.TrimSuffix(s.name, ".gt"), ".template")
		ext := path.Ext(target)
		if overwrite {
			return With(Without(files, s.name), File{target, rendered, 0644})
		}
		return With(files, File{strings.TrimSuffix(target, ext) + ".generated" + ext, rendered, 0644})
	}
	if !overwrite {
		files = With(files, File{s.name + ".original", old, 0644})
	}
	return With(files, File{s.name, rendered, 0644})
}

// Every combination of recursion (none, -r, -R 1, -R 2), patterns (none, -p '*.txt', -p 'e.*, c*' and -p '*.TXT', -p 'sub/*'), exclusions (none, '*.gt', 'sub/**',
// '**/e.gt,c*') and overwriting over a tree of 8 files on 3 levels; no explicit file.
func Verif_C35_selection() {
	c := newCommand()
	for _, s := range files35 {
		PutFile(path.Join(c.work, s.name), "{{ add 1 1 }}\n", 0644)
	}
	var args []string
	depth, used := 0, 0
	option := func(n int) int {
		i := Choose(n)
		if i > 0 {
			used++
		}
		return i
	}
	switch option(4) {
	case 1:
		args, depth = append(args, "-r"), 99
	case 2:
		args, depth = append(args, "-R", "1"), 1
	case 3:
		args, depth = append(args, "--recursion-depth=2", "--recursive"), 2
	}
	patterns := []string{"*.gt", "*.template"}
	switch option(4) {
	case 1:
		args, patterns = append(args, "-p", "*.txt"), append(patterns, "*.txt")
	case 2:
		args, patterns = append(args, "--patterns", "e.*, c*", "-p", "*.TXT"), append(patterns, "e.*", "c*", "*.TXT")
	case 3:
		args, patterns = append(args, "-p", "?t"), append(patterns, "?t")
	}
	excluded := func(selected35) bool { return false }
	switch option(4) {
	case 1:
		args, excluded = append(args, "-e", "*.gt"), func(s selected35) bool { return s.name == "a.gt" }
	case 2:
		args, excluded = append(args, "--exclude", "sub/**"), func(s selected35) bool { return s.depth > 0 }
	case 3:
		args, excluded = append(args, "--exclude=**/e.gt,c*"), func(s selected35) bool { return s.base() == "e.gt" || s.name == "c.txt" }
	}
	overwrite := option(2) == 1
	if overwrite {
		args = append(args, "-o")
	}
	if Tier() == 0 {
		// Two options of each kind at most; all of them are combined by the thorough check
		Assume(used <= 2)
	}
	c.run(args...)
	expected := c.before
	for _, s := range files35 {
		found := false
		for _, p := range patterns {
			if ok, _ := path.Match(p, s.base()); ok {
				found = true
			}
		}
		if found && s.depth <= depth && !excluded(s) {
			expected = processed35(expected, s, "{{ add 1 1 }}\n", "2\n", overwrite)
		}
	}
	Assert(c.code == 0, "the command succeeds")
	Assert(c.printed == "", "nothing is printed")
	c.expect("exactly the files that are selected are rendered", expected)
}

// Explicit files (one or two of a template, a text, a file of a subfolder, a file by its full path, with or without the command name run, before or after the options):
// the default patterns are not added, the patterns given are, a file selected several times is rendered once.
func Verif_C35_explicit() {
	c := newCommand()
	for _, s := range files35 {
		PutFile(path.Join(c.work, s.name), "{{ add 1 1 }}\n", 0644)
	}
	pool := []selected35{files35[0], files35[2], files35[4], files35[1]}
	var args []string
	chosen := map[string]bool{}
	for i, n := 0, 1+Choose(2); i < n; i++ {
		s := pool[Choose(4)]
		chosen[s.name] = true
		if s.base() == "b.x.template" {
			args = append(args, path.Join(c.work, s.name))
		} else {
			args = append(args, s.name)
		}
	}
	overwrite := false
	switch Choose(4) {
	case 1:
		args, overwrite = append([]string{"run", "-o"}, args...), true
	case 2:
		args = append([]string{"-p", "*.txt"}, args...)
		chosen["c.txt"] = true
	case 3:
		args, overwrite = append(args, "--overwrite", "-p", "a*", "-r"), true
		chosen["a.gt"] = true
	}
	c.run(args...)
	expected := c.before
	for _, s := range files35 {
		if chosen[s.name] {
			expected = processed35(expected, s, "{{ add 1 1 }}\n", "2\n", overwrite)
		}
	}
	Assert(c.code == 0, "the command succeeds")
	Assert(c.printed == "", "nothing is printed")
	c.expect("exactly the files that are given are rendered", expected)
}

// Every source folder (current, sibling by a relative or full path), target folder (none, the source written differently, an existing one, a new one),
// --overwrite, --print, for a template without extension, a template with an extension, a text and a text without code, in the folder and in a subfolder.
func Verif_C35_places() {
	c := newCommand()
	var args []string
	source := c.work
	switch Choose(3) {
	case 1:
		source = path.Join(c.root, "s [1]")
		args = append(args, "--source", source)
	case 2:
		source = path.Join(c.root, "s")
		args = append(args, "--source=../s")
	}
	target := source
	switch Choose(4) {
	case 1:
		args = append(args, "--target", source+"/../"+path.Base(source)+"/")
	case 2:
		target = path.Join(c.root, "t")
		args = append(args, "--target", target)
	case 3:
		target = path.Join(c.root, "new/t")
		args = append(args, "--target=../new/t")
	}
	Assume(os.MkdirAll(path.Join(c.root, "t"), 0755) == nil)
	for _, name := range []string{"a.gt", "sub/b.x.gt", "c.txt", "sub/d.txt"} {
		PutFile(path.Join(source, name), "{{ add 1 1 }}\n", 0644)
	}
	PutFile(path.Join(source, "e.txt"), "text\n", 0644)
	args = append(args, "-r", "-p", "*.txt")
	overwrite, printed := false, false
	switch Choose(3) {
	case 1:
		args, overwrite = append(args, "-o"), true
	case 2:
		args, printed = append(args, "--print"), true
	}
	all := Tree(c.root)
	c.run(append([]string{"run"}, args...)...)
	expected := Without(all, "temp")
	rel := func(folder, name string) string { return strings.TrimPrefix(path.Join(folder, name), c.root+"/") }
	add := func(name, content string) { expected = With(expected, File{rel(target, name), content, 0644}) }
	switch {
	case printed:
		Assert(c.printed == "2\n2\n2\ntext\n2\n" || strings.Count(c.printed, "2\n") == 4 && strings.Count(c.printed, "text\n") == 1 && len(c.printed) == 13,
			"every result is printed")
	case source == target:
		for _, s := range []string{"a", "sub/b.x"} {
			if overwrite {
				expected = Without(expected, rel(source, s+".gt"))
				add(s, "2\n")
			} else {
				ext := path.Ext(s)
				add(strings.TrimSuffix(s, ext)+".generated"+ext, "2\n")
			}
		}
		for _, s := range []string{"c.txt", "sub/d.txt"} {
			if !overwrite {
				add(s+".original", "{{ add 1 1 }}\n")
			}
			add(s, "2\n")
		}
	default:
		for _, s := range []string{"a", "sub/b.x", "c.txt", "sub/d.txt"} {
			add(s, "2\n")
		}
		add("e.txt", "text\n")
	}
	Assert(c.code == 0, "the command succeeds")
	if !printed {
		Assert(c.printed == "", "nothing is printed")
	}
	found := Tree(c.root)
	for _, f := range found {
		Observe("name", f.Name)
		Observe("content", f.Content)
	}
	Assert(SameFiles(found, expected), "every result is in the target folder")
}

// Every subset and order of two optional imports (one missing), two imports and two named values overlapping on 4 names, for every type mode.
func Verif_C35_values() {
	c := newCommand(File{"a.gt", "{{ default 0 .a }}{{ default 0 .b }}{{ default 0 .c }}{{ default 0 .d }} {{ dict \"k\" 1 }}\n", 0644},
		File{"v1.yml", "a: 1\nb: 1\nc: 1\nd: 1\n", 0644}, File{"v2.json", `{"b": 2, "c": 2, "d": 2}`, 0644}, File{"v3.hcl", "c = 3\nd = 3\n", 0644})
	value := string(ByteIn("56789"))
	sources := []struct {
		args  []string
		names string
		value string
	}{
		{[]string{"--import-if-exist", "missing.yml"}, "", ""},
		{[]string{"--import-if-exist", "v1.yml"}, "abcd", "1"},
		{[]string{"-i", "v2.json"}, "bcd", "2"},
		{[]string{"--import=v3.hcl"}, "cd", "3"},
		{[]string{"-V", "d=4"}, "d", "4"},
		{[]string{"--var", "d=" + value}, "d", value},
	}
	var args []string
	want := map[string]string{"a": "0", "b": "0", "c": "0", "d": "0"}
	reversed, hcl := Choose(2) == 1, false
	n := 0
	for i, s := range sources {
		if Choose(2) == 0 {
			continue
		}
		n++
		if reversed && i < 4 {
			args = append(append([]string{}, s.args...), args...)
		} else {
			args = append(args, s.args...)
		}
		hcl = hcl || i == 3
		for _, name := range s.names {
			if reversed && i == 3 && want[string(name)] == "2" {
				// The files of the same kind are combined in the order of the command
				continue
			}
			want[string(name)] = s.value
		}
	}
	if Tier() == 0 {
		Assume(n <= 2 || n == len(sources))
	}
	k := `{"k":1}`
	switch {
	// Without type, the objects are those of the first file
	case want["a"] == "1":
		k = "k: 1\n"
	case hcl && (reversed || want["b"] != "2"):
		k = "k=1"
	}
	switch mode := Choose(4); {
	case mode > 0 && Tier() == 0 && n != 2:
		Assume(false)
	case mode == 1:
		args, k = append(args, "-t", "Yaml"), "k: 1\n"
	case mode == 2:
		args, k = append(args, "--type=hcl"), "k=1"
	case mode == 3:
		args, k = append(args, "--type", "j"), `{"k":1}`
	}
	c.run(args...)
	Assert(c.code == 0, "the command succeeds")
	c.expect("the values are those of the last source that defines them", With(c.before, File{"a.generated", want["a"] + want["b"] + want["c"] + want["d"] + " " + k + "\n", 0644}))
}

// An import that is missing, of which the content is invalid, that is a folder, an option that ignores it, and the missing source folder.
func Verif_C35_imports() {
	c := newCommand(File{"a.gt", "{{ add 1 1 }}\n", 0644}, File{"bad.yml", "{{{ : [\n", 0644}, File{"folder/a.yml", "a: 1\n", 0644})
	args := [][]string{{"-i", "missing.yml"}, {"-i", "bad.yml"}, {"--import-if-exist", "bad.yml"}, {"--import-if-exist", "missing.yml"}, {"--source", "missing"},
		{"-i", "missing.yml", "-i", "bad.yml"}, {"-i", "missing.yml", "--source", "missing"}, {"-i", "folder"}, {"--import-if-exist", "folder"}}
	problem := Choose(len(args))
	list := append([]string{}, args[problem]...)
	ignored := Choose(4)
	if ignored > 0 {
		list = append(list, []string{"--ignore-missing-import", "--ignore-missing-source", "--ignore-missing-paths"}[ignored-1])
	}
	c.run(list...)
	ignoreImport, ignoreSource := ignored == 1 || ignored == 3, ignored >= 2
	code, rendered := 0, true
	switch problem {
	case 0:
		if !ignoreImport {
			code = 1
		}
	case 1, 2, 5, 7, 8:
		code = 1
	case 4, 6:
		rendered = false
		if !ignoreSource {
			code = 1
		}
	}
	Assert(c.code == code, "the command fails when something is missing or invalid, unless it is ignored")
	expected := c.before
	if rendered && code == 0 {
		expected = With(expected, File{"a.generated", "2\n", 0644})
	}
	c.expect("nothing is rendered when the command fails", expected)
}

// Every rendering option, given on the command line (before or after the file) or by an environment variable.
func Verif_C35_options() {
	options := []struct {
		name, content, result string
		args                  []string
		variable, value       string
		fails                 bool // without the option
		without               string
	}{
		{"c.txt", "@(1+1) {{ 2 }}\n", "{{ add 1 1 }} {{ 2 }}\n", []string{"--disable"}, "GOTEMPLATE_DISABLE", "true", false, "2 2\n"},
		{"c.txt", "a\n\n  \n{{ 1 }}\n\n", "a\n1\n", []string{"-E"}, "GOTEMPLATE_REMOVE_EMPTY_LINES", "true", false, "a\n\n  \n1\n\n"},
		{"c.txt", "ab {{ 1 }}\n", "cb 1\n", []string{"-s", "/a/c"}, "GOTEMPLATE_SUBSTITUTE", "/a/c", false, "ab 1\n"},
		{"c.txt", "ab {{ 1 }}\n", "eb 1\n", []string{"--substitute", "/a/c", "-s", "|c|e"}, "GOTEMPLATE_SUBSTITUTE", "/a/c\n|c|e", false, "ab 1\n"},
		{"c.txt", "{{ 1 }} <<2>> @(3) ~(4)\n", "{{ 1 }} 2 @(3) 4\n", []string{"--delimiters", "<<,>>,~"}, "GOTEMPLATE_DELIMITERS", "<<,>>,~", false, "1 <<2>> 3 ~(4)\n"},
		{"c.txt", "{{ 1 }} <<2>> @(3)\n", "{{ 1 }} 2 3\n", []string{"--del=<<,>>"}, "", "", false, "1 <<2>> 3\n"},
		{"c.gt", "@site.x {{ 1 }}\n", "@site.x 1\n", []string{"--ignore-razor", "site.x"}, "", "", true, ""},
		{"c.gt", "{{ .a }}\n", "<no value>\n", []string{"--accept-no-value"}, "GOTEMPLATE_NO_VALUE", "1", true, ""},
		{"c.gt", "{{ .a }}\n", "<no value>\n", []string{"--no-value"}, "", "", true, ""},
		{"c.txt", "@(1+1)\n", "@(1+1)\n", []string{"--no-razor"}, "GOTEMPLATE_RAZOR", "false", false, "2\n"},
	}
	o := options[Choose(len(options))]
	c := newCommand(File{o.name, o.content, 0644})
	args := []string{"-P", o.name}
	used := true
	switch Choose(4) {
	case 0:
		args = append(append([]string{}, o.args...), args...)
	case 1:
		args = append(args, o.args...)
	case 2:
		Assume(o.variable != "")
		os.Setenv(o.variable, o.value)
		defer os.Unsetenv(o.variable)
	case 3:
		used = false
	}
	c.run(append([]string{"run"}, args...)...)
	Observe("printed", c.printed)
	switch {
	case used:
		Assert(c.code == 0 && c.printed == o.result, "the option is applied")
	case o.fails:
		Assert(c.code == 1 && c.printed == "", "the command fails without the option")
	default:
		Assert(c.code == 0 && c.printed == o.without, "the option is off by default")
	}
	c.expect("no file is modified", c.before)
}

// Each group of functions disabled, enabled alone, and the base functions.
func Verif_C35_addons() {
	groups := []struct{ name, content, result string }{
		{"razor", `@("r")`, "r"}, {"math", "{{ hypot 3 4 }}", "5"}, {"sprig", `{{ snakecase "aB" }}`, "a_b"}, {"data", `{{ isZero 0 }}`, "true"},
		{"utils", `{{ iif true 1 2 }}`, "1"}, {"runtime", `{{ if current }}y{{ end }}`, "y"}, {"os", `{{ exists "c.txt" }}`, "true"}, {"logging", `{{ noticef "" }}`, ""},
	}
	i, j, mode := Choose(len(groups)), Choose(len(groups)), Choose(3)
	Assume(i != j && (mode != 1 || i == 0 || j == 0))
	a, b := groups[i], groups[j]
	if i == 0 {
		a.result = a.content
	}
	if j == 0 && mode == 1 {
		b.result = b.content
	}
	c := newCommand(File{"a.gt", a.content + "\n", 0644}, File{"c.txt", b.content + "\n", 0644})
	args := []string{"-P", "--strict", "a.gt", "c.txt"}
	fails := i != 0
	switch mode {
	case 0:
		args = append(args, "--no-"+a.name)
	case 1:
		args = append(args, "--base")
		fails = i != 0 || j != 0
	case 2:
		args = append(args, "--base", "--"+b.name)
	}
	c.run(args...)
	Observe("printed", c.printed)
	printed := ""
	if i == 0 {
		printed = a.result + "\n"
	}
	if mode != 1 || j == 0 {
		printed += b.result + "\n"
	}
	Assert((c.code == 1) == fails, "the functions of a group that is disabled are not available")
	Assert(c.printed == printed, "the functions of a group that is enabled are available")
}

// Texts given as arguments: code, code starting with the razor delimiter, blank results, a text that is neither code nor a file, with a file.
func Verif_C35_text() {
	c := newCommand(File{"c.txt", "{{ 3 }}\n", 0644})
	digit := string(ByteIn("0123456789"))
	texts := []struct {
		text, printed string
		fails         bool
	}{
		{"{{ " + digit + " }}", digit + "\n", false},
		{"@(" + digit + ")", digit + "\n", false},
		{"@" + "nil" + digit, "", true},
		{"a{{ 1 }}\n", "a1\n", false},
		{"{{ \"\" }} \t", "", false},
		{"missing" + digit, "", true},
		{"{{ fail }", "", true},
		{"{{ if true }}" + digit, "", true},
		{"c.txt", "", false},
	}
	var args []string
	printed, fails, written := "", false, false
	for i, n := 0, 1+Choose(2); i < n; i++ {
		t := texts[Choose(len(texts))]
		if t.text == "c.txt" {
			Assume(!written)
			written = true
		}
		args = append(args, t.text)
		printed += t.printed
		fails = fails || t.fails
	}
	c.run(args...)
	Observe("printed", c.printed)
	Assert((c.code == 1) == fails && (fails || c.code == 0), "the command fails when a text is not a file or is not valid")
	Assert(c.printed == printed, "the result of the texts is printed in order, each on its own lines")
	expected := c.before
	if written {
		expected = With(With(expected, File{"c.txt", "3\n", 0644}), File{"c.txt.original", "{{ 3 }}\n", 0644})
	}
	c.expect("the files are rendered whatever the other arguments", expected)
}

// The standard input holding a template or values, used or not.
func Verif_C35_input() {
	c := newCommand(File{"a.gt", "{{ default 0 .x }}\n", 0644}, File{"c.txt", "{{ default 0 .x }}\n", 0644})
	stdin := os.Stdin
	defer func() { os.Stdin = stdin }()
	digit := string(ByteIn("123456789"))
	var args []string
	printed, rendered, value := "", "", "0"
	content := []string{"{{ " + digit + " }}\n", digit + "\n"}[Choose(2)]
	disabled := Choose(2) == 1
	if disabled {
		os.Setenv(envDisableStdinCheck, "1")
		defer os.Unsetenv(envDisableStdinCheck)
	}
	switch Choose(7) {
	case 0:
		printed = digit + "\n"
		if disabled {
			printed, rendered = "", "a.gt"
		}
	case 1:
		args, printed = []string{"-I"}, digit+"\n"
	case 2:
		args, printed, rendered = []string{"c.txt"}, digit+"\n", "c.txt"
		if disabled {
			printed = ""
		}
	case 3:
		args, content, rendered, value = []string{"--import=-", "c.txt"}, "x = "+digit+"\n", "c.txt", digit
	case 4:
		args, content, rendered, value = []string{"c.txt", "--var=-"}, `{"x": `+digit+"}", "c.txt", digit
	case 5:
		args, content, rendered, value = []string{"c.txt", "-V", "x=-"}, digit, "c.txt", digit
	case 6:
		args, printed, value = []string{"-I", "-V", "x=" + digit}, digit+"\n", digit
		content = "@x"
	}
	Input(c.root, content)
	c.run(args...)
	Observe("printed", c.printed)
	Assert(c.code == 0, "the command succeeds")
	Assert(c.printed == printed, "the template of the standard input is rendered on the standard output")
	expected := c.before
	if rendered != "" {
		s := selected35{rendered, 0}
		expected = processed35(expected, s, "{{ default 0 .x }}\n", value+"\n", false)
	}
	c.expect("the files are rendered with the values of the standard input", expected)
}

// A file that fails among others (parsing error, execution error, missing value), template or not, strict or not; an invalid substitution.
func Verif_C35_failures() {
	bad := []string{"{{ if }}\n", "{{ fail \"a\" }}\n", "{{ .missing }}\n", "{{ undefined }}\n"}[Choose(4)]
	name := []string{"b.gt", "b.txt"}[Choose(2)]
	c := newCommand(File{"a.txt", "{{ 1 }}\n", 0644}, File{name, bad, 0644}, File{"c.txt", "{{ 3 }}\n", 0644})
	args := []string{"a.txt", name, "c.txt"}
	fails := name == "b.gt"
	code := 1
	expected := Tree(c.work)
	switch Choose(4) {
	case 1:
		args, fails = append([]string{"--strict"}, args...), true
	case 2:
		os.Setenv(template.EnvStrictErrorCheck, "true")
		defer os.Unsetenv(template.EnvStrictErrorCheck)
		fails = true
	case 3:
		args, code = append(args, "-s", "/a"), 3
		fails = true
	}
	c.run(args...)
	if code == 1 {
		for i, s := range []string{"a.txt", "c.txt"} {
			digit := string("13"[i])
			expected = With(With(expected, File{s, digit + "\n", 0644}), File{s + ".original", "{{ " + digit + " }}\n", 0644})
		}
	}
	if !fails {
		code = 0
	}
	Assert(c.code == code, "the code tells that a file failed")
	c.expect("the other files are rendered and the file that fails is left unchanged", expected)
}
