package template

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C36_kinds", Verif_C36_kinds)
	Register("Verif_C36_load", Verif_C36_load)
	Register("Verif_C36_save", Verif_C36_save)
	Register("Verif_C36_bytes", Verif_C36_bytes)
	Register("Verif_C36_places", Verif_C36_places)
	Register("Verif_C36_glob", Verif_C36_glob)
	Register("Verif_C36_paths", Verif_C36_paths)
}

// files36 is a template with the functions on files, whose folder is work; the variables are those of the context.
func files36(context map[string]any_) (t *Template, work string) {
	root := Scratch()
	work = path.Join(root, "work")
	Assume(os.Mkdir(work, 0755) == nil && os.Chdir(work) == nil)
	if context == nil {
		context = map[string]any_{}
	}
	options := DefaultOptions()
	for _, o := range []Options{Net, Git, Logging, Extension, Runtime} {
		options[o] = false
	}
	t, err := NewTemplate(work, collections.AsDictionary(context), "", options)
	Assert(err == nil, "the template is created")
	return t, work
}

func shown36(t *Template, code string) (result string, failed bool) {
	var err error
	Assert(!Catch(func() { result, err = t.ProcessContent(code, ".") }), "no panic")
	Observe("result", result)
	Observe("failed", err != nil)
	return result, err != nil
}

// Every function asking for the kind, the size and the permissions of a file: missing, file of any owner permissions and 0 to 2 characters, folder of any owner permissions,
// link to each of them, link to nothing, name within something that is not a folder; relative or full path.
func Verif_C36_kinds() {
	t, work := files36(nil)
	mode := os.FileMode(0444 + 0100*Choose(4)&0300)
	kind := Choose(7)
	name := "f"
	exists, folder := true, false
	size := Choose(3)
	switch kind {
	case 0:
		exists = false
	case 1, 3:
		PutFile("f", "ab"[:size], mode)
	case 2, 4:
		Assume(os.Mkdir("f", mode|0100) == nil)
		folder = true
	case 5:
		Assume(os.Symlink("nothing", "f") == nil)
		exists = false
	case 6:
		PutFile("g", "", 0644)
		name = "g/f"
		exists = false
	}
	if kind == 3 || kind == 4 {
		Assume(os.Symlink("f", "l") == nil)
		name = "l"
	}
	if Choose(2) == 1 {
		name = path.Join(work, name)
	}
	t.Context().Set("f", name)
	before := Tree(work)
	type answer struct {
		functions string
		want      any_
	}
	answers := []answer{
		{"isDir isDirectory isFolder", folder}, {"isFile", !folder}, {"isReadable", true}, {"isWriteable", mode&0200 != 0}, {"isExecutable", mode&0100 != 0 && !folder},
		{"mode fileMode", mode.String()}, {"size fileSize", size},
	}
	if folder {
		answers[5].want, answers = "d"+(mode | 0100).String()[1:], answers[:6]
	}
	a := answers[Choose(len(answers))]
	for _, f := range strings.Fields(a.functions) {
		result, failed := shown36(t, "{{ "+f+" .f }}")
		Assert(failed == !exists, "a question on a file that does not exist is an error")
		if exists {
			Assert(result == fmt.Sprint(a.want), "the answer is the state of the file")
		}
	}
	for _, f := range []string{"exists", "fileExists", "isExist"} {
		result, failed := shown36(t, "{{ "+f+" .f }}")
		if kind == 6 {
			// Within something that is not a folder: an error or the answer false
			Assert(failed || result == "false", "the file does not exist")
			continue
		}
		Assert(!failed && result == fmt.Sprint(exists), "the file exists or not")
	}
	Assert(SameFiles(before, Tree(work)), "nothing is modified")
	Reach("end")
}

// load of a file of up to 3 characters, as text or as bytes, by each of its names; of a missing file, of a folder, with too many arguments.
func Verif_C36_load() {
	t, work := files36(nil)
	content := Str(3, "a\n {\x00\xff")
	kind := Choose(4)
	switch kind {
	case 0, 3:
		PutFile("f", content, 0644)
	case 2:
		Assume(os.Mkdir("f", 0755) == nil)
	}
	before := Tree(work)
	f := []string{"load", "read", "readFrom"}[Choose(3)]
	switch {
	case kind == 3:
		_, failed := shown36(t, "{{ "+f+` "f" true true }}`)
		Assert(failed, "too many arguments are an error")
	default:
		for _, extra := range []string{"", "false"} {
			result, failed := shown36(t, "{{ "+f+` "f" `+extra+" }}")
			Assert(failed == (kind != 0), "a file that cannot be read is an error")
			if kind == 0 {
				Assert(result == content, "the content is given unchanged")
			}
		}
		result, failed := shown36(t, "{{ "+f+` "f" true }}`)
		Assert(failed == (kind != 0), "a file that cannot be read is an error")
		if kind == 0 {
			want := make([]string, len(content))
			for i := range want {
				want[i] = fmt.Sprint(content[i])
			}
			Assert(result == "["+strings.Join(want, " ")+"]", "the content is given as bytes")
		}
	}
	Assert(SameFiles(before, Tree(work)), "nothing is modified")
	Reach("end")
}

// save of a text of up to 3 characters, a number, a boolean, a list, a map, in a new or existing file, by each of its names, then load.
func Verif_C36_save() {
	values := []any_{nil, 12, 2.5, true, []any_{1, "b"}, map[string]any_{"k": 1}, []any_{}}
	kind := Choose(len(values))
	if kind == 0 {
		values[0] = Str(3, "a\n {\x00\xff")
	}
	t, work := files36(map[string]any_{"v": values[kind], "f": "f"})
	before := Tree(work)
	if Choose(2) == 1 {
		PutFile("f", "previous content", 0600)
		before = Tree(work)
	}
	PutFile("other", "x", 0644)
	before = With(before, File{"other", "x", 0644})
	mode := os.FileMode(0644)
	if old, ok := Find(before, "f"); ok {
		mode = old.Mode
	}
	want := fmt.Sprint(t.Context().Get("v"))
	if kind == 6 {
		want = ""
	}
	f := []string{"save", "write", "writeTo"}[Choose(3)]
	result, failed := shown36(t, "{{ "+f+" .f .v }}{{ load .f }}")
	Assert(!failed, "the value is saved")
	if kind == 6 {
		// An empty list is either a list without bytes or a list that is printed
		if file, _ := Find(Tree(work), "f"); file.Content != "" {
			want = fmt.Sprint(t.Context().Get("v"))
		}
	}
	Assert(result == want, "what is saved is what is loaded")
	Assert(SameFiles(Tree(work), With(before, File{"f", want, mode})), "the file holds the value, the others are unchanged")
	Reach("end")
}

// The bytes of a file of up to 3 characters saved in another file.
func Verif_C36_bytes() {
	t, work := files36(nil)
	content := Str(3, "a\n {\x00\xff")
	PutFile("f", content, 0644)
	before := Tree(work)
	code := []string{`{{ load "f" true | save "g" }}`, `{{ save "g" (read "f" true) }}`, `{{ $b := load "f" true }}{{ save "g" $b }}`}[Choose(3)]
	result, failed := shown36(t, code)
	Assert(!failed && result == "", "the bytes are saved")
	Assert(SameFiles(Tree(work), With(before, File{"g", content, 0644})), "the copy has the same content")
	Reach("end")
}

// save in a folder that exists, that does not exist, whose parent does not exist, that is a file, and over a folder.
func Verif_C36_places() {
	t, work := files36(map[string]any_{"v": Str(2, "ab")})
	PutFile("d/x", "x", 0644)
	name := []string{"d/f", "new/f", "new/deep/f", "d/x/f", "d", "d/../e"}[Choose(6)]
	if Choose(2) == 1 {
		name = path.Join(work, name)
	}
	t.Context().Set("f", name)
	before := Tree(work)
	_, failed := shown36(t, "{{ save .f .v }}")
	after := Tree(work)
	rel := strings.TrimPrefix(path.Clean(name), work+"/")
	switch rel {
	case "d/f", "new/f", "e":
		Assert(!failed, "the value is saved")
	case "d", "d/x/f":
		Assert(failed, "a value that cannot be saved is an error")
	}
	want := before
	if !failed {
		want = With(before, File{rel, t.Context().Get("v").(string), 0644})
	}
	Assert(SameFiles(after, want), "only the file is written")
	Reach("end")
}

// glob of up to 2 patterns among patterns matching no, one or several files, a folder, a text.
func Verif_C36_glob() {
	t, work := files36(nil)
	for _, f := range []string{"b.x", "a.x", "sub/c.x"} {
		PutFile(f, "", 0644)
	}
	values := []struct{ arg, want string }{{"*.x", "a.x b.x"}, {"?.y", ""}, {"[b]*", "b.x"}, {"sub/*", "sub/c.x"}, {"a.x", "a.x"}, {"z", "z"}, {work + "/a*", work + "/a.x"}}
	f := []string{"glob", "expand"}[Choose(2)]
	code, want := "{{ range "+f, []string{}
	for n := Choose(3); n > 0; n-- {
		v := values[Choose(len(values))]
		code += fmt.Sprintf(" %q", v.arg)
		if v.want != "" {
			want = append(want, strings.Fields(v.want)...)
		}
	}
	result, err := t.ProcessContent(code+" }}{{ . }};{{ end }}", ".")
	Assert(err == nil, "the patterns are expanded")
	list := strings.Split(result, ";")
	Observe("number", len(list))
	Assert(len(list) == len(want)+1, "every file that matches is given once per pattern")
	for i := range want {
		Assert(list[i] == want[i], "the files that match are given in order")
	}
	Reach("end")
}

// joinPath of up to 3 elements of up to 2 characters, pwd, and lookPath of an executable, of a file that is not and of a missing one.
func Verif_C36_paths() {
	t, work := files36(nil)
	switch Choose(3) {
	case 0:
		n := Choose(3 + Tier())
		var parts []string
		code := "{{ joinPath"
		for i := 0; i < n; i++ {
			name := string("abc"[i])
			parts = append(parts, Str(2, "a./"))
			t.Context().Set(name, parts[i])
			code += " ." + name
		}
		result, failed := shown36(t, code+" }}")
		Assert(!failed && result == path.Join(parts...), "the elements are joined")
	case 1:
		result, err := t.ProcessContent("{{ "+[]string{"pwd", "currentDir"}[Choose(2)]+" }}", ".")
		Assert(err == nil && result == work, "the current folder is given")
	case 2:
		bin := path.Join(work, "bin")
		PutFile(path.Join(bin, "tool"), "x", 0755)
		PutFile(path.Join(bin, "data"), "x", 0644)
		saved := os.Getenv("PATH")
		os.Setenv("PATH", path.Join(work, "none")+":"+bin)
		defer os.Setenv("PATH", saved)
		i := Choose(3)
		result, err := t.ProcessContent("{{ "+[]string{"lookPath", "which", "whereIs", "look", "type"}[Choose(5)]+fmt.Sprintf(" %q }}", []string{"tool", "data", "missing"}[i]), ".")
		Assert(err == nil, "there is no error")
		Assert(result == []string{path.Join(bin, "tool"), "", ""}[i], "the executable of this name is given, or nothing")
	}
	Reach("end")
}
