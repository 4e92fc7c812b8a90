package template

import (
	"bytes"
	"os"
	"path"
	"path/filepath"
	"strings"

	multicolor "github.com/coveooss/multilogger/color"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C26_place", Verif_C26_place)
	Register("Verif_C26_names", Verif_C26_names)
	Register("Verif_C26_outcomes", Verif_C26_outcomes)
	Register("Verif_C26_existing", Verif_C26_existing)
	Register("Verif_C26_many", Verif_C26_many)
	Register("Verif_C26_handler", Verif_C26_handler)
}

// job is the processing of one file.
type job struct {
	root           string // scratch folder
	name           string // the file, relative to the source folder
	content        string
	mode           os.FileMode
	result         string // the result of a successful rendering
	fails          bool
	interpreter    bool // the content starts with the interpreter line of gotemplate
	source, target string
	absolute       bool // the file is designated by its full path
	options        OptionsSet
}

func newJob(name string) *job {
	return &job{root: Scratch(), name: name, content: "a{{ 1 }}", result: "a1", mode: 0644, options: OptionsSet{Razor: true}}
}

// relation selects the folders: the target is the source folder, is not specified, is the source folder written differently, another existing folder,
// a new folder, or a new folder within the source folder.
func (j *job) relation(i int) {
	j.source = j.root + "/src"
	switch i {
	case 0:
		j.target = j.source
	case 1:
		j.target = ""
	case 2:
		j.target = j.source + "/"
	case 3:
		j.target = j.root + "/src2/../src"
	case 4:
		j.target = j.root + "/other"
	case 5:
		j.target = j.root + "/new/deep"
	case 6:
		j.target = j.source + "/sub"
	case 7:
		j.source, j.target = j.source+"/", j.source
	}
}

func (j *job) inPlace() bool { return j.target == "" || path.Clean(j.source) == path.Clean(j.target) }

// setup writes the source file and enters the source folder.
func (j *job) setup() {
	for _, d := range []string{"src", "src2", "other"} {
		os.MkdirAll(j.root+"/"+d, 0755)
	}
	PutFile(j.root+"/src/"+j.name, j.content, j.mode)
	os.Chdir(j.root + "/src")
}

func (j *job) strict() bool {
	return j.options[StrictErrorCheck] || strings.HasSuffix(j.name, ".gt") || strings.HasSuffix(j.name, ".template") || strings.HasSuffix(j.name, ".gte")
}

// expected gives the tree after the processing, the text printed, the file returned and if there is an error, according to the documentation.
func (j *job) expected(before []File) (after []File, printed, file string, fails bool) {
	result := j.result
	if j.fails {
		if j.strict() {
			return before, "", "", true
		}
		result = j.content
	}
	target, isTemplate := j.name, false
	for _, suffix := range []string{".gt", ".template"} {
		if strings.HasSuffix(target, suffix) {
			target, isTemplate = strings.TrimSuffix(target, suffix), true
			break
		}
	}
	folder, base := path.Split(target)
	ext := ""
	if i := strings.LastIndex(base, "."); i >= 0 {
		base, ext = base[:i], base[i:]
	}
	if isTemplate {
		if ext == "" && strings.TrimSpace(result) == "" {
			return before, "", "", false
		}
		if !j.options[Overwrite] {
			base += ".generated"
		}
	}
	target = folder + base + ext
	if j.options[OutputStdout] || j.interpreter {
		return before, result, "", false
	}
	if j.inPlace() && result == j.content {
		return before, "", "", false
	}
	source := "src/" + j.name
	destination := "src/" + target
	if !j.inPlace() {
		destination = path.Clean(strings.TrimPrefix(j.target, j.root+"/") + "/" + target)
	}
	after = before
	original, _ := Find(before, source)
	if j.inPlace() && !isTemplate && !j.options[Overwrite] {
		after = Without(after, source)
		original.Name += ".original"
		after = With(after, original)
	}
	mode := j.mode
	if strings.HasPrefix(result, "#!") {
		mode = 0755
	}
	if existing, exists := Find(after, destination); exists {
		mode = existing.Mode
	}
	after = With(after, File{Name: destination, Content: result, Mode: mode})
	if j.inPlace() && isTemplate && j.options[Overwrite] {
		after = Without(after, source)
	}
	return after, "", destination, false
}

func (j *job) template() *Template {
	t, err := NewTemplate(j.root+"/src", map[string]any_{"x": 1}, "", j.options)
	Assert(err == nil, "a template is created")
	t.AddFunctions(dictionary{"raise": raise}, "test", nil)
	os.MkdirAll(j.root+"/temp", 0755)
	t.TempFolder(j.root + "/temp")
	return t
}

// check processes the file and compares everything with the expectations.
func (j *job) check() {
	t := j.template()
	before := Tree(j.root)
	after, text, file, fails := j.expected(before)
	name := j.name
	if j.absolute {
		name = j.root + "/src/" + name
	}
	var out bytes.Buffer
	multicolor.SetOut(&out)
	var resultFile string
	var err error
	Assert(!Catch(func() { resultFile, err = t.ProcessTemplate(name, j.source, j.target) }), "processing a file does not panic")
	tree := Tree(j.root)
	Observe("name", j.name)
	Observe("tree", tree)
	Observe("printed", out.String())
	Observe("error", err != nil)
	Assert((err != nil) == fails, "the failures, and only them, are reported")
	Assert(SameFiles(tree, after), "the files are exactly those expected")
	Assert(out.String() == text, "the console receives exactly what is expected")
	left, _ := os.ReadDir(j.root + "/temp")
	Assert(len(left) == 0, "no temporary file is left")
	if fails {
		return
	}
	if file == "" {
		Assert(resultFile == "", "no file is returned when nothing is written")
	} else {
		path, _ := filepath.Abs(resultFile)
		Assert(path == j.root+"/"+file, "the file written is returned")
	}
}

// Every relation between the source and the target folder (8), overwriting or not, printing or not, template, plain or terraform file, in the source folder or below it, designated by relative or full path.
func Verif_C26_place() {
	j := newJob([]string{"a.txt", "a.txt.gt", "d/b.template", "d/b", "e.tf", "e.tfvars.gt"}[Choose(6)])
	j.relation(Choose(8))
	j.options[Overwrite] = Choose(2) == 1
	j.options[OutputStdout] = Choose(2) == 1
	j.absolute = Choose(2) == 1
	j.mode = []os.FileMode{0644, 0700}[Choose(2)]
	j.setup()
	j.check()
	Reach("end")
}

// Every file name of up to 3 characters (4 when thorough) among "a", "." and "-" with every suffix (none, .gt, .template, .gte, .gtx, .templates, gt), in place or not, overwriting or not.
func Verif_C26_names() {
	base := ConcreteStr(Str(3+Tier(), "a.-"))
	suffix := []string{"", ".gt", ".template", ".gte", ".gtx", ".templates", "gt"}[Choose(7)]
	Assume(base != "" && base != "." && base != ".." && base != "...")
	Assume(!strings.HasSuffix(base, ".") || suffix != "")
	j := newJob(base + suffix)
	j.relation([]int{0, 4}[Choose(2)])
	j.options[Overwrite] = Choose(2) == 1
	j.setup()
	j.check()
	Reach("end")
}

// outcome selects the content: no code, code, code that renders to itself, failure, nothing, interpreter line in the result, interpreter line of gotemplate, undefined value.
func (j *job) outcome(i int) {
	text := Str(1, "a \n")
	switch i {
	case 0:
		j.content, j.result = text, text
	case 1:
		j.content, j.result = text+"{{ .x }}", text+"1"
	case 2:
		j.content, j.result = text+"}}", text+"}}"
	case 3:
		j.content, j.fails = text+`{{ raise "x" }}`, true
	case 4:
		j.content, j.result = text+`{{ "" }}`, text
	case 5:
		j.content, j.result = "#!/bin/sh\n{{ 1 }}", "#!/bin/sh\n1"
	case 6:
		j.content, j.result, j.interpreter = "#! gotemplate\n{{ 1 }}"+text, "1"+text, true
	case 7:
		j.content, j.fails = text+"{{ .none }}", true
	case 8:
		j.content, j.fails = text+"{{ if }}", true
	}
}

// Every kind of content (no code, code, code rendered to itself, failures, blank result, script, interpreter line) with one arbitrary character, template or plain file with and without extension, in place or not, overwriting, printing and strict or not.
func Verif_C26_outcomes() {
	j := newJob([]string{"a.txt", "a.txt.gt", "b.template", "c.gte"}[Choose(4)])
	j.relation([]int{0, 4}[Choose(2)])
	j.outcome(Choose(9))
	j.options[Overwrite] = Choose(2) == 1
	j.options[OutputStdout] = Choose(2) == 1
	j.options[StrictErrorCheck] = Choose(2) == 1
	j.setup()
	j.check()
	Reach("end")
}

// The destination or the file .original already exists (as a file, or as a folder, which makes the writing fail), for every relation, template or plain file, overwriting or not: the source is never lost.
func Verif_C26_existing() {
	j := newJob([]string{"a.txt", "a.txt.gt"}[Choose(2)])
	j.relation(Choose(8))
	j.options[Overwrite] = Choose(2) == 1
	j.setup()
	existing := []string{"src/a.txt.original", "src/a.generated.txt", "src/a.txt", "other/a.txt", "other/a.generated.txt"}[Choose(5)]
	Assume(existing != "src/"+j.name)
	if folder := Choose(2) == 1; folder {
		os.MkdirAll(j.root+"/"+existing, 0755)
		before := Tree(j.root)
		t := j.template()
		var err error
		panicked := Catch(func() { _, err = t.ProcessTemplate(j.name, j.source, j.target) })
		after := Tree(j.root)
		Observe("tree", after)
		if panicked || err != nil {
			Assert(SameFiles(before, after), "nothing is written by a failure")
		}
		Reach("folder")
		return
	}
	PutFile(j.root+"/"+existing, "old", 0600)
	j.check()
	Reach("end")
}

// Three files processed together, each of any outcome among success, failure, unchanged and interpreter line (which prints that file only): the failure of one does not prevent the others.
func Verif_C26_many() {
	root := Scratch()
	options := OptionsSet{Overwrite: Choose(2) == 1}
	same := Choose(2) == 1
	var before, after []File
	var names, files []string
	printed, failures := "", 0
	for _, name := range []string{"a.gt", "b.txt.gt", "c.txt"} {
		j := &job{root: root, name: name, mode: 0644, options: options}
		j.relation(4)
		if same {
			j.relation(0)
		}
		switch Choose(4) {
		case 0:
			j.content, j.result = "{{ 1 }}", "1"
		case 1:
			j.content, j.fails = "{{ if }}", true
		case 2:
			j.content, j.result = "z", "z"
		case 3:
			j.content, j.result, j.interpreter = "#! gotemplate\n{{ .x }}", "1", true
		}
		j.setup()
		before = With(before, File{Name: "src/" + name, Content: j.content, Mode: 0644})
		after = With(after, File{Name: "src/" + name, Content: j.content, Mode: 0644})
		var text, file string
		var fails bool
		after, text, file, fails = j.expected(after)
		printed += text
		if fails {
			failures++
		}
		if file != "" {
			files = append(files, root+"/"+file)
		}
		names = append(names, name)
	}
	j := &job{root: root, options: options}
	t := j.template()
	target := root + "/other"
	if same {
		target = ""
	}
	var out bytes.Buffer
	multicolor.SetOut(&out)
	results, err := t.ProcessTemplates("", target, names...)
	tree := Tree(root)
	Observe("tree", tree)
	Observe("results", len(results))
	Observe("error", err != nil)
	Assert((err != nil) == (failures > 0), "the failures are reported")
	Assert(SameFiles(tree, after), "the files are exactly those expected")
	Assert(out.String() == printed, "the console receives exactly what is expected")
	Assert(sameStrings(results, files), "the files written are returned in order")
	Reach("end")
}

// A custom handler receives the name, the source and the result, and may change the result, claim a change, turn a failure into a success or refuse the result.
func Verif_C26_handler() {
	j := newJob([]string{"a.txt", "a.txt.gt"}[Choose(2)])
	j.relation([]int{0, 4}[Choose(2)])
	j.outcome(Choose(4))
	j.options[StrictErrorCheck] = Choose(2) == 1
	action := Choose(4)
	j.setup()
	t := j.template()
	before := Tree(j.root)
	failed := j.fails && j.strict()
	result := j.result
	if j.fails {
		result = j.content
	}
	calls := 0
	handler := func(name, original string, text *string, changed bool, status error) (bool, error) {
		calls++
		Assert(name == j.name, "the handler receives the name of the file")
		Assert(original == j.content, "the handler receives the source")
		Assert((status != nil) == failed, "the handler receives the failure")
		if !failed {
			Assert(*text == result, "the handler receives the result")
			Assert(changed == (result != j.content), "the handler knows if the content is changed")
		}
		switch action {
		case 1:
			*text = "handled"
			return true, nil
		case 2:
			return true, status
		case 3:
			return false, os.ErrInvalid
		}
		return false, status
	}
	var out bytes.Buffer
	multicolor.SetOut(&out)
	_, err := t.ProcessTemplatesWithHandler(j.source, j.target, handler, j.name)
	tree := Tree(j.root)
	Observe("tree", tree)
	Observe("error", err != nil)
	Assert(calls == 1, "the handler is called once")
	if action == 3 || action != 1 && failed {
		Assert(err != nil && SameFiles(tree, before), "nothing is written by a failure")
		return
	}
	changed := action > 0 || result != j.content
	if action == 1 {
		result = "handled"
	}
	Assert(err == nil, "the handler decides of the failure")
	Assert(out.String() == "", "nothing is printed")
	if !changed && j.inPlace() {
		Assert(SameFiles(tree, before), "nothing is written when nothing is changed")
		Reach("unchanged")
		return
	}
	if j.inPlace() && j.name == "a.txt" {
		f, _ := Find(before, "src/a.txt")
		before = With(before, File{Name: "src/a.txt.original", Content: f.Content, Mode: f.Mode})
	}
	file := map[string]string{"a.txt": "a.txt", "a.txt.gt": "a.generated.txt"}[j.name]
	folder := "other/"
	if j.inPlace() {
		folder = "src/"
	}
	Assert(SameFiles(tree, With(before, File{Name: folder + file, Content: result, Mode: 0644})), "the result of the handler is written")
	Reach("end")
}
