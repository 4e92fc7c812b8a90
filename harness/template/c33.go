package template

import (
	"fmt"
	"os"
	"path"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C33_command", Verif_C33_command)
	Register("Verif_C33_binary", Verif_C33_binary)
	Register("Verif_C33_line", Verif_C33_line)
	Register("Verif_C33_script", Verif_C33_script)
	Register("Verif_C33_file", Verif_C33_file)
	Register("Verif_C33_failure", Verif_C33_failure)
	Register("Verif_C33_data", Verif_C33_data)
	Register("Verif_C33_alias", Verif_C33_alias)
	Register("Verif_C33_globs", Verif_C33_globs)
}

// shell33 is a template whose folder is work, with programs that record how they are called.
type shell33 struct {
	*Template
	root, work, bin, tmp string
	before          []File
}

func newShell(context any_, out, errors string, code int) *shell33 {
	s := &shell33{root: Scratch()}
	s.work = path.Join(s.root, "work")
	s.bin, s.tmp = Programs()
	Assume(os.Mkdir(s.work, 0755) == nil)
	Program(path.Join(s.bin, "tool"), out, errors, code)
	Program(path.Join(s.bin, "bash"), out, errors, code)
	Program(path.Join(s.bin, "prog"), out, errors, code)
	Input(s.root, "the input")
	os.Setenv("VALUE", "v 1")
	options := DefaultOptions()
	for _, o := range []Options{Sprig, Net, OS, Git, Logging, Extension} {
		options[o] = false
	}
	t, err := NewTemplate(s.work, context, "", options)
	Assert(err == nil, "the template is created")
	s.Template = t
	s.before = Tree(s.work)
	return s
}

// check tells if exactly one program was executed, as requested, and that nothing is left behind.
func (s *shell33) check(program string, args ...string) (e Execution) {
	list := Executions()
	Observe("executions", len(list))
	Assert(len(list) == 1, "one program is executed")
	e = list[0]
	Observe("args", len(e.Args))
	Assert(e.Program == path.Join(s.bin, program), "the requested program is executed")
	Assert(e.Dir == s.work, "it runs in the folder of the template")
	Assert(e.Stdin == "the input", "it reads the standard input")
	Assert(e.Value == "v 1", "it gets the environment")
	if args != nil {
		Assert(sameStrings(e.Args, args), "it gets exactly the arguments given")
	}
	s.clean()
	return
}

func (s *shell33) clean() {
	Assert(len(Tree(s.tmp)) == 0, "no temporary file is left")
	Assert(SameFiles(Tree(s.work), s.before), "the folder of the template is not changed")
}

// outcome of an execution that ends with the code.
func (s *shell33) result(result any_, err error, out, errors string, code int) {
	Observe("failed", err != nil)
	if code == 0 {
		Assert(err == nil, "no failure is reported")
		Assert(EqTyped(result, out), "the result is what the command prints")
		return
	}
	Assert(err != nil, "the failure of the command is reported")
	Assert(strings.Contains(err.Error(), errors) && strings.Contains(err.Error(), fmt.Sprint("exit status ", code)), "the failure tells the status and what the command printed on its standard error")
}

// arguments chooses up to n arguments: text (any text of up to 2 characters), a number, a boolean; and tells their printed form.
func arguments33(n int, alphabet string) (args []any_, printed []string) {
	printed = []string{}
	for n = Choose(n + 1); n > 0; n-- {
		switch Choose(3) {
		case 0:
			s := Str(2, alphabet)
			args, printed = append(args, s), append(printed, s)
		case 1:
			args, printed = append(args, 12), append(printed, "12")
		case 2:
			args, printed = append(args, true), append(printed, "true")
		}
	}
	return
}

// run of a command of one word with up to 2 arguments: text of up to 2 characters, numbers, booleans;
// the command succeeds or fails; called as a function or from a template.
func Verif_C33_command() {
	code := []int{0, 3}[Choose(2)]
	s := newShell(nil, "out\n", "bad", code)
	command := "tool"
	args, printed := arguments33(2, "a \"'$\\-;|\n")
	if Choose(2) == 0 {
		result, err := s.run(command, args...)
		s.result(result, err, "out\n", "bad", code)
	} else {
		context := collections.CreateDictionary()
		content := "{{ run .c"
		context.Set("c", command)
		for i := range args {
			context.Set(fmt.Sprint("a", i), args[i])
			content += fmt.Sprint(" .a", i)
		}
		s.context = context
		s.options[StrictErrorCheck] = true
		result, err := s.ProcessContent(content+" }}", path.Join(s.work, "file"))
		if code == 0 {
			s.result(result, err, "out\n", "bad", code)
		} else {
			s.result(nil, err, "", "bad", code)
		}
	}
	s.check("tool", printed...)
	Reach("end")
}

// run and exec of a binary program given with its full path or by its name, with up to 2 arguments.
func Verif_C33_binary() {
	s := newShell(nil, "", "", 0)
	program := path.Join(s.bin, "print")
	Echo(program)
	command := []string{"print", program}[Choose(2)]
	f := s.run
	if Choose(2) == 1 {
		f = s.exec
	}
	args, printed := arguments33(2, "a \"'$")
	result, err := f(command, append([]any_{"text", "b"}, args...)...)
	Assert(err == nil, "no failure is reported")
	Assert(strings.TrimSpace(fmt.Sprint(result)) == strings.TrimSpace(strings.Join(append([]string{"text", "b"}, printed...), " ")), "the program gets its arguments")
	s.clean()
	Reach("end")
}

// run of a command line (text of up to 3 characters within and blanks around, or several lines): given to the default shell in a temporary script, with up to 2 arguments.
func Verif_C33_line() {
	code := []int{0, 3}[Choose(2)]
	s := newShell(nil, "out\n", "bad", code)
	line := "echo " + Str(2+Tier(), "a \"'$;|>\n") + ";x"
	args, printed := arguments33(2, "a'$")
	blank := []string{"", " \n"}[Choose(2)]
	result, err := s.run(blank+line+blank, args...)
	s.result(result, err, "out\n", "bad", code)
	e := s.check("bash")
	Assert(len(e.Args) == 1 && strings.HasPrefix(e.Args[0], s.tmp+"/"), "the shell gets a temporary script")
	want := line
	if len(printed) > 0 {
		want += " " + strings.Join(printed, " ")
	}
	_, body, _ := strings.Cut(e.Files[0], "\n")
	Assert(strings.TrimSuffix(body, "\n") == want, "the script is the command line followed by the arguments")
	Reach("end")
}

// run of a script with an interpreter line (with or without option, blanks): given to the interpreter in a temporary file.
func Verif_C33_script() {
	code := []int{0, 3}[Choose(2)]
	s := newShell(nil, "out\n", "bad", code)
	option := []string{"", "-o", "sub"}[Choose(3)]
	interpreter := []string{"prog", path.Join(s.bin, "prog")}[Choose(2)]
	first := []string{"#!", "#! ", "  #!  "}[Choose(3)] + interpreter
	if option != "" {
		first += []string{" ", "\t "}[Choose(2)] + option
	}
	body := "a" + Str(2+Tier(), "a #!\n\"$") + "z"
	result, err := s.run(first+[]string{"", "  "}[Choose(2)]+"\n"+body, nil...)
	s.result(result, err, "out\n", "bad", code)
	e := s.check("prog")
	if option != "" {
		Assert(len(e.Args) == 2 && e.Args[0] == option, "the option of the interpreter is given first")
		e.Args, e.Files = e.Args[1:], e.Files[1:]
	}
	Assert(len(e.Args) == 1 && strings.HasPrefix(e.Args[0], s.tmp+"/"), "the interpreter gets a temporary script")
	_, source, _ := strings.Cut(e.Files[0], "\n")
	Assert(source == body, "the script is the source given")
	Reach("end")
}

// run of a file of the folder of the template holding a script or a command line, by its name, path relative or absolute, with up to 2 arguments.
func Verif_C33_file() {
	code := []int{0, 3}[Choose(2)]
	s := newShell(nil, "out\n", "bad", code)
	name := []string{"job", "sub/job.sh"}[Choose(2)]
	kind := Choose(5)
	content := []string{"#!prog\na\nb\n", "#! prog -o\n x\n", "tool\n", "tool p  q\n", "tool 'r'"}[kind]
	file := path.Join(s.work, name)
	PutFile(file, content, 0644)
	s.before = Tree(s.work)
	args, printed := arguments33(2, "a \"'$\n")
	command := []string{name, file}[Choose(2)]
	result, err := s.run(command, args...)
	s.result(result, err, "out\n", "bad", code)
	want := [][]string{{file}, {"-o", file}, {}, {"p", "q"}, {"'r'"}}[kind]
	e := s.check([]string{"prog", "prog", "tool", "tool", "tool"}[kind], append(want, printed...)...)
	if kind < 2 {
		Assert(e.Files[kind] == content, "the file is given to the interpreter")
	}
	Reach("end")
}

// A command, script interpreter, shell or file that does not exist or cannot be executed: reported, nothing executed, nothing left.
func Verif_C33_failure() {
	s := newShell(nil, "out", "", 0)
	PutFile(path.Join(s.work, "job"), "missing\n", 0644)
	PutFile(path.Join(s.work, "args"), "missing a\n", 0644)
	PutFile(path.Join(s.work, "interpreted"), "#!missing\na\n", 0644)
	PutFile(path.Join(s.bin, "plain"), "x", 0644)
	s.before = Tree(s.work)
	var result any_
	var err error
	args, _ := arguments33(1, "a$")
	switch Choose(8) {
	case 0:
		result, err = s.run("missing", args...)
	case 1:
		result, err = s.run("job", args...)
	case 2:
		result, err = s.run("args", args...)
	case 3:
		result, err = s.run("interpreted", args...)
	case 4:
		result, err = s.run("#!missing\na", args...)
	case 5:
		result, err = s.run("plain", args...)
	case 6:
		Assume(os.Remove(path.Join(s.bin, "bash")) == nil)
		result, err = s.run("a b", args...)
	case 7:
		Assume(os.RemoveAll(s.work) == nil)
		result, err = s.exec("tool", args...)
		Assume(os.Mkdir(s.work, 0755) == nil)
		s.before = nil
	}
	Assert(err != nil, "the failure is reported")
	Assert(result == nil, "there is no result")
	Assert(len(Executions()) == 0, "nothing is executed")
	s.clean()
	Reach("end")
}

// exec of a command printing JSON, YAML, HCL, text or nothing: structured data or text.
func Verif_C33_data() {
	outs := []struct {
		out  string
		want any_
	}{{"{\"a\": 1}", map[string]any_{"a": 1}}, {"a: b\n", map[string]any_{"a": "b"}}, {"a = 2\n", map[string]any_{"a": 2}}, {"[1, \"b\"]", []any_{1, "b"}},
		{"some text\n", "some text\n"}, {"", ""}}
	c := outs[Choose(len(outs))]
	code := []int{0, 4}[Choose(2)]
	s := newShell(nil, c.out, "bad", code)
	result, err := s.exec("tool", "a")
	if code != 0 {
		s.result(nil, err, "", "bad", code)
	} else {
		Assert(err == nil, "no failure is reported")
		Observe("result", fmt.Sprint(result))
		switch want := c.want.(type) {
		case string:
			Assert(fmt.Sprint(result) == want || strings.TrimSpace(want) == fmt.Sprint(result), "the result is the text printed")
		default:
			Assert(Eq(collections.AsList([]any_{result}).Get(0), collections.AsList([]any_{want}).Get(0)), "the result is the data printed")
		}
	}
	s.check("tool", "a")
	Reach("end")
}

// Aliases and functions defined over run and exec, with or without default arguments, called twice with other arguments.
func Verif_C33_alias() {
	s := newShell(nil, "12", "bad", 0)
	kind := []string{"run", "exec"}[Choose(2)]
	defaults, printedDefaults := arguments33(1, "d$")
	args, printed := arguments33(1, "a$")
	others, printedOthers := arguments33(1, "b")
	define := s.alias
	if Choose(2) == 1 {
		define = s.localAlias
	}
	_, err := define("f", kind, "tool", defaults...)
	Assert(err == nil, "the alias is defined")
	s.options[StrictErrorCheck] = true
	call := func(args []any_) {
		context := collections.CreateDictionary()
		content := "{{ f"
		for i := range args {
			context.Set(fmt.Sprint("a", i), args[i])
			content += fmt.Sprint(" .a", i)
		}
		s.context = context
		result, err := s.ProcessContent(content+" }}", path.Join(s.work, "file"))
		Assert(err == nil, "the alias is called")
		Assert(result == "12", "the result is what the command prints")
	}
	call(args)
	call(others)
	list := Executions()
	Assert(len(list) == 2, "the command is executed at each call")
	Assert(sameStrings(list[0].Args, append(printedDefaults[:len(printedDefaults):len(printedDefaults)], printed...)), "the first call gets the default arguments and its arguments")
	Assert(sameStrings(list[1].Args, append(printedDefaults[:len(printedDefaults):len(printedDefaults)], printedOthers...)), "the second call gets the default arguments and its arguments")
	s.clean()
	Reach("end")
}

// Arguments that are patterns (with files matching in the current folder or not) and lists are expanded in order.
func Verif_C33_globs() {
	s := newShell(nil, "out", "bad", 0)
	PutFile(path.Join(s.work, "b.x"), "", 0644)
	PutFile(path.Join(s.work, "a.x"), "", 0644)
	Assume(os.Chdir(s.work) == nil)
	s.before = Tree(s.work)
	values := []struct {
		arg  any_
		want []string
	}{{"*.x", []string{"a.x", "b.x"}}, {"?.y", []string{"?.y"}}, {"[b]*", []string{"b.x"}}, {"[", []string{"["}}, {"z", []string{"z"}}}
	var args []any_
	want := []string{}
	for n := Choose(3 + Tier()); n > 0; n-- {
		v := values[Choose(len(values))]
		args, want = append(args, v.arg), append(want, v.want...)
	}
	result, err := s.run("tool", args...)
	s.result(result, err, "out", "bad", 0)
	s.check("tool", want...)
	Reach("end")
}
