package verifrt

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path"
	"strings"
	"syscall"
)

// Programs executed by the code under test. Natively they are shell scripts that record how they are called; in the engine, starting
// a process (exec.Cmd.Run) records it directly.

// Execution describes how a program was called.
type Execution struct {
	Program string
	Args    []string
	Dir     string
	Stdin   string
	Value   string   // the environment variable VALUE
	Files   []string // content of the arguments that are files
}

type memProgram struct {
	out, errors string
	code        int
	echo        bool
}

var (
	programs = map[string]memProgram{}
	record   string
	executed []Execution
)

// Programs prepares the recording of executions; only the programs of the folder bin are found by their name, and the folder tmp holds the
// temporary files. The folders are emptied; their names do not change, since the code under test may remember where it found a program.
func Programs() (bin, tmp string) {
	programs, executed = map[string]memProgram{}, nil
	folder := "/scratch/programs"
	if !Symbolic() {
		folder = path.Join(temporary, fmt.Sprint("programs", os.Getpid()))
		if err := os.RemoveAll(folder); err != nil {
			panic(Diverged{"folder: " + err.Error()})
		}
	}
	record, bin, tmp = path.Join(folder, "record"), path.Join(folder, "bin"), path.Join(folder, "tmp")
	for _, d := range []string{record, bin, tmp} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(Diverged{"folder: " + err.Error()})
		}
	}
	os.Setenv("PATH", bin)
	os.Setenv("TMPDIR", tmp)
	return
}

// Program creates an executable that prints out and errors, then ends with the code.
func Program(name, out, errors string, code int) {
	quote := func(s string) string { return "'" + strings.ReplaceAll(s, "'", "'\\''") + "'" }
	programs[name] = memProgram{out, errors, code, false}
	PutFile(name, fmt.Sprintf(`#!/bin/sh
PATH=/usr/bin:/bin
r=%s
n=0
while [ -e $r/$n ]; do n=$((n+1)); done
mkdir $r/$n
printf %%s "$0" > $r/$n/program
i=0
for a in "$@"; do
	printf %%s "$a" > $r/$n/arg$i
	if [ -f "$a" ]; then cat "$a" > $r/$n/file$i; fi
	i=$((i+1))
done
pwd > $r/$n/dir
cat > $r/$n/stdin
printf %%s "$VALUE" > $r/$n/value
printf %%s %s
printf %%s %s >&2
exit %d
`, record, quote(out), quote(errors), code), 0755)
}

// Echo creates a binary executable that prints its arguments separated by spaces and ends the line.
func Echo(name string) {
	programs[name] = memProgram{echo: true}
	content := "\x7fELF\x02\x01\x01\x00\x00 {{ @x \xff\n"
	if !Symbolic() {
		b, err := os.ReadFile("/bin/echo")
		if err != nil {
			panic(Diverged{"echo: " + err.Error()})
		}
		content = string(b)
	}
	PutFile(name, content, 0755)
}

// Input gives a content to the standard input of the process.
func Input(folder, content string) {
	name := path.Join(folder, "input")
	PutFile(name, content, 0644)
	f, err := os.Open(name)
	if err != nil {
		panic(Diverged{"input: " + err.Error()})
	}
	os.Stdin = f
}

// Executions lists the programs executed so far.
func Executions() []Execution {
	if Symbolic() {
		return executed
	}
	var list []Execution
	read := func(n int, name string) (string, bool) {
		b, err := os.ReadFile(fmt.Sprintf("%s/%d/%s", record, n, name))
		return string(b), err == nil
	}
	for n := 0; ; n++ {
		var e Execution
		var ok bool
		if e.Program, ok = read(n, "program"); !ok {
			return list
		}
		for i := 0; ; i++ {
			arg, ok := read(n, fmt.Sprint("arg", i))
			if !ok {
				break
			}
			file, _ := read(n, fmt.Sprint("file", i))
			e.Args, e.Files = append(e.Args, arg), append(e.Files, file)
		}
		e.Dir, _ = read(n, "dir")
		e.Dir = strings.TrimSuffix(e.Dir, "\n")
		e.Stdin, _ = read(n, "stdin")
		e.Value, _ = read(n, "value")
		list = append(list, e)
	}
}

func memEaccess(p string, mode uint32) error {
	n, _, _, err := memLookup(p, true)
	if err != nil {
		return err
	}
	if n.mode&0111 == 0 {
		return syscall.EACCES
	}
	return nil
}

type exitError string

func (e exitError) Error() string { return string(e) }

// memRun stands for the Run method of exec.Cmd.
func memRun(c *exec.Cmd) error {
	if c.Err != nil {
		return c.Err
	}
	if c.Dir != "" {
		n, _, _, err := memLookup(c.Dir, true)
		if err == nil && !n.mode.IsDir() {
			err = syscall.ENOTDIR
		}
		if err != nil {
			return memPathErr("chdir", c.Dir, err)
		}
	}
	if err := memEaccess(c.Path, 1); err != nil {
		return memPathErr("fork/exec", c.Path, err)
	}
	p, ok := programs[c.Path]
	if !ok {
		panic(Diverged{"execution of the unknown program " + c.Path})
	}
	e := Execution{Program: c.Path, Args: append([]string(nil), c.Args[1:]...), Dir: c.Dir}
	if c.Dir == "" {
		e.Dir = memCwd
	}
	for _, a := range e.Args {
		content := ""
		if !strings.HasPrefix(a, "/") {
			a = e.Dir + "/" + a
		}
		if n, _, _, err := memLookup(a, true); err == nil && !n.mode.IsDir() {
			content = string(n.data)
		}
		e.Files = append(e.Files, content)
	}
	if c.Stdin != nil {
		for b := make([]byte, 64); ; {
			n, err := c.Stdin.Read(b)
			e.Stdin += string(b[:n])
			if err != nil {
				break
			}
		}
	}
	env := c.Env
	if env == nil {
		env = memEnviron()
	}
	for _, v := range env {
		if strings.HasPrefix(v, "VALUE=") {
			e.Value = v[6:]
		}
	}
	if p.echo {
		io.WriteString(c.Stdout, strings.Join(e.Args, " ")+"\n")
		return nil
	}
	executed = append(executed, e)
	if c.Stdout != nil {
		io.WriteString(c.Stdout, p.out)
	}
	if c.Stderr != nil {
		io.WriteString(c.Stderr, p.errors)
	}
	if p.code != 0 {
		return exitError(fmt.Sprint("exit status ", p.code))
	}
	return nil
}
