package main

import "golang.org/x/tools/go/ssa"

// osModel redirects operating system functions to the in-memory model of package verifrt (interpreted like any other code).
var osModel = map[string]string{
	"os.Stat": "memStat", "os.Lstat": "memLstat", "os.ReadFile": "memReadFile", "os.WriteFile": "memWriteFile", "os.Mkdir": "memMkdir",
	"os.MkdirAll": "memMkdirAll", "os.Remove": "memRemove", "os.RemoveAll": "memRemoveAll", "os.Rename": "memRename", "os.Readlink": "memReadlink",
	"os.Symlink": "memSymlink", "os.Chdir": "memChdir", "os.Getwd": "memGetwd", "os.Getenv": "memGetenv", "os.LookupEnv": "memLookupEnv",
	"os.Setenv": "memSetenv", "os.Unsetenv": "memUnsetenv", "os.Environ": "memEnviron", "os.ExpandEnv": "memExpandEnv", "os.TempDir": "memTempDir",
	"os.MkdirTemp": "memMkdirTemp", "os.CreateTemp": "memCreateTemp", "os.Open": "memOpen", "os.Create": "memCreate", "os.OpenFile": "memOpenFile",
	"os.NewFile": "memNewFile", "(*os.File).Name": "memFileName", "(*os.File).Close": "memFileClose", "(*os.File).Fd": "memFileFd",
	"(*os.File).Write": "memFileWrite", "(*os.File).WriteString": "memFileWriteString", "(*os.File).Read": "memFileRead", "(*os.File).Stat": "memFileStat",
	"(*os.File).Readdirnames": "memFileReaddirnames", "path/filepath.readDirNames": "memReadDirNames", "os.ReadDir": "memReadDir",
	"syscall.Getenv": "memLookupEnv", "os.ReadDir ": "", "(*os/exec.Cmd).Run": "memRun", "internal/syscall/unix.Eaccess": "memEaccess",
}

func osRedirect(p *Program, fn *ssa.Function, name string) *ssa.Function {
	m, ok := osModel[name]
	if !ok || m == "" {
		return nil
	}
	return p.byPath[rtPath].Func(m)
}

func init() {
	reg("os.runtime_args", func(in *Interp, fr *frame, a []Value) Value { return Slice{"gotemplate"} })
	reg("syscall.runtime_envs", func(in *Interp, fr *frame, a []Value) Value { return Slice(nil) })
	reg("internal/syscall/unix.fcntl", func(in *Interp, fr *frame, a []Value) Value { return Tuple{uint64(0), uint64(0)} })
	for _, n := range []string{"sync.runtime_registerPoolCleanup", "internal/godebug.setUpdate", "internal/godebug.registerMetric", "os.runtime_beforeExit", "os/signal.Notify"} {
		reg(n, func(in *Interp, fr *frame, a []Value) Value { return nil })
	}
	reg("syscall.Getrlimit", func(in *Interp, fr *frame, a []Value) Value { return Iface{} })
	reg("golang.org/x/term.IsTerminal", func(in *Interp, fr *frame, a []Value) Value { return false })
	reg("github.com/mattn/go-isatty.IsTerminal", func(in *Interp, fr *frame, a []Value) Value { return false })
	reg("github.com/mattn/go-isatty.IsCygwinTerminal", func(in *Interp, fr *frame, a []Value) Value { return false })
}
