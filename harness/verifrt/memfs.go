package verifrt

import (
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"
)

// In-memory model of the operating system used by the engine only: os.X is redirected to memX below.
// (The native replay uses the real functions inside a scratch folder.)

type memNode struct {
	name string
	mode os.FileMode
	data []byte
	link string
	kids map[string]*memNode
}

// MemLog lists the modifying operations made on the file system, in order.
var memLog []string

var memRoot = memNewRoot()
var memCwd = "/scratch"
var memEnv = map[string]string{"HOME": "/scratch", "PATH": "/usr/bin:/bin"}
var memTmp = 0

type memHandle struct {
	name string
	node *memNode
	pos  int
	kind int // 0 file, 1 stdin, 2 stdout, 3 stderr
}

var memHandles = map[*os.File]*memHandle{}
var memOut, memErrOut []byte

func memNewRoot() *memNode {
	r := &memNode{name: "/", mode: os.ModeDir | 0755, kids: map[string]*memNode{}}
	for _, n := range []string{"scratch", "tmp"} {
		r.kids[n] = &memNode{name: n, mode: os.ModeDir | 0755, kids: map[string]*memNode{}}
	}
	return r
}

func memAbs(p string) string {
	if p == "" {
		return ""
	}
	if p[0] != '/' {
		p = memCwd + "/" + p
	}
	return path.Clean(p)
}

// memLookup resolves p; follow: resolve the last component when it is a link.
func memLookup(p string, follow bool) (*memNode, *memNode, string, error) {
	if p == "" {
		return nil, nil, "", syscall.ENOENT
	}
	slash := len(p) > 1 && p[len(p)-1] == '/'
	n, dir, base, err := memWalk(memAbs(p), follow || slash, 0)
	if err == nil && slash && !n.mode.IsDir() {
		return nil, nil, "", syscall.ENOTDIR
	}
	return n, dir, base, err
}

func memWalk(p string, follow bool, depth int) (*memNode, *memNode, string, error) {
	if depth > 40 {
		return nil, nil, "", syscall.ELOOP
	}
	cur := memRoot
	if p == "/" {
		return cur, nil, "/", nil
	}
	parts := strings.Split(p[1:], "/")
	at := ""
	for i, part := range parts {
		if cur.kids == nil {
			return nil, nil, "", syscall.ENOTDIR
		}
		k := cur.kids[part]
		last := i == len(parts)-1
		if k == nil {
			if last {
				return nil, cur, part, syscall.ENOENT
			}
			return nil, nil, "", syscall.ENOENT
		}
		if k.mode&os.ModeSymlink != 0 && (!last || follow) {
			t := k.link
			if !strings.HasPrefix(t, "/") {
				t = at + "/" + t
			}
			for _, r := range parts[i+1:] {
				t += "/" + r
			}
			return memWalk(path.Clean(t), follow, depth+1)
		}
		if last {
			return k, cur, part, nil
		}
		cur = k
		at += "/" + part
	}
	return nil, nil, "", syscall.ENOENT
}

func memPathErr(op, p string, err error) error { return &os.PathError{Op: op, Path: p, Err: err} }

type memInfo struct {
	n *memNode
	s string
}

func (i memInfo) Name() string       { return i.s }
func (i memInfo) Size() int64        { return int64(len(i.n.data)) }
func (i memInfo) Mode() os.FileMode  { return i.n.mode }
func (i memInfo) ModTime() time.Time { return time.Time{} }
func (i memInfo) IsDir() bool        { return i.n.mode.IsDir() }
func (i memInfo) Sys() interface{}   { return nil }

func memStat(p string) (os.FileInfo, error) {
	n, _, _, err := memLookup(p, true)
	if err != nil {
		return nil, memPathErr("stat", p, err)
	}
	return memInfo{n, path.Base(p)}, nil
}

func memLstat(p string) (os.FileInfo, error) {
	n, _, _, err := memLookup(p, false)
	if err != nil {
		return nil, memPathErr("lstat", p, err)
	}
	return memInfo{n, path.Base(p)}, nil
}

func memReadFile(p string) ([]byte, error) {
	n, _, _, err := memLookup(p, true)
	if err != nil {
		return nil, memPathErr("open", p, err)
	}
	if n.mode.IsDir() {
		return nil, memPathErr("read", p, syscall.EISDIR)
	}
	return append([]byte{}, n.data...), nil
}

func memWriteFile(p string, data []byte, perm os.FileMode) error {
	n, dir, base, err := memLookup(p, true)
	if err != nil {
		if dir == nil {
			return memPathErr("open", p, err)
		}
		n = &memNode{name: base, mode: perm &^ 0022 & 0777}
		dir.kids[base] = n
	}
	if n.mode.IsDir() {
		return memPathErr("open", p, syscall.EISDIR)
	}
	n.data = append([]byte{}, data...)
	memLog = append(memLog, "write "+memAbs(p))
	return nil
}

func memMkdir(p string, perm os.FileMode) error {
	n, dir, base, err := memLookup(p, false)
	if n != nil {
		return memPathErr("mkdir", p, syscall.EEXIST)
	}
	if dir == nil {
		return memPathErr("mkdir", p, err)
	}
	dir.kids[base] = &memNode{name: base, mode: os.ModeDir | perm&0777, kids: map[string]*memNode{}}
	memLog = append(memLog, "mkdir "+memAbs(p))
	return nil
}

func memMkdirAll(p string, perm os.FileMode) error {
	p = memAbs(p)
	if n, _, _, err := memLookup(p, true); err == nil {
		if n.mode.IsDir() {
			return nil
		}
		return memPathErr("mkdir", p, syscall.ENOTDIR)
	}
	if d := path.Dir(p); d != p {
		if err := memMkdirAll(d, perm); err != nil {
			return err
		}
	}
	return memMkdir(p, perm)
}

func memRemove(p string) error {
	n, dir, base, err := memLookup(p, false)
	if err != nil {
		return memPathErr("remove", p, err)
	}
	if len(n.kids) > 0 {
		return memPathErr("remove", p, syscall.ENOTEMPTY)
	}
	delete(dir.kids, base)
	memLog = append(memLog, "remove "+memAbs(p))
	return nil
}

func memRemoveAll(p string) error {
	n, dir, base, _ := memLookup(p, false)
	if n != nil && dir != nil {
		delete(dir.kids, base)
		memLog = append(memLog, "removeall "+memAbs(p))
	}
	return nil
}

func memRename(from, to string) error {
	n, dir, base, err := memLookup(from, false)
	if err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	o, tdir, tbase, err := memLookup(to, false)
	if tdir == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	if o != nil && o.mode.IsDir() {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EEXIST}
	}
	delete(dir.kids, base)
	n.name = tbase
	tdir.kids[tbase] = n
	memLog = append(memLog, "rename "+memAbs(from)+" "+memAbs(to))
	return nil
}

func memReadlink(p string) (string, error) {
	n, _, _, err := memLookup(p, false)
	if err != nil {
		return "", memPathErr("readlink", p, err)
	}
	if n.mode&os.ModeSymlink == 0 {
		return "", memPathErr("readlink", p, syscall.EINVAL)
	}
	return n.link, nil
}

func memSymlink(old, p string) error {
	n, dir, base, err := memLookup(p, false)
	if n != nil {
		return &os.LinkError{Op: "symlink", Old: old, New: p, Err: syscall.EEXIST}
	}
	if dir == nil {
		return &os.LinkError{Op: "symlink", Old: old, New: p, Err: err}
	}
	dir.kids[base] = &memNode{name: base, mode: os.ModeSymlink | 0777, link: old}
	return nil
}

func memChdir(p string) error {
	n, _, _, err := memLookup(p, true)
	if err != nil || !n.mode.IsDir() {
		return memPathErr("chdir", p, syscall.ENOENT)
	}
	memCwd = memAbs(p)
	return nil
}

func memGetwd() (string, error) { return memCwd, nil }

func memGetenv(k string) string { return memEnv[k] }

func memLookupEnv(k string) (string, bool) {
	v, ok := memEnv[k]
	return v, ok
}

func memSetenv(k, v string) error {
	memEnv[k] = v
	return nil
}

func memUnsetenv(k string) error {
	delete(memEnv, k)
	return nil
}

func memEnviron() (r []string) {
	for k, v := range memEnv {
		r = append(r, k+"="+v)
	}
	sort.Strings(r)
	return
}

func memExpandEnv(s string) string { return os.Expand(s, memGetenv) }

func memTempDir() string {
	if d := memEnv["TMPDIR"]; d != "" {
		return d
	}
	return "/tmp"
}

func memTempName(pattern string) string {
	memTmp++
	id := string(rune('0' + memTmp%10))
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		return pattern[:i] + "7" + id + pattern[i+1:]
	}
	return pattern + "7" + id
}

func memMkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = memTempDir()
	}
	p := path.Join(dir, memTempName(pattern))
	return p, memMkdir(p, 0700)
}

func memCreateTemp(dir, pattern string) (*os.File, error) {
	if dir == "" {
		dir = memTempDir()
	}
	return memOpenFile(path.Join(dir, memTempName(pattern)), os.O_RDWR|os.O_CREATE, 0600)
}

func memOpen(p string) (*os.File, error) { return memOpenFile(p, os.O_RDONLY, 0) }

func memCreate(p string) (*os.File, error) {
	return memOpenFile(p, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func memOpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	n, dir, base, err := memLookup(p, true)
	if err != nil {
		if dir == nil || flag&os.O_CREATE == 0 {
			return nil, memPathErr("open", p, err)
		}
		n = &memNode{name: base, mode: perm & 0755}
		dir.kids[base] = n
		memLog = append(memLog, "write "+memAbs(p))
	}
	if flag&os.O_TRUNC != 0 {
		n.data = nil
	}
	f := new(os.File)
	memHandles[f] = &memHandle{name: p, node: n}
	return f, nil
}

func memNewFile(fd uintptr, name string) *os.File {
	f := new(os.File)
	memHandles[f] = &memHandle{name: name, kind: int(fd) + 1}
	return f
}

func memFileName(f *os.File) string { return memHandles[f].name }

func memFileClose(f *os.File) error { return nil }

func memFileFd(f *os.File) uintptr { return uintptr(9) }

func memFileWrite(f *os.File, b []byte) (int, error) {
	h := memHandles[f]
	switch h.kind {
	case 2:
		memOut = append(memOut, b...)
	case 3:
		memErrOut = append(memErrOut, b...)
	case 0:
		h.node.data = append(h.node.data[:h.pos:h.pos], b...)
		h.pos += len(b)
	}
	return len(b), nil
}

func memFileWriteString(f *os.File, s string) (int, error) { return memFileWrite(f, []byte(s)) }

func memFileRead(f *os.File, b []byte) (int, error) {
	h := memHandles[f]
	if h.node == nil || h.pos >= len(h.node.data) {
		return 0, io.EOF
	}
	n := copy(b, h.node.data[h.pos:])
	h.pos += n
	return n, nil
}

func memFileStat(f *os.File) (os.FileInfo, error) {
	h := memHandles[f]
	if h.node == nil {
		return memInfo{&memNode{mode: os.ModeCharDevice | os.ModeDevice}, h.name}, nil
	}
	return memInfo{h.node, path.Base(h.name)}, nil
}

func memNames(n *memNode) (r []string) {
	for k := range n.kids {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func memFileReaddirnames(f *os.File, n int) ([]string, error) {
	return memNames(memHandles[f].node), nil
}

// memReadDirNames stands for path/filepath.readDirNames.
func memReadDirNames(p string) ([]string, error) {
	n, _, _, err := memLookup(p, true)
	if err != nil {
		return nil, memPathErr("open", p, err)
	}
	if !n.mode.IsDir() {
		return nil, memPathErr("readdirent", p, syscall.ENOTDIR)
	}
	return memNames(n), nil
}

func memReadDir(p string) ([]os.DirEntry, error) {
	names, err := memReadDirNames(p)
	if err != nil {
		return nil, err
	}
	var r []os.DirEntry
	for _, s := range names {
		i, _ := memLstat(p + "/" + s)
		r = append(r, fs.FileInfoToDirEntry(i))
	}
	return r, nil
}
