// Package verifrt is the harness runtime: the solver engine intercepts these functions (inputs become symbolic,
// assertions become queries); compiled natively they replay a recorded input vector against the real code.
package verifrt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type state struct {
	vec    []string
	pos    int
	obs    []string
	failed []string
	tier   int
	mapord int

	schedule bool // replay the recorded schedule
}

var cur *state

type assumeFailed struct{}

// Diverged reports a native run that does not follow the recorded vector.
type Diverged struct{ Msg string }

func next(kind string) uint64 {
	for cur != nil && kind != "s" && cur.pos < len(cur.vec) && strings.HasPrefix(cur.vec[cur.pos], "s:") {
		cur.pos++ // a choice of schedule
	}
	if cur == nil || cur.pos >= len(cur.vec) {
		panic(Diverged{"vector exhausted at " + kind})
	}
	e := cur.vec[cur.pos]
	cur.pos++
	i := strings.IndexByte(e, ':')
	if e[:i] != kind {
		panic(Diverged{"expected " + kind + " got " + e})
	}
	u, err := strconv.ParseUint(e[i+1:], 10, 64)
	if err != nil {
		panic(Diverged{err.Error()})
	}
	return u
}

// Bool is an arbitrary boolean.
func Bool() bool { return next("t") != 0 }

// Int is an arbitrary int.
func Int() int { return int(next("i")) }

// Int64 is an arbitrary int64.
func Int64() int64 { return int64(next("i")) }

// Uint64 is an arbitrary uint64.
func Uint64() uint64 { return next("i") }

// IntRange is an arbitrary int in [lo,hi].
func IntRange(lo, hi int) int { return int(next("i")) }

// Byte is an arbitrary byte.
func Byte() byte { return byte(next("b")) }

// ByteIn is an arbitrary byte of the alphabet.
func ByteIn(alphabet string) byte { return byte(next("b")) }

// Choose is an arbitrary number in [0,n); every alternative is explored.
func Choose(n int) int {
	if n <= 1 {
		next("c")
		return 0
	}
	return int(next("c"))
}

// Str is an arbitrary string of length 0..max over the alphabet ("" = any byte).
func Str(max int, alphabet string) string { return StrN(int(next("c")), alphabet) }

// StrN is an arbitrary string of length n.
func StrN(n int, alphabet string) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next("b"))
	}
	return string(b)
}

// Float64 is an arbitrary float64 (any bit pattern).
func Float64() float64 { return math.Float64frombits(next("f")) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Assert is the property.
func Assert(c bool, label string) {
	if !c {
		cur.failed = append(cur.failed, label)
	}
}

// Fail is Assert(false).
func Fail(label string) { Assert(false, label) }

// Reach marks a point that some input must reach.
func Reach(label string) {}

// Observe records a value for the comparison of the encoding with the real code.
func Observe(name string, v interface{}) {
	cur.obs = append(cur.obs, name+"="+Render(reflect.ValueOf(v), 0))
}

// Tier is 0 for quick and 1 for thorough.
func Tier() int { return cur.tier }

// MapOrder selects the map iteration model (engine only).
func MapOrder(int) {}

// Terminates makes exceeding the step bound a violation (confirmed natively by a timeout).
func Terminates(steps int) {}

// Symbolic is true in the engine.
func Symbolic() bool { return false }

// And is a non-forking conjunction.
func And(a, b bool) bool { return a && b }

// Or is a non-forking disjunction.
func Or(a, b bool) bool { return a || b }

// Implies is a non-forking implication.
func Implies(a, b bool) bool { return !a || b }

// IteInt is a non-forking conditional.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Concretize forks over the values of x.
func Concretize(x int) int { return x }

// ConcreteStr forks over the values of s.
func ConcreteStr(s string) string { return s }

// Catch runs f and reports whether it panicked.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assumeFailed, Diverged:
				panic(r)
			}
			panicked = true
		}
	}()
	f()
	return false
}

// Render is the canonical text of an observed value.
func Render(v reflect.Value, depth int) string {
	if depth > 8 {
		return "..."
	}
	if !v.IsValid() {
		return "nil"
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return Render(v.Elem(), depth+1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(v.Uint())
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Float64, reflect.Float32:
		return strconv.FormatFloat(v.Float(), 'g', -1, 64)
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	case reflect.Slice, reflect.Array:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, Render(v.Index(i), depth+1))
		}
		return "[" + strings.Join(s, " ") + "]"
	case reflect.Map:
		var s []string
		for _, k := range v.MapKeys() {
			s = append(s, Render(k, depth+1)+":"+Render(v.MapIndex(k), depth+1))
		}
		sort.Strings(s)
		return "map[" + strings.Join(s, " ") + "]"
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Render(v.Elem(), depth+1)
	case reflect.Struct:
		var s []string
		for i := 0; i < v.NumField(); i++ {
			s = append(s, Render(v.Field(i), depth+1))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprintf("<%v>", v.Kind())
}

var registry = map[string]func(){}

// Register makes a harness available to the native replay.
func Register(name string, f func()) { registry[name] = f }

type replayCase struct {
	ID      int      `json:"id"`
	Harness string   `json:"harness"`
	Vec     []string `json:"vec"`
	Tier    int      `json:"tier"`
	MapOrd  int      `json:"mapord"`
	Repeat  int      `json:"repeat"`
	Want    string   `json:"want"`
}

type replayResult struct {
	ID       int      `json:"id"`
	Failed   []string `json:"failed,omitempty"`
	Panic    string   `json:"panic,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Obs      []string `json:"obs,omitempty"`
	Assume   bool     `json:"assume,omitempty"`
	Diverged string   `json:"diverged,omitempty"`
	Timeout  bool     `json:"timeout,omitempty"`
}

func runOne(c replayCase) (res replayResult) {
	res.ID = c.ID
	f := registry[c.Harness]
	if f == nil {
		res.Diverged = "unknown harness " + c.Harness
		return
	}
	st := &state{vec: c.Vec, tier: c.Tier, mapord: c.MapOrd, schedule: os.Getenv("VERIF_SCHEDULE") != ""}
	cur = st
	maxPreemptions = 1
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case assumeFailed:
					res.Assume = true
				case Diverged:
					res.Diverged = x.Msg
				default:
					res.Panic = fmt.Sprint(r)
					s := string(debug.Stack())
					if len(s) > 3000 {
						s = s[:3000]
					}
					res.Stack = s
				}
			}
		}()
		f()
	}()
	res.Failed, res.Obs = st.failed, st.obs
	return
}

// Main replays the cases of the file named by VERIF_REPLAY and prints one JSON result per line on the file VERIF_OUT.
func Main() {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	var cases []replayCase
	if err := json.Unmarshal(b, &cases); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	out, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	to := 10 * time.Second
	if s := os.Getenv("VERIF_CASE_TIMEOUT"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			to = time.Duration(n) * time.Second
		}
	}
	debug.SetMaxStack(64 << 20)
	for _, c := range cases {
		done := make(chan replayResult, 1)
		go func() {
			r := runOne(c)
			for i := 1; i < c.Repeat && r.Panic == "" && len(r.Failed) == 0; i++ {
				r = runOne(c) // map iteration order is random in the native run
			}
			done <- r
		}()
		select {
		case r := <-done:
			j, _ := json.Marshal(r)
			fmt.Fprintln(out, string(j))
		case <-time.After(to):
			j, _ := json.Marshal(replayResult{ID: c.ID, Timeout: true})
			fmt.Fprintln(out, string(j))
			out.Close()
			os.Exit(5) // the goroutine cannot be stopped
		}
	}
	out.Close()
	os.Exit(0)
}

// Eq compares two values structurally without forking on symbolic leaves: maps and slices are compared by content
// whatever their container type, leaves must have the same type and value.
func Eq(a, b interface{}) bool { return eqValue(reflect.ValueOf(a), reflect.ValueOf(b), false) }

// EqTyped is Eq that also requires containers to have the same type.
func EqTyped(a, b interface{}) bool { return eqValue(reflect.ValueOf(a), reflect.ValueOf(b), true) }

func eqValue(a, b reflect.Value, typed bool) bool {
	for a.IsValid() && a.Kind() == reflect.Interface {
		a = a.Elem()
	}
	for b.IsValid() && b.Kind() == reflect.Interface {
		b = b.Elem()
	}
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Kind() != b.Kind() || typed && a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		ok := true
		for i := 0; i < a.Len(); i++ {
			ok = And(ok, eqValue(a.Index(i), b.Index(i), typed))
		}
		return ok
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		ok := true
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() {
				return false
			}
			ok = And(ok, eqValue(a.MapIndex(k), v, typed))
		}
		return ok
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return Or(a.Float() == b.Float(), And(a.Float() != a.Float(), b.Float() != b.Float()))
	case reflect.String:
		return a.String() == b.String()
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqValue(a.Elem(), b.Elem(), typed)
	case reflect.Struct:
		ok := true
		for i := 0; i < a.NumField(); i++ {
			ok = And(ok, eqValue(a.Field(i), b.Field(i), typed))
		}
		return ok
	}
	return false
}

// temporary is the temporary folder before a harness changes it.
var temporary = os.TempDir()

// Scratch makes a new empty folder the working folder and returns its path (in the engine, the folder of the in-memory file system).
func Scratch() string {
	if Symbolic() {
		return "/scratch"
	}
	dir, err := os.MkdirTemp(temporary, "run")
	if err == nil {
		err = os.Chdir(dir)
	}
	if err != nil {
		panic(Diverged{"scratch folder: " + err.Error()})
	}
	return dir
}

// PutFile creates a file and its folders.
func PutFile(name, content string, mode os.FileMode) {
	err := os.MkdirAll(path.Dir(name), 0755)
	if err == nil {
		err = os.WriteFile(name, []byte(content), mode)
	}
	if err != nil {
		panic(Diverged{"file " + name + ": " + err.Error()})
	}
}

// File describes a file of a tree.
type File struct {
	Name, Content string
	Mode          os.FileMode
}

// Tree lists the files below a folder in alphabetical order, with their path relative to it.
func Tree(root string) (files []File) {
	var walk func(string)
	walk = func(folder string) {
		entries, err := os.ReadDir(path.Join(root, folder))
		if err != nil {
			panic(Diverged{"folder " + folder + ": " + err.Error()})
		}
		for _, entry := range entries {
			name := path.Join(folder, entry.Name())
			if entry.IsDir() {
				walk(name)
				continue
			}
			info, _ := os.Lstat(path.Join(root, name))
			if info.Mode()&os.ModeSymlink != 0 {
				link, _ := os.Readlink(path.Join(root, name))
				files = append(files, File{name, link, os.ModeSymlink})
				continue
			}
			content, _ := os.ReadFile(path.Join(root, name))
			files = append(files, File{name, string(content), info.Mode()})
		}
	}
	walk("")
	sort.Slice(files, func(i, j int) bool { return files[i].Name < files[j].Name })
	return
}

// SameFiles compares two trees.
func SameFiles(a, b []File) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		if a[i].Name != b[i].Name || a[i].Mode != b[i].Mode {
			return false
		}
		same = And(same, a[i].Content == b[i].Content)
	}
	return same
}

// With adds or replaces a file in a tree, which stays sorted.
func With(files []File, file File) (result []File) {
	done := false
	for _, f := range files {
		if f.Name == file.Name {
			continue
		}
		if !done && f.Name > file.Name {
			result, done = append(result, file), true
		}
		result = append(result, f)
	}
	if !done {
		result = append(result, file)
	}
	return
}

// Without removes a file of a tree.
func Without(files []File, name string) (result []File) {
	for _, f := range files {
		if f.Name != name {
			result = append(result, f)
		}
	}
	return
}

// Find gives the file of a tree.
func Find(files []File, name string) (File, bool) {
	for _, f := range files {
		if f.Name == name {
			return f, true
		}
	}
	return File{}, false
}

// Parallel runs the functions concurrently and waits for their end. Symbolically every schedule is explored that switches threads at
// the synchronisation operations of the repository, at most Preemptions times when the running thread could go on; natively they are
// goroutines. A panic in one of them is reported when all have ended.
func Parallel(fs ...func()) {
	if cur != nil && cur.schedule {
		runSchedule(fs)
		return
	}
	var wg sync.WaitGroup
	panics := make([]interface{}, len(fs))
	start := make(chan bool)
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != nil {
			panic(p)
		}
	}
}

var maxPreemptions = 1

// Preemptions bounds the number of times a thread is suspended although it could go on.
func Preemptions(n int) { maxPreemptions = n }

type nthread struct {
	id     int
	done   bool
	wait   func() bool
	panicV interface{}
}

// nsched replays the schedule recorded in the vector: one thread runs at a time. The threads hand over by a plain variable: this file
// is compiled without race detection, so that the detector sees only the synchronisation of the code under test.
type nsched struct {
	threads []*nthread
	cur     *nthread
	preempt int
	turn    int
}

var sched *nsched

func (s *nsched) choose(n int) int {
	if n <= 1 {
		return 0
	}
	return int(next("s"))
}

func (s *nsched) runnable(but *nthread) (r []*nthread) {
	for _, t := range s.threads {
		if t != but && !t.done && (t.wait == nil || t.wait()) {
			r = append(r, t)
		}
	}
	return
}

func (s *nsched) next(t *nthread) *nthread {
	r := s.runnable(t)
	if len(r) == 0 {
		for _, o := range s.threads {
			if !o.done {
				select {} // deadlock
			}
		}
		return nil
	}
	return r[s.choose(len(r))]
}

func (s *nsched) await(t *nthread) {
	for s.turn != t.id {
		runtime.Gosched()
	}
}

func (s *nsched) switchTo(t *nthread) {
	me := s.cur
	if t == me {
		return
	}
	s.cur = t
	s.turn = t.id
	s.await(me)
}

func (s *nsched) end(t *nthread) {
	t.done = true
	var n *nthread
	func() {
		defer func() {
			if r := recover(); r != nil {
				t.panicV = r
			}
		}()
		n = s.next(t)
	}()
	if n != nil {
		s.cur = n
		s.turn = n.id
	} else if t.panicV != nil {
		for _, o := range s.threads {
			if !o.done {
				select {} // the schedule cannot be followed
			}
		}
	}
}

func runSchedule(fs []func()) {
	s := &nsched{turn: -1}
	var wg sync.WaitGroup
	for i := range fs {
		s.threads = append(s.threads, &nthread{id: i})
	}
	for i, f := range fs {
		t := s.threads[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.await(t)
			func() {
				defer func() { t.panicV = recover() }()
				f()
			}()
			s.end(t)
		}()
	}
	sched = s
	first := s.threads[s.choose(len(s.threads))]
	s.cur = first
	s.turn = first.id
	wg.Wait()
	sched = nil
	for _, t := range s.threads {
		if t.panicV != nil {
			panic(t.panicV)
		}
	}
}

// Scheduling tells if a recorded schedule is being replayed.
func Scheduling() bool { return sched != nil }

// SchedPoint lets another thread run.
func SchedPoint() {
	s := sched
	if s == nil || s.preempt >= maxPreemptions {
		return
	}
	r := s.runnable(s.cur)
	if len(r) == 0 {
		return
	}
	if c := s.choose(1 + len(r)); c > 0 {
		s.preempt++
		s.switchTo(r[c-1])
	}
}

// WaitFor blocks the running thread until the condition holds.
func WaitFor(cond func() bool) {
	s := sched
	me := s.cur
	me.wait = cond
	for !cond() {
		s.switchTo(s.next(me))
	}
	me.wait = nil
}
