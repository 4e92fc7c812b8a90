package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

// Solver drives one z3 process; the assertion stack mirrors a prefix of the path condition.
type Solver struct {
	ts      *TS
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	bin     string
	depth   int // asserted levels
	defined map[int32]bool
	Queries int
	Time    time.Duration
	Unknown int
	MaxT    time.Duration
	TOms    int
	dead    bool
	log     *os.File
	facts   []string // values of uninterpreted functions
}

func newSolver(ts *TS, bin string, toMS int) (*Solver, error) {
	s := &Solver{ts: ts, bin: bin, TOms: toMS}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin, "-in")
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = bufio.NewWriterSize(w, 1<<16), bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.depth = 0
	s.dead = false
	if f := os.Getenv("GOSYM_SMTLOG"); f != "" {
		s.log, _ = os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644)
	}
	s.send("(set-option :global-declarations true)")
	s.send("(set-option :produce-models true)")
	s.send(fmt.Sprintf("(set-option :timeout %d)", s.TOms))
	return nil
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.close()
	s.start()
}

// ref returns a printable reference to t, defining shared nodes on the way.
func (s *Solver) ref(t *Term) string {
	if t.op == oConst {
		return constSMT(t.sort, t.val)
	}
	if t.op == oVar {
		if !s.defined[t.id] {
			s.defined[t.id] = true
			s.send(fmt.Sprintf("(declare-const %s %s)", t.name, t.sort.smt()))
		}
		return t.name
	}
	n := fmt.Sprintf("t!%d", t.id)
	if s.defined[t.id] {
		return n
	}
	if t.op == oUF {
		s.declare(t)
	}
	if t.size <= 4 {
		return smtNode(t, s.ref)
	}
	body := smtNode(t, s.ref)
	s.defined[t.id] = true
	s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, t.sort.smt(), body))
	return n
}

func (s *Solver) declare(t *Term) {
	if id := -1 - int32(t.val); !s.defined[id] {
		s.defined[id] = true
		s.send(ufs[t.val].declare())
	}
}

func (s *Solver) popTo(n int) {
	if s.depth > n {
		s.send(fmt.Sprintf("(pop %d)", s.depth-n))
		s.depth = n
	}
}

func (s *Solver) push(t *Term) {
	r := s.ref(t)
	s.send("(push 1)")
	s.send("(assert " + r + ")")
	s.depth++
}

// check asserts the pending path condition and the extra terms, and returns sat/unsat/unknown, with a model.
func (s *Solver) check(pc []*Term, extra []*Term, vars []*Term, wantModel bool) (string, map[*Term]uint64) {
	if s.dead {
		return "unknown", nil
	}
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > 2*time.Second && os.Getenv("SLOWQ") != "" {
			fmt.Fprintf(os.Stderr, "slow query %v\n%s\n", d, dumpQuery(pc, extra))
		}
		if d > s.MaxT {
			s.MaxT = d
		}
	}()
	s.Queries++
	for s.depth < len(pc) {
		s.push(pc[s.depth])
	}
	n := 0
	calls := s.ts.ufTerms(pc, extra)
	if len(extra) > 0 || len(calls) > 0 {
		var rs []string
		for _, e := range extra {
			rs = append(rs, s.ref(e))
		}
		axioms := s.axioms(calls)
		s.send("(push 1)")
		for _, r := range rs {
			s.send("(assert " + r + ")")
		}
		if len(calls) > 0 {
			for _, f := range append(axioms, s.facts...) {
				s.send("(assert " + f + ")")
			}
		}
		n = 1
	}
	var res string
	var m map[*Term]uint64
	for tries := 0; ; tries++ {
		s.send("(check-sat)")
		s.in.Flush()
		res = s.readLine()
		if res == "sat" && (wantModel || len(calls) > 0) {
			m = s.model(vars)
			if m == nil {
				res = "unknown"
			}
		}
		if res != "sat" || len(calls) == 0 {
			break
		}
		facts := s.points(m, calls, pc, extra)
		if facts == nil {
			break
		}
		if tries == 0 {
			if g := s.usual(m, calls, pc, extra); g != nil {
				m = g
				break
			}
		}
		if tries == 30 {
			res, m = "unknown", nil
			break
		}
		for _, f := range facts {
			s.send("(assert " + f + ")")
		}
		s.facts = append(s.facts, facts...)
		if len(s.facts) > 200 {
			s.facts = s.facts[100:]
		}
	}
	if n > 0 {
		s.send("(pop 1)")
	}
	if res != "sat" && res != "unsat" {
		if res != "unknown" && res != "timeout" {
			fmt.Fprintln(os.Stderr, "solver:", res)
			s.restart()
		}
		s.Unknown++
		res = "unknown"
	}
	return res, m
}

func (s *Solver) readLine() string {
	ch := make(chan string, 1)
	go func() {
		l, err := s.out.ReadString('\n')
		if err != nil && err != io.EOF {
			l = "error: " + err.Error()
		}
		if err == io.EOF {
			l = "error: eof"
		}
		ch <- strings.TrimSpace(l)
	}()
	select {
	case l := <-ch:
		return l
	case <-time.After(time.Duration(s.TOms)*time.Millisecond*2 + 5*time.Second):
		s.cmd.Process.Kill()
		<-ch
		return "error: hard timeout"
	}
}

func (s *Solver) model(vars []*Term) map[*Term]uint64 {
	m := map[*Term]uint64{}
	var names []string
	var vs []*Term
	for _, v := range vars {
		if s.defined[v.id] {
			names = append(names, v.name)
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return m
	}
	s.send("(get-value (" + strings.Join(names, " ") + "))")
	s.in.Flush()
	// read a balanced s-expression
	depth, started := 0, false
	var sb strings.Builder
	for !started || depth > 0 {
		l := s.readLine()
		if strings.HasPrefix(l, "error") || strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "solver model:", l)
			return nil
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	toks := tokenize(sb.String())
	// ((name value) (name value) ...)
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[v.name] = v
	}
	for i := 0; i < len(toks); i++ {
		if v, ok := byName[toks[i]]; ok && i+1 < len(toks) {
			x := toks[i+1]
			switch {
			case x == "true":
				m[v] = 1
			case x == "false":
				m[v] = 0
			case strings.HasPrefix(x, "#x"):
				var u uint64
				fmt.Sscanf(x[2:], "%x", &u)
				m[v] = u
			case strings.HasPrefix(x, "#b"):
				var u uint64
				for _, c := range x[2:] {
					u = u<<1 | uint64(c-'0')
				}
				m[v] = u
			default:
				return nil
			}
			i++
		}
	}
	return m
}

func tokenize(s string) []string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "(", " "), ")", " ")
	return strings.Fields(s)
}

// dump writes the query as a standalone SMT-LIB2 script.
func dumpQuery(pc []*Term, extra []*Term) string {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	def := map[int32]bool{}
	var ref func(t *Term) string
	ref = func(t *Term) string {
		if t.op == oConst {
			return constSMT(t.sort, t.val)
		}
		if t.op == oVar {
			if !def[t.id] {
				def[t.id] = true
				fmt.Fprintf(&sb, "(declare-const %s %s)\n", t.name, t.sort.smt())
			}
			return t.name
		}
		n := fmt.Sprintf("t!%d", t.id)
		if def[t.id] {
			return n
		}
		if id := -1 - int32(t.val); t.op == oUF && !def[id] {
			def[id] = true
			fmt.Fprintln(&sb, ufs[t.val].declare())
		}
		body := smtNode(t, ref)
		def[t.id] = true
		fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, t.sort.smt(), body)
		return n
	}
	for _, t := range append(append([]*Term{}, pc...), extra...) {
		r := ref(t)
		fmt.Fprintf(&sb, "(assert %s)\n", r)
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

// oneShot runs another solver on a standalone script.
func oneShot(bin string, args []string, script string, to time.Duration) string {
	f, err := os.CreateTemp("", "gosym*.smt2")
	if err != nil {
		return "unknown"
	}
	defer os.Remove(f.Name())
	f.WriteString(script)
	f.Close()
	cmd := exec.Command(bin, append(args, f.Name())...)
	done := make(chan struct{})
	var out []byte
	if err != nil {
		return "unknown"
	}
	go func() { out, _ = cmd.Output(); close(done) }()
	select {
	case <-done:
	case <-time.After(to):
		if cmd.Process != nil {
			cmd.Process.Kill()
		}
		<-done
		return "unknown"
	}
	l := strings.TrimSpace(strings.SplitN(string(out), "\n", 2)[0])
	if l == "sat" || l == "unsat" {
		return l
	}
	return "unknown"
}
