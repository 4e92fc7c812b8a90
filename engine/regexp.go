package main

import (
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"
)

// rx is a compiled regular expression; concrete subjects use the real matcher, symbolic ones a simulation of its
// leftmost-first semantics over the real compiled program.
type rx struct {
	re   *regexp.Regexp
	prog *syntax.Prog
	src  string
	tabs map[int]*[128]bool
	// filters
	needs []byte
	first *[128]bool
}

var rxCache sync.Map

func compileRx(src string) (*rx, error) {
	if r, ok := rxCache.Load(src); ok {
		return r.(*rx), nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		return nil, err
	}
	p = p.Simplify()
	prog, err := syntax.Compile(p)
	if err != nil {
		return nil, err
	}
	r := &rx{re: re, prog: prog, src: src, tabs: map[int]*[128]bool{}}
	for pc := range prog.Inst {
		inst := &prog.Inst[pc]
		switch inst.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			tab := &[128]bool{}
			for i := range tab {
				tab[i] = instMatch(inst, rune(i))
			}
			r.tabs[pc] = tab
		}
	}
	for b := range rxNeeds(p) {
		r.needs = append(r.needs, b)
	}
	sort.Slice(r.needs, func(i, j int) bool { return r.needs[i] < r.needs[j] })
	r.first = rxFirstSet(r)
	rxCache.Store(src, r)
	return r, nil
}

// rxNeeds gives the ASCII bytes every match contains.
func rxNeeds(re *syntax.Regexp) map[byte]bool {
	out := map[byte]bool{}
	switch re.Op {
	case syntax.OpLiteral:
		if re.Flags&syntax.FoldCase == 0 {
			for _, c := range re.Rune {
				if c < 0x80 {
					out[byte(c)] = true
				}
			}
		}
	case syntax.OpCharClass:
		if len(re.Rune) == 2 && re.Rune[0] == re.Rune[1] && re.Rune[0] < 0x80 {
			out[byte(re.Rune[0])] = true
		}
	case syntax.OpConcat:
		for _, s := range re.Sub {
			for b := range rxNeeds(s) {
				out[b] = true
			}
		}
	case syntax.OpCapture, syntax.OpPlus:
		return rxNeeds(re.Sub[0])
	case syntax.OpRepeat:
		if re.Min > 0 {
			return rxNeeds(re.Sub[0])
		}
	case syntax.OpAlternate:
		out = rxNeeds(re.Sub[0])
		for _, s := range re.Sub[1:] {
			o := rxNeeds(s)
			for b := range out {
				if !o[b] {
					delete(out, b)
				}
			}
		}
	}
	return out
}

// rxFirstSet gives the ASCII characters a match can start with (nil when a match can be empty).
func rxFirstSet(r *rx) *[128]bool {
	set := &[128]bool{}
	seen := map[uint32]bool{}
	var walk func(pc uint32) bool
	walk = func(pc uint32) bool {
		if seen[pc] {
			return true
		}
		seen[pc] = true
		inst := &r.prog.Inst[pc]
		switch inst.Op {
		case syntax.InstMatch:
			return false
		case syntax.InstFail:
			return true
		case syntax.InstAlt, syntax.InstAltMatch:
			return walk(inst.Out) && walk(inst.Arg)
		case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
			return walk(inst.Out)
		}
		for i, ok := range r.tabs[int(pc)] {
			set[i] = set[i] || ok
		}
		return true
	}
	if !walk(uint32(r.prog.Start)) {
		return nil
	}
	return set
}

// mayBe tells whether the byte could be one of the set (bytes of multi-byte characters always could).
func (in *Interp) mayBe(v Value, set *[128]bool) bool {
	switch c := v.(type) {
	case uint64:
		return c >= 0x80 || set[c]
	case *Term:
		if c.nv != 1 || c.v1.sort < 1 || c.v1.sort > 8 {
			return true
		}
		d := in.domOf(c.v1)
		for _, k := range []*Term{in.ts.Not(in.ts.Op2(oUlt, sBool, c, in.ts.C(8, 0x80))), in.classOf(c, set)} {
			if k.isC() {
				if k.val != 0 {
					return true
				}
				continue
			}
			if t := d.tab.and(in.ts.table(k)); !t.empty() {
				return true
			}
		}
		return false
	}
	return true
}

// rxHopeless tells that no match is possible in s as a character all matches contain is missing.
func (in *Interp) rxHopeless(r *rx, s []Value) bool {
	for _, b := range r.needs {
		set := &[128]bool{}
		set[b] = true
		found := false
		for _, v := range s {
			if u, ok := v.(uint64); ok {
				if u == uint64(b) {
					found = true
					break
				}
			} else if in.mayBe(v, set) {
				found = true
				break
			}
		}
		if !found {
			return true
		}
	}
	return false
}

func (in *Interp) rxOf(v Value) *rx {
	p, ok := v.(Ptr)
	if !ok || p == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	o, ok := (*p).(*Opaque)
	if !ok {
		in.unsupported("regexp not built by Compile")
	}
	return o.v.(*rx)
}

type rxRun struct {
	in   *Interp
	r    *rx
	s    []Value
	cap  []int
	vis  []bool
	n    int
	best []int
}

func (m *rxRun) runeAt(pos int) (Value, int) {
	switch c := m.s[pos].(type) {
	case uint64:
		if c < 0x80 {
			return c, 1
		}
	case *Term:
		if m.in.branch(m.in.ts.Op2(oUlt, sBool, c, m.in.ts.C(8, 0x80))) {
			return c, 1
		}
	}
	// multi-byte: concretise up to 4 bytes
	var b []byte
	for i := pos; i < len(m.s) && i < pos+4; i++ {
		switch c := m.s[i].(type) {
		case uint64:
			b = append(b, byte(c))
		case *Term:
			v := m.in.concretize(c)
			b = append(b, byte(v))
		}
		if utf8.FullRune(b) {
			break
		}
	}
	r, w := utf8.DecodeRune(b)
	return uint64(uint32(r)), w
}

// matchClass decides whether the rune matches the instruction.
func (m *rxRun) matchClass(pc int, c Value) bool {
	inst := &m.r.prog.Inst[pc]
	if u, ok := c.(uint64); ok {
		return instMatch(inst, rune(int32(u)))
	}
	return m.in.branch(m.in.classOf(c.(*Term), m.r.tabs[pc]))
}

func instMatch(i *syntax.Inst, r rune) bool {
	switch i.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return r != '\n'
	}
	return i.MatchRune(r)
}

// classOf builds the membership condition of an 8-bit term (known to be < 0x80) in a class.
func (in *Interp) classOf(t *Term, tab *[128]bool) *Term {
	ts := in.ts
	c := ts.False
	for i := 0; i < 128; {
		if !tab[i] {
			i++
			continue
		}
		j := i
		for j+1 < 128 && tab[j+1] {
			j++
		}
		var k *Term
		switch {
		case i == j:
			k = ts.Eq(t, ts.C(8, uint64(i)))
		case i == 0 && j == 127:
			k = ts.True
		case i == 0:
			k = ts.Op2(oUle, sBool, t, ts.C(8, uint64(j)))
		case j == 127:
			k = ts.Op2(oUle, sBool, ts.C(8, uint64(i)), t)
		default:
			k = ts.And(ts.Op2(oUle, sBool, ts.C(8, uint64(i)), t), ts.Op2(oUle, sBool, t, ts.C(8, uint64(j))))
		}
		c = ts.Or(c, k)
		i = j + 1
	}
	return c
}

var wordTab = func() *[128]bool {
	t := &[128]bool{}
	for i := range t {
		t[i] = syntax.IsWordChar(rune(i))
	}
	return t
}()

func (m *rxRun) isWord(pos int) bool {
	if pos < 0 || pos >= len(m.s) {
		return false
	}
	switch c := m.s[pos].(type) {
	case uint64:
		return c < 0x80 && wordTab[c]
	case *Term:
		if !m.in.branch(m.in.ts.Op2(oUlt, sBool, c, m.in.ts.C(8, 0x80))) {
			return false
		}
		return m.in.branch(m.in.classOf(c, wordTab))
	}
	return false
}

func (m *rxRun) isNL(pos int) bool {
	switch c := m.s[pos].(type) {
	case uint64:
		return c == '\n'
	case *Term:
		return m.in.branch(m.in.ts.Eq(c, m.in.ts.C(8, '\n')))
	}
	return false
}

func (m *rxRun) empty(op syntax.EmptyOp, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(m.s) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !m.isNL(pos-1) {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(m.s) && !m.isNL(pos) {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := m.isWord(pos-1) != m.isWord(pos)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}

func (m *rxRun) try(pc, pos int) bool {
	for {
		k := pc*(m.n+1) + pos
		if m.vis[k] {
			return false
		}
		m.vis[k] = true
		m.in.steps++
		inst := &m.r.prog.Inst[pc]
		switch inst.Op {
		case syntax.InstMatch:
			m.cap[1] = pos
			m.best = append([]int{}, m.cap...)
			return true
		case syntax.InstFail:
			return false
		case syntax.InstAlt, syntax.InstAltMatch:
			if m.try(int(inst.Out), pos) {
				return true
			}
			pc = int(inst.Arg)
			continue
		case syntax.InstCapture:
			if int(inst.Arg) < len(m.cap) {
				old := m.cap[inst.Arg]
				m.cap[inst.Arg] = pos
				if m.try(int(inst.Out), pos) {
					return true
				}
				m.cap[inst.Arg] = old
				return false
			}
			pc = int(inst.Out)
			continue
		case syntax.InstEmptyWidth:
			if !m.empty(syntax.EmptyOp(inst.Arg), pos) {
				return false
			}
			pc = int(inst.Out)
			continue
		case syntax.InstNop:
			pc = int(inst.Out)
			continue
		default:
			if pos >= m.n {
				return false
			}
			c, w := m.runeAt(pos)
			if !m.matchClass(pc, c) {
				return false
			}
			pos += w
			pc = int(inst.Out)
			continue
		}
	}
}

// exec finds the leftmost-first match at or after pos.
func (in *Interp) rxExec(r *rx, s []Value, pos int) []int {
	n := len(s)
	if in.rxHopeless(r, s[pos:]) {
		return nil
	}
	m := &rxRun{in: in, r: r, s: s, n: n, cap: make([]int, r.prog.NumCap), vis: make([]bool, len(r.prog.Inst)*(n+1))}
	anchored := r.prog.StartCond()&syntax.EmptyBeginText != 0
	if anchored && pos != 0 {
		return nil
	}
	for ; pos <= n; pos++ {
		if r.first != nil && (pos == n || !in.mayBe(s[pos], r.first)) {
			if anchored {
				return nil
			}
			continue
		}
		for i := range m.cap {
			m.cap[i] = -1
		}
		m.cap[0] = pos
		if m.try(r.prog.Start, pos) {
			return m.best
		}
		if anchored {
			return nil
		}
		if pos < n {
			if u, ok := s[pos].(uint64); ok && u >= 0x80 {
				_, w := m.runeAt(pos)
				pos += w - 1
			}
		}
	}
	return nil
}

func (in *Interp) rxWidth(s []Value, pos int) int {
	if pos >= len(s) {
		return 0
	}
	m := &rxRun{in: in, s: s}
	_, w := m.runeAt(pos)
	return w
}

func (in *Interp) rxAll(r *rx, v Value, n int) [][]int {
	v = in.force(v)
	if s, ok := v.(string); ok {
		return r.re.FindAllStringSubmatchIndex(s, n)
	}
	s := in.sbytes(v)
	if n < 0 {
		n = len(s) + 1
	}
	var out [][]int
	for pos, i, prev := 0, 0, -1; i < n && pos <= len(s); {
		a := in.rxExec(r, s, pos)
		if a == nil {
			break
		}
		accept := true
		if a[1] == pos {
			if a[0] == prev {
				accept = false
			}
			if w := in.rxWidth(s, pos); w > 0 {
				pos += w
			} else {
				pos = len(s) + 1
			}
		} else {
			pos = a[1]
		}
		prev = a[1]
		if accept {
			out = append(out, a)
			i++
		}
	}
	return out
}

func (in *Interp) rxFirst(r *rx, v Value) []int {
	v = in.force(v)
	if s, ok := v.(string); ok {
		return r.re.FindStringSubmatchIndex(s)
	}
	return in.rxExec(r, in.sbytes(v), 0)
}

// rxReplace mirrors regexp.replaceAll.
func (in *Interp) rxReplace(r *rx, v Value, repl func(a []int) Value) Value {
	v = in.force(v)
	s := in.sbytes(v)
	conc, isC := v.(string)
	if isC {
		all := r.re.FindAllStringSubmatchIndex(conc, -1)
		if all == nil {
			return v
		}
		var out Value = ""
		last := 0
		for _, a := range all {
			out = in.sconcat(out, conc[last:a[0]])
			out = in.sconcat(out, repl(a))
			last = a[1]
		}
		return in.sconcat(out, conc[last:])
	}
	last, pos := 0, 0
	var buf []Value
	any := false
	for pos <= len(s) {
		a := in.rxExec(r, s, pos)
		if a == nil {
			break
		}
		any = true
		buf = append(buf, s[last:a[0]]...)
		if a[1] > last || a[0] == 0 {
			buf = append(buf, in.sbytes(repl(a))...)
		}
		last = a[1]
		w := in.rxWidth(s, pos)
		switch {
		case pos+w > a[1]:
			pos += w
		case pos+1 > a[1]:
			pos++
		default:
			pos = a[1]
		}
	}
	if !any {
		return v
	}
	return mkStr(append(buf, s[last:]...))
}

func (in *Interp) rxExpand(r *rx, tmpl string, src Value, a []int) Value {
	var out Value = ""
	for len(tmpl) > 0 {
		before, after, ok := strings.Cut(tmpl, "$")
		if !ok {
			break
		}
		out = in.sconcat(out, before)
		tmpl = after
		if tmpl != "" && tmpl[0] == '$' {
			out = in.sconcat(out, "$")
			tmpl = tmpl[1:]
			continue
		}
		name, num, rest, ok := rxExtract(tmpl)
		if !ok {
			out = in.sconcat(out, "$")
			continue
		}
		tmpl = rest
		if num >= 0 {
			if 2*num+1 < len(a) && a[2*num] >= 0 {
				out = in.sconcat(out, in.ssub(src, a[2*num], a[2*num+1]))
			}
		} else {
			for i, ni := range r.re.SubexpNames() {
				if name == ni && 2*i+1 < len(a) && a[2*i] >= 0 {
					out = in.sconcat(out, in.ssub(src, a[2*i], a[2*i+1]))
					break
				}
			}
		}
	}
	return in.sconcat(out, tmpl)
}

func rxExtract(str string) (name string, num int, rest string, ok bool) {
	if str == "" {
		return
	}
	brace := false
	if str[0] == '{' {
		brace = true
		str = str[1:]
	}
	i := 0
	for i < len(str) {
		c := str[i]
		if c != '_' && !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			break
		}
		i++
	}
	if i == 0 {
		return
	}
	name = str[:i]
	if brace {
		if i >= len(str) || str[i] != '}' {
			return
		}
		i++
	}
	num = 0
	for j := 0; j < len(name); j++ {
		if name[j] < '0' || '9' < name[j] || num >= 1e8 {
			num = -1
			break
		}
		num = num*10 + int(name[j]) - '0'
	}
	if name[0] == '0' && len(name) > 1 {
		num = -1
	}
	rest = str[i:]
	ok = true
	return
}

func init() {
	mk := func(in *Interp, r *rx) Value {
		v := new(Value)
		*v = &Opaque{kind: "regexp", v: r}
		return v
	}
	comp := func(in *Interp, v Value) (*rx, error) {
		src := in.concreteStr(v).(string)
		return compileRx(src)
	}
	reg("regexp.MustCompile", func(in *Interp, fr *frame, a []Value) Value {
		r, err := comp(in, a[0])
		if err != nil {
			in.reflectPanic("regexp: Compile: %v", err)
		}
		return mk(in, r)
	})
	reg("regexp.Compile", func(in *Interp, fr *frame, a []Value) Value {
		r, err := comp(in, a[0])
		if err != nil {
			return Tuple{Ptr(nil), in.newErr(err.Error())}
		}
		return Tuple{mk(in, r), Iface{}}
	})
	reg("regexp.MatchString", func(in *Interp, fr *frame, a []Value) Value {
		r, err := comp(in, a[0])
		if err != nil {
			return Tuple{false, in.newErr(err.Error())}
		}
		return Tuple{in.rxFirst(r, a[1]) != nil, Iface{}}
	})
	M := func(n string, f func(in *Interp, fr *frame, r *rx, a []Value) Value) {
		reg("(*regexp.Regexp)."+n, func(in *Interp, fr *frame, a []Value) Value { return f(in, fr, in.rxOf(a[0]), a) })
	}
	regNative("regexp.QuoteMeta", regexp.QuoteMeta)
	ints := func(a []int) Slice {
		if a == nil {
			return nil
		}
		s := make(Slice, len(a))
		for i, x := range a {
			s[i] = uint64(int64(x))
		}
		return s
	}
	subs := func(in *Interp, src Value, a []int) Slice {
		if a == nil {
			return nil
		}
		s := make(Slice, len(a)/2)
		for i := range s {
			s[i] = ""
			if a[2*i] >= 0 {
				s[i] = in.ssub(src, a[2*i], a[2*i+1])
			}
		}
		return s
	}
	M("String", func(in *Interp, fr *frame, r *rx, a []Value) Value { return r.src })
	M("NumSubexp", func(in *Interp, fr *frame, r *rx, a []Value) Value { return uint64(r.re.NumSubexp()) })
	M("SubexpNames", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s := Slice{}
		for _, n := range r.re.SubexpNames() {
			s = append(s, n)
		}
		return s
	})
	M("SubexpIndex", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		return uint64(int64(r.re.SubexpIndex(cstr(in, a[1]))))
	})
	M("MatchString", func(in *Interp, fr *frame, r *rx, a []Value) Value { return in.rxFirst(r, a[1]) != nil })
	M("Match", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		return in.rxFirst(r, mkStr([]Value(a[1].(Slice)))) != nil
	})
	M("FindStringIndex", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		x := in.rxFirst(r, a[1])
		if x == nil {
			return Slice(nil)
		}
		return ints(x[:2])
	})
	M("FindString", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s := in.force(a[1])
		x := in.rxFirst(r, s)
		if x == nil {
			return ""
		}
		return in.ssub(s, x[0], x[1])
	})
	M("FindStringSubmatch", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s := in.force(a[1])
		return subs(in, s, in.rxFirst(r, s))
	})
	M("FindStringSubmatchIndex", func(in *Interp, fr *frame, r *rx, a []Value) Value { return ints(in.rxFirst(r, a[1])) })
	all := func(name string, f func(in *Interp, src Value, a []int) Value) {
		M(name, func(in *Interp, fr *frame, r *rx, a []Value) Value {
			s := in.force(a[1])
			var out Slice
			for _, m := range in.rxAll(r, s, cint(in, a[2])) {
				out = append(out, f(in, s, m))
			}
			return out
		})
	}
	all("FindAllString", func(in *Interp, src Value, a []int) Value { return in.ssub(src, a[0], a[1]) })
	all("FindAllStringIndex", func(in *Interp, src Value, a []int) Value { return ints(a[:2]) })
	all("FindAllStringSubmatch", func(in *Interp, src Value, a []int) Value { return subs(in, src, a) })
	all("FindAllStringSubmatchIndex", func(in *Interp, src Value, a []int) Value { return ints(a) })
	M("ReplaceAllStringFunc", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s := in.force(a[1])
		return in.rxReplace(r, s, func(m []int) Value { return in.callValue(fr, a[2], []Value{in.ssub(s, m[0], m[1])}, nil) })
	})
	M("ReplaceAllLiteralString", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		return in.rxReplace(r, a[1], func(m []int) Value { return in.force(a[2]) })
	})
	M("ReplaceAllString", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s, t := in.force(a[1]), in.force(a[2])
		if x, ok := s.(string); ok {
			if y, ok := t.(string); ok {
				return r.re.ReplaceAllString(x, y)
			}
		}
		hasDollar := false
		for _, b := range in.sbytes(t) {
			if in.truth(in.eq(nil, b, uint64('$'))) {
				hasDollar = true
				break
			}
		}
		return in.rxReplace(r, s, func(m []int) Value {
			if !hasDollar {
				return t
			}
			return in.rxExpand(r, in.concreteStr(t).(string), s, m)
		})
	})
	toStr := func(in *Interp, v Value) Value {
		sl, _ := in.force(v).(Slice)
		return mkStr([]Value(sl))
	}
	toBytes := func(in *Interp, v Value, none bool) Value {
		if in.slen(v) == 0 && none {
			return Slice(nil)
		}
		b := in.sbytes(v)
		out := make(Slice, len(b))
		copy(out, b)
		return out
	}
	M("ReplaceAll", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		src := toStr(in, a[1])
		tmpl := in.concreteStr(toStr(in, a[2])).(string)
		return toBytes(in, in.rxReplace(r, src, func(m []int) Value { return in.rxExpand(r, tmpl, src, m) }), in.slen(src) == 0)
	})
	M("ReplaceAllFunc", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		src := toStr(in, a[1])
		return toBytes(in, in.rxReplace(r, src, func(m []int) Value {
			return toStr(in, in.callValue(fr, a[2], []Value{toBytes(in, in.ssub(src, m[0], m[1]), false)}, nil))
		}), in.slen(src) == 0)
	})
	M("Split", func(in *Interp, fr *frame, r *rx, a []Value) Value {
		s := in.force(a[1])
		n := cint(in, a[2])
		if n == 0 {
			return Slice(nil)
		}
		if len(r.src) > 0 && in.slen(s) == 0 {
			return Slice{""}
		}
		var out Slice
		beg, end := 0, 0
		for _, m := range in.rxAll(r, s, n) {
			if n > 0 && len(out) == n-1 {
				break
			}
			end = m[0]
			if m[1] != 0 {
				out = append(out, in.ssub(s, beg, end))
			}
			beg = m[1]
		}
		if end != in.slen(s) {
			out = append(out, in.ssub(s, beg, in.slen(s)))
		}
		return out
	})
}
