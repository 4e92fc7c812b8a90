package main

import "math"

// Cheap decisions tried before asking the solver: a condition already on the path, and candidate models found by trying values
// (a candidate counts only after the whole path condition evaluates to true under it; it can show a side feasible, never infeasible).

// implied says whether c (or its negation) is one of the conditions of the path: 1 true, -1 false, 0 not known.
func (in *Interp) implied(c *Term) int {
	if c.op == oNot {
		return -in.implied(c.a)
	}
	n := in.ts.m[tkey{op: oNot, sort: sBool, a: c}]
	for _, p := range in.pc {
		if r := impliedBy(p, c, n, 0); r != 0 {
			return r
		}
	}
	return 0
}

func impliedBy(p, c, n *Term, depth int) int {
	if p == c {
		return 1
	}
	if n != nil && p == n {
		return -1
	}
	if p.op == oAnd && depth < 8 {
		if r := impliedBy(p.a, c, n, depth+1); r != 0 {
			return r
		}
		return impliedBy(p.b, c, n, depth+1)
	}
	if p.op == oNot && p.a.op == oOr && depth < 8 {
		var walk func(t *Term, d int) int
		walk = func(t *Term, d int) int {
			if t == c {
				return -1
			}
			if n != nil && t == n {
				return 1
			}
			if t.op == oOr && d < 8 {
				if r := walk(t.a, d+1); r != 0 {
					return r
				}
				return walk(t.b, d+1)
			}
			return 0
		}
		return walk(p.a, 0)
	}
	return 0
}

var floatPool = []float64{0, 1, -1, 2, 3, 0.5, -0.5, 1.5, -2.5, 10, -10, 0.1, 100, 1000, 1e6, -1e6, 1 << 53, 1<<53 + 2, -(1 << 53), 1 << 62, 1 << 63, -(1 << 63), 1 << 64, 1e300, -1e300, 1e-300, 5e-324,
	math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 9007199254740993, 9223372036854774784, 123456789.125, math.MaxFloat64}

func (in *Interp) rnd() uint64 {
	in.rng ^= in.rng << 13
	in.rng ^= in.rng >> 7
	in.rng ^= in.rng << 17
	return in.rng
}

// guess looks for a model of the path condition together with o.
func (in *Interp) guess(base map[*Term]uint64, o *Term) map[*Term]uint64 {
	if in.rng == 0 {
		in.rng = 0x9E3779B97F4A7C15
	}
	ts := in.ts
	ts.epoch++
	ep := ts.epoch
	var vars []*Term
	var consts []uint64
	fp := false
	nodes := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || t.epoch == ep || nodes > 4000 {
			return
		}
		t.epoch = ep
		nodes++
		if t.sort == sF64 {
			fp = true
		}
		if t.op == oConst {
			if t.sort > 1 && t.sort <= 64 {
				consts = append(consts, t.val)
			}
			return
		}
		if t.op == oVar {
			vars = append(vars, t)
			return
		}
		walk(t.a)
		walk(t.b)
		walk(t.c)
	}
	walk(o)
	if len(vars) == 0 || nodes > 4000 {
		return nil
	}
	isBits := map[*Term]bool{}
	if fp {
		for _, v := range vars {
			if _, ok := ts.m[tkey{op: oFFromBits, sort: sF64, a: v}]; ok {
				isBits[v] = true
			}
		}
	}
	tries := 10
	if fp {
		tries = 300
	}
	m := make(map[*Term]uint64, len(base)+2)
	for k, v := range base {
		m[k] = v
	}
	cand := func(v *Term) uint64 {
		r := in.rnd()
		if isBits[v] {
			if k := r % 8; k < 5 {
				return math.Float64bits(floatPool[(r>>8)%uint64(len(floatPool))])
			} else if k == 5 {
				return math.Float64bits(float64(int64(r>>20)%2000 - 1000))
			} else if k == 6 {
				return math.Float64bits(float64(int64(r>>20)%2000-1000) / 8)
			}
			return r
		}
		mk := mask(v.sort)
		switch r % 6 {
		case 0, 1:
			if len(consts) > 0 {
				return (consts[(r>>8)%uint64(len(consts))] + (r>>40)%3 - 1) & mk
			}
		case 2:
			w := vars[(r>>8)%uint64(len(vars))]
			return (base[w] + (r>>40)%3 - 1) & mk
		case 3:
			return (base[v] + (r>>8)%17 - 8) & mk
		case 4:
			return ((r>>8)%21 - 10) & mk
		}
		if v.sort <= 8 {
			return (r >> 8) & mk
		}
		return uint64(int64(r>>8)%2048-1024) & mk
	}
	for i := 0; i < tries; i++ {
		if len(vars) == 1 || i%2 == 0 {
			v := vars[int(in.rnd()>>8)%len(vars)]
			old := m[v]
			m[v] = cand(v)
			if in.satisfies(m, o) {
				return m
			}
			if i%4 == 0 {
				m[v] = old
			}
			continue
		}
		for _, v := range vars {
			m[v] = cand(v)
		}
		if in.satisfies(m, o) {
			return m
		}
		for _, v := range vars {
			m[v] = base[v]
		}
	}
	return nil
}

func (in *Interp) satisfies(m map[*Term]uint64, o *Term) bool {
	if in.ts.eval(o, m) == 0 {
		return false
	}
	for i := len(in.pc) - 1; i >= 0; i-- {
		if in.ts.eval(in.pc[i], m) == 0 {
			return false
		}
	}
	return true
}
