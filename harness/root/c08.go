package main

import (
	"fmt"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C08_values", Verif_C08_values)
	Register("Verif_C08_struct", Verif_C08_struct)
	Register("Verif_C08_inline", Verif_C08_inline)
	Register("Verif_C08_key", Verif_C08_key)
}

type (
	name08  string
	small08 uint8
	big08   int64
	on08    bool
	ratio08 float32
	list08  []name08
	dict08  map[name08]any_
)

// leaf08 gives a scalar and its native form.
func leaf08() (v, want any_) {
	switch Choose(17) {
	case 0:
		return nil, nil
	case 1:
		b := Bool()
		return b, b
	case 2:
		i := Int()
		return i, i
	case 3:
		i := Int64()
		return int8(i), int(int8(i))
	case 4:
		i := Int64()
		return int16(i), int(int16(i))
	case 5:
		i := Int64()
		return int32(i), int(int32(i))
	case 6:
		i := Int64()
		return i, i
	case 7:
		i := Uint64()
		return small08(i), uint(uint8(i))
	case 8:
		i := Uint64()
		return uint16(i), uint(uint16(i))
	case 9:
		i := Uint64()
		return uint32(i), uint(uint32(i))
	case 10:
		i := Uint64()
		return i, i
	case 11:
		i := Uint64()
		return uint(i), uint(i)
	case 12:
		f := Float64()
		Assume(f == f)
		return f, f
	case 13:
		i := Int64()
		return big08(i), i
	case 14:
		s := Str(2, "a\"\n")
		return s, s
	case 15:
		s := Str(1, "a")
		return name08(s), s
	}
	f := []float32{0, 1.5, -2}[Choose(3)]
	if Choose(2) == 0 {
		b := Bool()
		return on08(b), b
	}
	return ratio08(f), float64(f)
}

func small08v() (v, want any_) {
	switch Choose(5) {
	case 0:
		return nil, nil
	case 1:
		i := Int64()
		return int16(i), int(int16(i))
	case 2:
		s := Str(1, "a")
		return name08(s), s
	case 3:
		return (*int)(nil), nil
	}
	b := Bool()
	return &b, b
}

// value08 gives a value nested up to the depth and its native form.
func value08(depth int) (v, want any_) {
	if depth == 0 {
		return small08v()
	}
	switch Choose(9) {
	case 0: // lists of every flavour
		n := Choose(3)
		raw, w := make([]any_, n), make([]any_, n)
		for i := range raw {
			if i == 0 {
				raw[i], w[i] = value08(depth - 1)
			} else {
				raw[i], w[i] = small08v()
			}
		}
		if f := flavour08(depth); f < flavours {
			return flavourList(f, raw), w
		}
		return raw, w
	case 1:
		raw, w := map[string]any_{}, map[string]any_{}
		for i, k := range []string{"b", "a"}[:Choose(3)] {
			if i == 0 {
				raw[k], w[k] = value08(depth - 1)
			} else {
				raw[k], w[k] = small08v()
			}
		}
		if f := flavour08(depth); f < flavours {
			return flavourDict(f, raw), w
		}
		return raw, w
	case 2:
		x, w := value08(depth - 1)
		return [2]any_{x, 5}, []any_{w, 5}
	case 3:
		x, w := value08(depth - 1)
		return map[int]any_{3: x}, map[string]any_{"3": w}
	case 4:
		x, w := value08(depth - 1)
		return dict08{"k": x}, map[string]any_{"k": w}
	case 5:
		s := Str(1, "a")
		return list08{name08(s), "b"}, []any_{s, "b"}
	case 6:
		x, w := value08(depth - 1)
		return &x, w
	case 7:
		i := Int()
		p := &i
		switch Choose(3) {
		case 0:
			return p, i
		case 1:
			return &p, i
		}
		p = nil
		return &p, nil
	}
	return leaf08()
}

// flavour08: every flavour in the outer level, plain or JSON inside.
func flavour08(depth int) int {
	if depth == 2+Tier() {
		return Choose(flavours + 1)
	}
	return []int{1, flavours}[Choose(2)]
}

func native08(v any_) bool {
	switch v := v.(type) {
	case nil, bool, int, uint, int64, uint64, float64, string:
		return true
	case []any_:
		for i := range v {
			if !native08(v[i]) {
				return false
			}
		}
		return true
	case map[string]any_:
		for _, x := range v {
			if !native08(x) {
				return false
			}
		}
		return true
	}
	return false
}

// Verif_C08_values: values nested 2 (thorough: 3) levels: lists and dictionaries of the 5 flavours (JSON when nested), plain, array and named types of up to 2 elements, pointers (nil, double, to interface) and every kind of scalar (all sizes, arbitrary values).
func Verif_C08_values() {
	v, want := value08(2 + Tier())
	r, err := collections.MarshalGo(v)
	Assert(err == nil, "no error")
	Assert(native08(r), "only native types at every depth")
	Assert(EqTyped(r, want), "same numbers, text, order and keys")
	if d, ok := v.(collections.IDictionary); ok {
		Assert(EqTyped(d.Native(), want), "Native of a dictionary")
	}
}

type Plain08 struct {
	A int
	B string `json:"b,omitempty" xml:"nope"`
	c int
	D string         `json:"-"`
	E []int          `yaml:"e,omitempty"`
	P *int           `hcl:"p" json:"nope"`
	Q *string        `toml:"q,omitempty"`
	M map[string]int `xml:",omitempty"`
	N any_
	F float64 `hcl:",omitempty"`
	T bool    `hcl:"t,omitempty"`
}

func plain08() (Plain08, map[string]any_) {
	s := Plain08{A: Int(), B: Str(1, "x"), c: Int(), D: Str(1, "x")}
	w := map[string]any_{"A": s.A}
	if s.B != "" {
		w["b"] = s.B
	}
	if Choose(2) == 1 {
		s.E = []int{Int()}
		w["e"] = []any_{s.E[0]}
	}
	w["p"] = nil
	if Choose(2) == 1 {
		i := Int()
		s.P = &i
		w["p"] = i
	}
	if Choose(2) == 1 {
		q := Str(1, "y")
		s.Q = &q
		w["q"] = q
	}
	switch Choose(3) {
	case 1:
		s.M = map[string]int{}
	case 2:
		s.M = map[string]int{"k": 3}
		w["M"] = map[string]any_{"k": 3}
	}
	w["N"] = nil
	if Choose(2) == 1 {
		s.N = []string{"z"}
		w["N"] = []any_{"z"}
	}
	s.F = []float64{0, 1.5}[Choose(2)]
	if s.F != 0 {
		w["F"] = s.F
	}
	s.T = Bool()
	if s.T {
		w["t"] = true
	}
	return s, w
}

// Verif_C08_struct: structures (by value, by reference, in a list, in a map) with exported and unexported fields, tags of the 5 categories, omit-empty and ignored fields, nil and non-nil references.
func Verif_C08_struct() {
	s, w := plain08()
	var v, want any_ = s, w
	switch Choose(5) {
	case 1:
		v = &s
	case 2:
		v, want = []Plain08{s}, []any_{w}
	case 3:
		v, want = map[string]*Plain08{"x": &s, "y": nil}, map[string]any_{"x": w, "y": nil}
	case 4:
		v, want = struct{ In *Plain08 }{&s}, map[string]any_{"In": w}
	}
	r, err := collections.MarshalGo(v)
	Assert(err == nil, "no error")
	Assert(native08(r), "only native types")
	Assert(EqTyped(r, want), "exactly the exported fields under their tag names")
}

type Inner08 struct {
	X int
	Y string `hcl:"y,omitempty"`
}

type Outer08 struct {
	Inner08  `hcl:",inline"`
	In       Inner08        `hcl:"in"`
	Opt      Inner08        `hcl:"opt,omitempty"`
	Squashed *Inner08       `json:",squash"`
	Extra    map[string]int `yaml:",inline"`
	Z        int
}

// Verif_C08_inline: embedded, inlined and squashed structures and maps, nested structures with omit-empty; inlining a value that is not a structure or a map is an error.
func Verif_C08_inline() {
	if Choose(4) == 0 {
		_, err := collections.MarshalGo(struct {
			A int `hcl:",inline"`
		}{Int()})
		Assert(err != nil, "inlining a scalar is an error")
		return
	}
	o := Outer08{Inner08: Inner08{Int(), Str(1, "a")}, In: Inner08{Int(), Str(1, "a")}, Opt: Inner08{Int(), Str(1, "a")}, Z: Int()}
	w := map[string]any_{"X": o.X, "Z": o.Z}
	if o.Y != "" {
		w["y"] = o.Y
	}
	w["in"] = map[string]any_{"X": o.In.X}
	if o.In.Y != "" {
		w["in"].(map[string]any_)["y"] = o.In.Y
	}
	w["opt"] = map[string]any_{"X": o.Opt.X}
	if o.Opt.Y != "" {
		w["opt"].(map[string]any_)["y"] = o.Opt.Y
	}
	type Sub struct{ K int }
	o.Squashed = &Inner08{}
	*o.Squashed = o.Inner08
	if Choose(2) == 1 {
		o.Extra = map[string]int{"e": Int()}
		w["e"] = o.Extra["e"]
	}
	r, err := collections.MarshalGo(o)
	Assert(err == nil, "no error")
	Assert(EqTyped(r, w), "inlined fields at the level of the structure")
	type Opt struct {
		S Inner2_08 `hcl:"s,omitempty"`
		Z int
	}
	e := Opt{S: Inner2_08{Str(1, "a")}, Z: o.Z}
	we := map[string]any_{"Z": e.Z}
	if e.S.Y != "" {
		we["s"] = map[string]any_{"y": e.S.Y}
	}
	r, err = collections.MarshalGo(&e)
	Assert(err == nil && EqTyped(r, we), "structures without content are omitted when empty")
}

type Inner2_08 struct {
	Y string `hcl:"y,omitempty"`
}

type Key08 struct {
	V    int    `hcl:"v"`
	Name string `hcl:",key"`
	W    string `hcl:"w,omitempty"`
	U    any_   `hcl:"u"`
}

type IntKey08 struct {
	Id    int `json:",key"`
	Value any_
}

// Verif_C08_key: structures with a key tag become a map from the value of the key to all their other fields; two keys are an error.
func Verif_C08_key() {
	switch Choose(3) {
	case 0:
		k := Key08{V: Int(), Name: StrN(1, "ab"), W: Str(1, "c"), U: maybeInt08(Choose(2) == 0)}
		f := map[string]any_{"v": k.V, "u": k.U}
		if k.W != "" {
			f["w"] = k.W
		}
		r, err := collections.MarshalGo([]*Key08{&k, nil})
		Assert(err == nil && EqTyped(r, []any_{map[string]any_{k.Name: f}, nil}), "every field under the key")
	case 1:
		k := IntKey08{IntRange(-20, 20), Int()}
		r, err := collections.MarshalGo(k)
		Assert(err == nil && EqTyped(r, map[string]any_{fmt.Sprint(k.Id): map[string]any_{"Value": k.Value}}), "integer key")
	case 2:
		_, err := collections.MarshalGo(struct {
			A string `hcl:",key"`
			B string `hcl:",key"`
		}{})
		Assert(err != nil, "two keys are an error")
	}
}

func maybeInt08(isNil bool) any_ {
	if isNil {
		return nil
	}
	return Int()
}
