package hcl

import (
	"errors"
	"strings"

	vendored "github.com/hashicorp/hcl"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C20_transform", Verif_C20_transform)
	Register("Verif_C20_documents", Verif_C20_documents)
	Register("Verif_C20_text", Verif_C20_text)
	Register("Verif_C20_json", Verif_C20_json)
}

// readerData builds data as produced by the HCL reader (blocks are lists of maps) with what it must become.
func readerData(depth int) (raw, want any_) {
	kinds := 5
	if depth == 0 {
		kinds = 2
	}
	switch Choose(kinds) {
	case 0:
		i := Int()
		return i, i
	case 1:
		switch Choose(3) {
		case 0:
			s := Str(2, "a1 ")
			return s, s
		case 1:
			b := Bool()
			return b, b
		}
		f := Float64()
		return f, f
	case 2:
		n := Choose(4)
		blocks, list := make([]map[string]any_, n), make([]any_, n)
		for i := range blocks {
			blocks[i], list[i] = readerMap(depth-1, i == 0)
		}
		if n == 1 {
			return blocks, list[0]
		}
		return blocks, list
	case 3:
		n := Choose(3)
		l, w := make([]any_, n), make([]any_, n)
		for i := range l {
			if i == 0 {
				l[i], w[i] = readerData(depth - 1)
			} else if Choose(2) == 0 {
				l[i], w[i] = i, i
			} else {
				l[i], w[i] = map[string]any_{"m": i}, map[string]any_{"m": i}
			}
		}
		return l, w
	}
	return readerMap(depth, true)
}

func readerMap(depth int, full bool) (map[string]any_, any_) {
	if !full {
		return map[string]any_{"i": 5}, map[string]any_{"i": 5}
	}
	switch Choose(3) {
	case 0:
		return map[string]any_{}, map[string]any_{}
	case 1:
		d, w := readerData(depth - b2i(depth > 0))
		return map[string]any_{"k": d}, map[string]any_{"k": w}
	}
	d, w := readerData(depth - b2i(depth > 0))
	return map[string]any_{"k": d, "b": []map[string]any_{{"x": 1}}}, map[string]any_{"k": w, "b": map[string]any_{"x": 1}}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// presented tells whether got is the HCL list or dictionary presenting the native value want.
func presented(want, got any_) bool {
	switch want := want.(type) {
	case []any_:
		l, ok := got.(hclList)
		if !ok || len(l) != len(want) {
			return false
		}
		for i := range want {
			if !presented(want[i], l[i]) {
				return false
			}
		}
		return true
	case map[string]any_:
		d, ok := got.(hclDict)
		if !ok || len(d) != len(want) {
			return false
		}
		for k := range want {
			v, has := d[k]
			if !has || !presented(want[k], v) {
				return false
			}
		}
		return true
	}
	return Eq(want, got)
}

// normal gives what the data given by the reader must become.
func normal(raw any_) any_ {
	switch raw := raw.(type) {
	case []map[string]any_:
		if len(raw) == 1 {
			return normal(raw[0])
		}
		r := make([]any_, len(raw))
		for i := range raw {
			r[i] = normal(raw[i])
		}
		return r
	case []any_:
		r := make([]any_, len(raw))
		for i := range raw {
			r[i] = normal(raw[i])
		}
		return r
	case map[string]any_:
		r := make(map[string]any_, len(raw))
		for k := range raw {
			r[k] = normal(raw[k])
		}
		return r
	}
	return raw
}

// Every data of the kinds the reader produces nested on 3 (quick) or 4 (thorough) levels (maps of 0..2 entries, 0..3
// blocks, lists of 0..2 elements), with arbitrary integers, doubles, booleans and short strings as leaves, converted as a
// generic value or as a map.
func Verif_C20_transform() {
	raw, want := readerMap(2+Tier(), true)
	if Choose(2) == 0 {
		var out any_ = raw
		ok := !Catch(func() { transform(&out) })
		Assert(ok, "the conversion does not fail")
		Assert(presented(want, out), "every block is presented, nothing is lost")
	} else {
		ok := !Catch(func() { transform(&raw) })
		Assert(ok, "the conversion of a map does not fail")
		Assert(Eq(want, any_(raw)), "every block is presented in the map, nothing is lost")
	}
	Reach("end")
}

func hclBody(depth int) (text string, want map[string]any_) {
	want = map[string]any_{}
	switch Choose(3) {
	case 0:
		return "", want
	case 1:
		want["v"] = 1
		return "v = 1\n", want
	}
	if depth > 0 {
		t, w := hclBody(depth - 1)
		switch Choose(4) {
		case 0:
			return "in {\n" + t + "}\n", map[string]any_{"in": w}
		case 1:
			return "in \"lb\" {" + t + "}\n", map[string]any_{"in": map[string]any_{"lb": w}}
		case 2:
			return "in = [{" + t + "}]\n", map[string]any_{"in": []any_{w}}
		case 3:
			return "in = [1, {" + t + "}, \"e\"]\ns = \"x\"\n", map[string]any_{"in": []any_{1, w, "e"}, "s": "x"}
		}
	}
	want["s"] = "x y"
	return "s = \"x y\"", want
}

// Documents of 1..3 blocks with labels whose keys are the same or not, with bodies nested on 1 (quick) or 2 (thorough)
// levels, read as a generic value or as a map.
func Verif_C20_documents() {
	n := 1 + Choose(3)
	var text string
	var all []any_
	labelled := Choose(2) == 1
	for i := 0; i < n; i++ {
		depth := 1
		if i == 0 {
			depth += Tier()
		}
		t, w := hclBody(depth)
		if labelled {
			text += "blk \"lbl\" {\n" + t + "}\n"
			all = append(all, map[string]any_{"lbl": w})
		} else {
			text += "blk {\n" + t + "}\n"
			all = append(all, w)
		}
	}
	want := map[string]any_{"blk": all}
	if n == 1 {
		want["blk"] = all[0]
	}
	if Choose(2) == 0 {
		var out any_
		err := Unmarshal([]byte(text), &out)
		Assert(err == nil && presented(want, out), "all the blocks are presented in order")
	} else {
		var out map[string]any_
		err := Unmarshal([]byte(text), &out)
		Assert(err == nil && Eq(any_(want), any_(out)), "all the blocks are presented in order in a map")
	}
	Reach("end")
}

// Arbitrary documents of 0..4 (quick) or 0..6 (thorough) characters among letter, digit, equal, brackets, quote, comma,
// space and line break: whenever the vendored reader accepts the document, alone or as a single value, the data is the
// same with its blocks presented (except what starts like a JSON object without being one), otherwise an error is reported.
func Verif_C20_text() {
	text := Str(4+2*Tier(), "a1={}[]\", \n")
	var raw any_
	err := vendored.Unmarshal([]byte(text+"\n"), &raw)
	if trimmed := strings.TrimSpace(text); trimmed != "" && trimmed[0] == '{' && !(trimmed[len(trimmed)-1] == '}' && strings.TrimSpace(trimmed[1:len(trimmed)-1]) == "") {
		// the reader accepts anything that starts like a JSON object
		err = errors.New("not an object")
	}
	var out any_
	outErr := Unmarshal([]byte(text), &out)
	if err == nil {
		Assert(outErr == nil && presented(normal(raw), out), "a document is read as the reader does")
		Reach("document")
	} else {
		var temp map[string]any_
		if err := vendored.Unmarshal([]byte("_="+text+"\n"), &temp); err == nil && len(temp) == 1 {
			Assert(outErr == nil && presented(normal(temp["_"]), out), "a value is read as the reader does")
			Reach("value")
		} else {
			Assert(outErr != nil, "an invalid document is an error, nothing is dropped")
			Reach("invalid")
		}
	}
}

// A JSON object with nested objects, lists, strings and a number (one arbitrary digit), cut at any position, or followed by one arbitrary character: the whole object is read, anything else is an error.
func Verif_C20_json() {
	digit := ByteIn("0123456789")
	text := `{"a": {"b": [` + string(rune(digit)) + `, "x}"]}, "c": {"d": true}, "e": "f"}`
	var out any_
	if Choose(2) == 0 {
		cut := Choose(len(text) + 1)
		text, whole := text[:cut], cut == len(text)
		err := Unmarshal([]byte(text), &out)
		Observe("error", err != nil)
		Assert((err == nil) == (whole || cut == 0), "an object is read when it is whole")
		if whole {
			want := map[string]any_{"a": map[string]any_{"b": []any_{int(digit - '0'), "x}"}}, "c": map[string]any_{"d": true}, "e": "f"}
			Assert(presented(want, out), "the object is read entirely")
		}
		Reach("cut")
		return
	}
	after := StrN(1, "}]{,a1\" \n")
	err := Unmarshal([]byte(text+after), &out)
	Observe("error", err != nil)
	Assert((err == nil) == (after == " " || after == "\n"), "what follows an object is not dropped")
	Reach("followed")
}
