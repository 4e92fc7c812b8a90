package template

import (
	"fmt"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C23_forms", Verif_C23_forms)
	Register("Verif_C23_values", Verif_C23_values)
	Register("Verif_C23_sequences", Verif_C23_sequences)
	Register("Verif_C23_arithmetic", Verif_C23_arithmetic)
	Register("Verif_C23_undeclared", Verif_C23_undeclared)
}

// assignTemplate has recorders for the operators, set as usual, asserts that are reported, and capture to get an object.
func assignTemplate(context map[string]any_, delimiters ...string) (*Template, *[]any_) {
	t := razorTemplate(collections.AsDictionary(context), delimiters...)
	captured := new([]any_)
	t.AddFunctions(dictionary{
		"set": set, "get": dataFuncsBase["get"], "isNil": dataFuncsBase["isNil"], "assert": assertError, "assertWarning": assertWarning,
		"not":     func(v any_) bool { return isZero(v) },
		"capture": func(m any_) string { *captured = append(*captured, m); return "" },
	}, "real", nil)
	return t, captured
}

// holds tells whether the dictionary holds exactly these values (and the constants of the context).
func holds(d any_, keys ...string) bool {
	m := collections.AsDictionary(d).AsMap()
	for i := 0; i < len(keys); i += 2 {
		v, has := m[keys[i]]
		if !has || fmt.Sprint(v) != keys[i+1] {
			return false
		}
	}
	n := len(keys) / 2
	for k := range m {
		switch k {
		case "NL", "CR", "NEWLINE", "true", "false", "null", "o":
			n++
		}
	}
	return n == len(m)
}

type assignment struct{ sign, name string }

var assignments = []assignment{
	{":=", ""}, {"=", ""}, {"+=", "add"}, {"-=", "sub"}, {"*=", "mul"}, {"/=", "div"}, {"÷=", "div"}, {"%=", "mod"}, {"&=", "band"},
	{"|=", "bor"}, {"^=", "bxor"}, {"<<=", "lshift"}, {"«=", "lshift"}, {">>=", "rshift"}, {"»=", "rshift"}, {"&^=", "bclear"},
}

// rhs is the right-hand side of an assignment with its value.
func rhs() (text, want string) {
	switch Choose(7) {
	case 0:
		d := StrN(1, "123456789")
		return d, d
	case 1:
		s := Str(1+Tier(), "a ={#/")
		return `"` + s + `"`, s
	case 2:
		return "1 + 2", "(add 1 2)"
	case 3:
		return "o.p", "OP"
	case 4:
		return "f(1, a) * 3", "(mul (f 1 A) 3)"
	case 5:
		return "$v", "V"
	}
	return "(a - 1) | 2", "(bor (sub A 1) 2)"
}

var formNames = []string{"@%s", "@.%s", "@$.%s", "@o.%s", "@.o.%s", "@$.o.%s", "@$%s", "@{%s}", "@{%s", "@{lo.%s}", "@$lo.%s"}

// assigned renders code assigning the variable x by the given form between declarations and captures, and checks that
// only this variable has the value.
func assigned(x, y string, form int, code string, value func(current string) string, delimiters ...string) {
	context := map[string]any_{"a": "A", "o": map[string]any_{"p": "OP", x: "old", y: "kept"}, x: "old", y: "kept"}
	lx := x
	if !plainID.MatchString(x) {
		lx = "x"
	}
	pre := "@{v} := \"V\"\n@{" + lx + "} := \"local\"\n@{l" + y + "} := \"kept\"\n@{lo} := $.o\n"
	post := "\n@capture($)@capture(o)|@{" + lx + "}|@{l" + y + "}"
	local, global, inner := "local", "old", "old"
	switch form {
	case 0, 1, 2:
		global = value(global)
	case 3, 4, 5, 9, 10:
		inner = value(inner)
	default:
		local = value(local)
	}
	t, captured := assignTemplate(context, delimiters...)
	code = pre + code + post
	if len(delimiters) == 3 {
		code = strings.ReplaceAll(code, "@", delimiters[2])
	}
	result, err := t.ProcessContent(code, "test.gt")
	Observe("code", code)
	Observe("result", result)
	Assert(err == nil, "the assignment is translated to valid code")
	Assert(result == "\n|"+local+"|kept", "local variables are set when named")
	Assert(len(*captured) == 2, "both objects are captured")
	Assert(holds((*captured)[0], "a", "A", x, global, y, "kept"), "global variables are set when named")
	Assert(holds((*captured)[1], "p", "OP", x, inner, y, "kept"), "inner variables are set when named")
}

// Every form of assignment with every operator to a variable that exists, with two kinds of right-hand side; global and
// inner names that are not identifiers (a-b) as well, and other delimiters.
func Verif_C23_forms() {
	StrictAssignationMode = AssignationValidationStrict
	as := assignments[Choose(len(assignments))]
	form := Choose(len(formNames))
	x := "x"
	if form < 6 {
		x = []string{"x", "a-b", "x+", "o#1"}[Choose(4)]
	}
	var delimiters []string
	if x == "x" && Choose(2) == 1 {
		delimiters = []string{"[[", "]]", "§"}
	}
	text, want := []string{"7", "a - 1"}[Choose(2)], ""
	if text == "7" {
		want = text
	} else {
		want = "(sub A 1)"
	}
	code := fmt.Sprintf(formNames[form], x) + " " + as.sign + " " + text
	if form == 8 {
		code += "}"
	}
	assigned(x, "y", form, code, func(current string) string {
		if as.name == "" {
			return want
		}
		return "(" + as.name + " " + current + " " + want + ")"
	}, delimiters...)
	Reach("end")
}

// Every form of assignment with :=, = or += and every kind of right-hand side (digits, strings of up to 1 (quick) or 2
// arbitrary characters, expressions), thorough: various names, spaces and endings.
func Verif_C23_values() {
	StrictAssignationMode = AssignationValidationStrict
	as := assignments[Choose(3)]
	form := Choose(len(formNames))
	x, y, space, end := "x", "y", " ", ""
	if Tier() > 0 {
		x, space, end = []string{"x", "xY_2", "ranges"}[Choose(3)], []string{" ", ""}[Choose(2)], []string{"", ";", " ;"}[Choose(3)]
	}
	text, want := rhs()
	code := fmt.Sprintf(formNames[form], x) + " " + as.sign + space + text
	if form == 8 {
		code += "}"
	}
	code += end
	assigned(x, y, form, code, func(current string) string {
		if as.name == "" {
			return want
		}
		return "(" + as.name + " " + current + " " + want + ")"
	})
	Reach("end")
}

// Every form of assignment to a variable that does not exist (globally or in the object), in every validation mode.
func Verif_C23_undeclared() {
	mode := AssignationValidationType(Choose(3))
	StrictAssignationMode = mode
	as := assignments[Choose(3)]
	form := Choose(6)
	code := fmt.Sprintf(formNames[form], "x") + " " + as.sign + " 7"
	t, captured := assignTemplate(map[string]any_{"o": map[string]any_{"y": "kept"}, "y": "kept"})
	result, err := t.ProcessContent(code+"@capture($)@capture(o)", "test.gt")
	Observe("code", code)
	Observe("result", result)
	if as.sign != ":=" && mode == AssignationValidationStrict {
		Assert(err != nil, "assigning a variable that was not declared is refused")
		Reach("refused")
		return
	}
	Assert(err == nil && len(*captured) == 2, "assigning a variable that was not declared is accepted")
	want := "7"
	if as.name != "" {
		want = "(add <nil> 7)"
	}
	if form < 3 {
		Assert(holds((*captured)[0], "x", want, "y", "kept") && holds((*captured)[1], "y", "kept"), "the global variable is set")
	} else {
		Assert(holds((*captured)[0], "y", "kept") && holds((*captured)[1], "x", want, "y", "kept"), "the inner variable is set")
	}
	Reach("accepted")
}

// Sequences of two assignments of any form to two variables of the same or different names, the second one using the
// first one (quick: the first one sets the same name to a constant): each one sees the value set before.
func Verif_C23_sequences() {
	StrictAssignationMode = AssignationValidationStrict
	context := map[string]any_{"o": map[string]any_{"x": "1", "z": "2"}, "x": "3", "z": "4"}
	pre := "@{x} := \"5\"\n@{z} := \"6\"\n@{lo} := $.o\n"
	vals := map[string]string{"lx": "5", "lz": "6", "gx": "3", "gz": "4", "ox": "1", "oz": "2"}
	uses := []string{"%s", ".%s", "$.%s", "o.%s", ".o.%s", "$.o.%s", "$%s", "$%s", "$%s", "$lo.%s", "$lo.%s"}
	where := []string{"g", "g", "g", "o", "o", "o", "l", "l", "l", "o", "o"}
	code := ""
	for i := 0; i < 2; i++ {
		form, use := Choose(len(formNames)), -1
		name, other, v, source := "x", "z", "7", "7"
		if i == 1 || Tier() > 0 {
			use = Choose(len(formNames))
			if Choose(2) == 1 {
				name, other = "z", "x"
			}
			v, source = vals[where[use]+other], fmt.Sprintf(uses[use], other)
		}
		as := assignments[1+i]
		code += fmt.Sprintf(formNames[form], name) + " " + as.sign + " " + source
		if as.name != "" {
			v = "(" + as.name + " " + vals[where[form]+name] + " " + v + ")"
		}
		vals[where[form]+name] = v
		if form == 8 {
			code += "}"
		}
		code += "\n"
	}
	t, captured := assignTemplate(context)
	result, err := t.ProcessContent(pre+code+"@capture($)@capture(o)|@{x}|@{z}", "test.gt")
	Observe("code", code)
	Observe("result", result)
	Assert(err == nil, "the assignments are translated to valid code")
	Assert(len(*captured) == 2 && strings.TrimSpace(result) == "|"+vals["lx"]+"|"+vals["lz"], "local variables have the last value")
	Assert(holds((*captured)[0], "x", vals["gx"], "z", vals["gz"]), "global variables have the last value")
	Assert(holds((*captured)[1], "x", vals["ox"], "z", vals["oz"]), "inner variables have the last value")
	Reach("end")
}

// Compound assignments with the real functions for every integer of up to 1000 in magnitude (positive for the bitwise
// operators; shifts by 0 to 5, one of -7, 3 and 10 as factor): the variable has the value of the Go operator applied to its
// value and to the whole right-hand side, through global, inner and local forms.
func Verif_C23_arithmetic() {
	StrictAssignationMode = AssignationValidationStrict
	op, min := Choose(10), 0
	if op < 3 {
		min = -1000
	}
	a, b, c := IntRange(min, 1000), IntRange(0, 1000), IntRange(0, 1000)
	var code string
	var want int
	switch op {
	case 0:
		code, want = "+= $.b - $.c", a+(b-c)
	case 1:
		code, want = "-= $.b - $.c", a-(b-c)
	case 2:
		b = []int{-7, 3, 10}[Choose(3)]
		code, want = "*= $.b", a*b
	case 3:
		code, want = "&= $.b | $.c", a&(b|c)
	case 4:
		code, want = "|= $.b & $.c", a|b&c
	case 5:
		code, want = "^= $.b", a^b
	case 6:
		code, want = "&^= $.b", a&^b
	case 7:
		b = Choose(6)
		code, want = "<<= $.b", a<<uint(b)
	case 8:
		b = Choose(6)
		code, want = ">>= $.b", a>>uint(b)
	case 9:
		code, want = "= $.b + $.c", b+c
	}
	form := Choose(len(formNames))
	code = fmt.Sprintf(formNames[form], "x") + " " + code
	if form == 8 {
		code += "}"
	}
	context := map[string]any_{"o": map[string]any_{"x": a}, "x": a, "b": b, "c": c}
	t := plainTemplate(collections.AsDictionary(context))
	var got []any_
	t.AddFunctions(dataFuncsBase, "data", nil)
	t.AddFunctions(mathBaseFuncs, "math", nil)
	t.AddFunctions(mathBitsFuncs, "bits", nil)
	t.AddFunctions(dictionary{"assert": assertError, "capture": func(v any_) string { got = append(got, v); return "" }}, "capture", nil)
	result, err := t.ProcessContent("@{x} := $.x\n@{lo} := $.o\n"+code+"\n@capture($.x)@capture($.o.x)@capture($x)", "test.gt")
	Observe("code", code)
	Observe("a", a)
	Observe("b", b)
	Observe("c", c)
	Observe("got", got)
	Assert(err == nil && len(got) == 3, "the assignment is evaluated")
	_ = result
	where := []int{0, 0, 0, 1, 1, 1, 2, 2, 2, 1, 1}[form]
	for i := range got {
		if i == where {
			Assert(sameNumber(got[i], want), "the variable has the value of the operator")
		} else {
			Assert(Eq(got[i], a), "other variables keep their value")
		}
	}
	Reach("end")
}
