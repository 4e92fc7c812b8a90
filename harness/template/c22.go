package template

import (
	"fmt"
	"strings"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C22_bounds", Verif_C22_bounds)
	Register("Verif_C22_trees", Verif_C22_trees)
	Register("Verif_C22_operands", Verif_C22_operands)
	Register("Verif_C22_forms", Verif_C22_forms)
	Register("Verif_C22_invalid", Verif_C22_invalid)
	Register("Verif_C22_delimiters", Verif_C22_delimiters)
	Register("Verif_C22_values", Verif_C22_values)
}

// recorders are functions whose results show how they were called.
func recorders() dictionary {
	funcs := dictionary{}
	for _, name := range []string{"eq", "ne", "lt", "le", "gt", "ge", "add", "sub", "div", "mul", "mod", "or", "and", "not",
		"lshift", "rshift", "bor", "band", "bxor", "bclear", "power", "slice", "extract", "get", "f", "g", "mapper"} {
		name := name
		funcs[name] = func(args ...any_) string { return called(name, args) }
	}
	funcs["obj"] = func(args ...any_) any_ { return map[string]any_{"p": called("obj", args) + ".p"} }
	funcs["probe"] = func(arg any_) string { return "<" + fmt.Sprint(arg) + ">" }
	return funcs
}

func called(name string, args []any_) string {
	s := "(" + name
	for i := range args {
		s += " " + fmt.Sprint(args[i])
	}
	return s + ")"
}

// razorTemplate creates a template with the razor option only and recorders in place of the functions.
func razorTemplate(context any_, delimiters ...string) *Template {
	t := plainTemplate(context, delimiters...)
	t.AddFunctions(recorders(), "recorders", nil)
	return t
}

// plainTemplate creates a template with the razor option only.
func plainTemplate(context any_, delimiters ...string) *Template {
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
	t, err := NewTemplate("/tmp", context, strings.Join(delimiters, ","), OptionsSet{Razor: true})
	Assert(err == nil, "a template is created")
	return t
}

type binary struct {
	op, name string
	prec     int
}

var binaries = []binary{
	{"*", "mul", 5}, {"/", "div", 5}, {"%", "mod", 5}, {"<<", "lshift", 5}, {">>", "rshift", 5}, {"&", "band", 5}, {"&^", "bclear", 5},
	{"+", "add", 4}, {"-", "sub", 4}, {"|", "bor", 4}, {"^", "bxor", 4},
	{"==", "eq", 3}, {"!=", "ne", 3}, {"<", "lt", 3}, {"<=", "le", 3}, {">", "gt", 3}, {">=", "ge", 3},
	{"&&", "and", 2}, {"||", "or", 1},
	{"÷", "div", 5}, {"«", "lshift", 5}, {"»", "rshift", 5}, {"≠", "ne", 3}, {"<>", "ne", 3}, {"≦", "le", 3}, {"≧", "ge", 3},
	{"mul", "mul", 5}, {"div", "div", 5}, {"mod", "mod", 5}, {"lshift", "lshift", 5}, {"rshift", "rshift", 5}, {"band", "band", 5},
	{"bclear", "bclear", 5}, {"add", "add", 4}, {"sub", "sub", 4}, {"bor", "bor", 4}, {"bxor", "bxor", 4}, {"eq", "eq", 3}, {"ne", "ne", 3},
	{"lt", "lt", 3}, {"le", "le", 3}, {"gt", "gt", 3}, {"ge", "ge", 3}, {"and", "and", 2}, {"or", "or", 1},
}

// expr is a razor expression with the way it must be evaluated.
type expr struct {
	text, want string
	prec       int
}

func leaf(kind int) expr {
	switch kind {
	case 0:
		return expr{"a", "A", 9}
	case 1:
		return expr{"$.b", "B", 9}
	case 2:
		return expr{".c", "C", 9}
	case 3:
		return expr{"o.p", "OP", 9}
	case 4:
		return expr{"12", "12", 9}
	case 5:
		return expr{`"x * y"`, "x * y", 9}
	case 6:
		return expr{"$v", "V", 9}
	case 7:
		return expr{"f()", "(f)", 9}
	case 8:
		return expr{"$o.p", "OP", 9}
	case 9:
		// Integer
		d := StrN(2, "1234567890")
		Assume(d[0] != '0')
		return expr{d, d, 9}
	case 10:
		d := "1." + StrN(1, "123456789")
		return expr{d, d, 9}
	case 11:
		// Name declared in the global context, some contain reserved words
		name := []string{"mapped", "func1", "defaults", "rangeStruct", "lt", "eq_", "d_or"}[Choose(7)]
		return expr{name, name, 9}
	case 12:
		s := Str(2, "a*$.) lt")
		return expr{`"` + s + `"`, s, 9}
	}
	if kind == 13 {
		s := Str(2, "a,:[];{}'")
		return expr{`"` + s + `"`, s, 9}
	}
	s := Str(2, "a*$.]\"\\#,:")
	return expr{"`" + s + "`", s, 9}
}

const leaves = 15

func par(e expr, prec int) string {
	if e.prec < prec {
		return "(" + e.text + ")"
	}
	return e.text
}

func op2(b binary, x, y expr) expr {
	return expr{par(x, b.prec) + " " + b.op + " " + par(y, b.prec+1), "(" + b.name + " " + x.want + " " + y.want + ")", b.prec}
}

// tree builds an expression of the given depth.
func tree(depth int) expr {
	if depth == 0 {
		return leaf(0)
	}
	sub := func(other int) expr {
		if Choose(2) == 0 {
			return leaf(other)
		}
		return tree(depth - 1)
	}
	switch Choose(8) {
	case 0:
		return op2(binaries[Choose(19)], sub(1), leaf(0))
	case 1:
		return op2(binaries[Choose(19)], leaf(0), sub(2))
	case 2:
		x := sub(0)
		return expr{"-" + par(x, 9), "(sub 0 " + x.want + ")", 8}
	case 3:
		x := sub(0)
		return expr{"!" + par(x, 8), "(not " + x.want + ")", 8}
	case 4:
		x := sub(1)
		return expr{"f(" + x.text + ", 2)", "(f " + x.want + " 2)", 9}
	case 5:
		x := sub(1)
		return expr{"f(1, " + x.text + ")", "(f 1 " + x.want + ")", 9}
	case 6:
		x := sub(3)
		return expr{"a[" + x.text + "]", "(slice A " + x.want + ")", 9}
	}
	x := sub(4)
	return expr{"a[1:" + x.text + "]", "(slice A 1 " + x.want + ")", 9}
}

func razorContext() any_ {
	m := map[string]any_{"a": "A", "b": "B", "c": "C", "o": map[string]any_{"p": "OP"}}
	for _, name := range []string{"mapped", "func1", "defaults", "rangeStruct", "lt", "eq_", "d_or"} {
		m[name] = name
	}
	return m
}

const prelude = "@{v} := \"V\"\n@{o} := $.o\n"

func rendered(code, want, label string, delimiters ...string) {
	t := razorTemplate(razorContext(), delimiters...)
	prelude := prelude
	if len(delimiters) == 3 {
		prelude, code = strings.ReplaceAll(prelude, "@", delimiters[2]), strings.Replace(code, "@", delimiters[2], 1)
	}
	result, err := t.ProcessContent(prelude+code, "test.gt")
	Observe("code", code)
	Observe("result", result)
	Assert(err == nil, label+": the expression is translated to valid code")
	Assert(result == "\n"+want, label+": the operands are given to the function of the operator")
}

// Every expression tree of depth 2 (quick) or 3 (thorough) over the 19 binary operators, negations, calls, indexing and
// slicing, the parentheses being only those required by the precedence.
func Verif_C22_trees() {
	e := tree(2 + Tier())
	rendered("@probe("+e.text+")", "<"+e.want+">", "expression")
	Reach("end")
}

// Every operator spelled with a sign or a word, every kind of operand on both sides, with or without spaces around the
// signs (thorough: integers, floats and strings of up to 2 arbitrary characters as operands).
func Verif_C22_operands() {
	b := binaries[Choose(len(binaries))]
	x, y := leaf(0), leaf(1)
	kinds := 9
	if Tier() > 0 {
		kinds = leaves
	}
	if Choose(2) == 0 {
		x = leaf(Choose(kinds))
	} else {
		y = leaf(Choose(kinds))
	}
	e := op2(b, x, y)
	if b.op[0] > 'z' || b.op[0] < 'a' {
		if Choose(2) == 0 {
			e.text = x.text + b.op + y.text
		}
	}
	rendered("@("+e.text+")", e.want, "operands")
	Reach("end")
}

// Every kind of operand as an argument, an index, a bound of a slice, a selection and in the forms of razor expressions.
func Verif_C22_forms() {
	x := leaf(Choose(leaves))
	form(Choose(15), x)
	Reach("end")
}

// Same with other delimiters (thorough: every kind of operand).
func Verif_C22_delimiters() {
	kinds := 9
	if Tier() > 0 {
		kinds = leaves
	}
	x := leaf(Choose(kinds))
	if Choose(4) == 0 {
		x = expr{"\"a@x @{v}\"", "a@x @{v}", 9}
	}
	form(Choose(15), x, [][]string{{"[[", "]]", "§"}, {"<%", "%>", "!!"}}[Choose(2)]...)
	Reach("end")
}

func form(kind int, x expr, delimiters ...string) {
	rendered := func(code, want, label string) { rendered(code, want, label, delimiters...) }
	switch kind {
	case 12:
		rendered("@a[f("+x.text+", 1), 2]", "(extract A (f "+x.want+" 1) 2)", "call as index")
	case 13:
		rendered("@a[a["+x.text+":2], 3]", "(extract A (slice A "+x.want+" 2) 3)", "slice as index")
	case 14:
		rendered("@a[f(1, "+x.text+"):$.b]", "(slice A (f 1 "+x.want+") B)", "call as bound")
	case 0:
		rendered("@("+x.text+")", x.want, "operand")
	case 1:
		rendered("@f("+x.text+", "+x.text+")", "(f "+x.want+" "+x.want+")", "arguments")
	case 2:
		rendered("@a["+x.text+"]", "(extract A "+x.want+")", "index")
	case 3:
		rendered("@a["+x.text+", 1]", "(extract A "+x.want+" 1)", "indexes")
	case 4:
		rendered("@a["+x.text+":2]", "(slice A "+x.want+" 2)", "slice")
	case 5:
		rendered("@f("+x.text+")[1:2];", "(slice (f "+x.want+") 1 2)", "slice of a call")
	case 6:
		rendered("@obj("+x.text+").p", "(obj "+x.want+").p", "selection of a call")
	case 7:
		rendered("@f(g("+x.text+"), 1)", "(f (g "+x.want+") 1)", "nested calls")
	case 8:
		rendered("@(obj("+x.text+").p + 1)", "(add (obj "+x.want+").p 1)", "selection in an expression")
	case 9:
		rendered("@probe(f("+x.text+")[1])", "<(slice (f "+x.want+") 1)>", "index of a call")
	case 10:
		rendered("@probe(a ** "+x.text+")", "<(power A "+x.want+")>", "power")
	case 11:
		rendered("@probe(a * f("+x.text+"))", "<(mul A (f "+x.want+"))>", "product")
	}
}

// Slices of a variable, in parentheses, of a call and in an argument with every bounds of up to 2 (3) digits for the first one and 1 (2) for the last one, among 0, 1 and 9, negative or not, missing or not: a first bound that is missing is 0,
// a last one that is missing is -1, or 0 after a negative first one.
func Verif_C22_bounds() {
	bound := func(digits int) (text, want string) {
		switch Choose(3) {
		case 0:
			return "", ""
		case 1:
			text = Str(digits, "190")
			Assume(text != "")
			Assume(Or(text[0] != '0', len(text) == 1))
			return text, text
		}
		text = Str(digits, "190")
		Assume(text != "")
		Assume(text[0] != '0')
		return "-" + text, "-" + text
	}
	lo, wantLo := bound(2 + Tier())
	hi, wantHi := bound(1 + Tier())
	if hi == "" {
		wantHi = "-1"
		if strings.HasPrefix(lo, "-") {
			wantHi = "0"
		}
	}
	if lo == "" {
		wantLo = "0"
	}
	index := "[" + lo + ":" + hi + "]"
	switch Choose(4) {
	case 0:
		rendered("@a"+index, "(slice A "+wantLo+" "+wantHi+")", "slice of a variable")
	case 1:
		rendered("@(a"+index+")", "(slice A "+wantLo+" "+wantHi+")", "slice of an expression")
	case 2:
		rendered("@f(1)"+index+";", "(slice (f 1) "+wantLo+" "+wantHi+")", "slice of a call")
	case 3:
		rendered("@f(a"+index+")", "(f (slice A "+wantLo+" "+wantHi+"))", "slice as an argument")
	}
	Reach("end")
}

// Constructs without translation, with every kind of operand: an error is reported.
func Verif_C22_invalid() {
	x := leaf(Choose(5)).text
	code := []string{"a.(" + x + ")", "<-" + x, "[]int{" + x + "}", "func() { " + x + " }()", x + " := 1", x + " +* a", "a[" + x, x + " b:", "*" + x,
		"f(" + x, "struct{}{" + x + "}", x + " &^&^ " + x}[Choose(12)]
	t := razorTemplate(razorContext())
	result, err := t.ProcessContent("@probe("+code+")", "test.gt")
	Observe("code", code)
	Observe("result", result)
	Assert(err != nil, "a construct without translation is reported")
	Reach("end")
}

// The value of expressions of three operands with the real functions, for every integer of up to 1000 in magnitude
// (positive for the bitwise operators, one of -7, 3 and 10 as factor): the Go operators and their precedence are the
// reference.
func Verif_C22_values() {
	form := Choose(16)
	min := -1000
	switch form {
	case 5, 6, 7, 13:
		min = 0
	}
	a, b, c := IntRange(min, 1000), IntRange(min, 1000), IntRange(min, 1000)
	switch form {
	case 0, 1, 4, 14:
		b = []int{-7, 3, 10}[Choose(3)]
	case 13:
		Assume(b >= c)
	}
	t := plainTemplate(collections.AsDictionary(map[string]any_{"a": a, "b": b, "c": c}))
	t.AddFunctions(mathBaseFuncs, "math", nil)
	t.AddFunctions(mathBitsFuncs, "bits", nil)
	var got any_
	t.AddFunctions(dictionary{"capture": func(v any_) string { got = v; return "" }}, "capture", nil)
	var code string
	var want any_
	switch form {
	case 0:
		code, want = "a + b * c", a+b*c
	case 1:
		code, want = "a * b + c", a*b+c
	case 2:
		code, want = "a - b - c", a-b-c
	case 3:
		code, want = "a - (b - c)", a-(b-c)
	case 4:
		code, want = "(a + c) * b", (a+c)*b
	case 5:
		code, want = "a & b | c", a&b|c
	case 6:
		code, want = "a ^ b & c", a^b&c
	case 7:
		code, want = "a &^ b", a&^b
	case 8:
		code, want = "a + b < c", a+b < c
	case 9:
		code, want = "a <= b - c", a <= b-c
	case 10:
		code, want = "a == b + c", a == b+c
	case 11:
		code, want = "-a - -b", -a - -b
	case 12:
		code, want = "a - b + c", a-b+c
	case 13:
		code, want = "a | b - c", a|b-c
	case 14:
		code, want = "a != b * c", a != b*c
	case 15:
		code, want = "a > b + c", a > b+c
	}
	result, err := t.ProcessContent("@capture("+code+")", "test.gt")
	Observe("code", code)
	Observe("a", a)
	Observe("b", b)
	Observe("c", c)
	Observe("got", got)
	Assert(err == nil && result == "", "the expression is evaluated")
	Assert(sameNumber(got, want), "the value of the expression is the one of its operators and operands")
	Reach("end")
}

func sameNumber(got, want any_) bool {
	switch got := got.(type) {
	case int64:
		return want == any_(int(got))
	case uint64:
		return want == any_(int(got))
	}
	return Eq(got, want)
}
