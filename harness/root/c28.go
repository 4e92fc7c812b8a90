package main

import (
	"os"

	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/json"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C28_files", Verif_C28_files)
	Register("Verif_C28_values", Verif_C28_values)
	Register("Verif_C28_names", Verif_C28_names)
	Register("Verif_C28_invalid", Verif_C28_invalid)
}

type map_ = map[string]any_

// source28 is a source of variables: what is written on the command line, and what it defines.
type source28 struct {
	text   string
	keys   []string
	values []any_
	absent bool // the file does not exist
	folder bool // it is a folder
	args   any_ // unnamed value
}

var files28 = []source28{
	{text: "a.json", keys: []string{"p", "q"}, values: []any_{1, "two"}},
	{text: "dir/b.yml", keys: []string{"q", "r"}, values: []any_{map_{"s": 3}, []any_{4, 5}}},
	{text: "c.hcl", keys: []string{"r", "p"}, values: []any_{true, 6.5}},
	{text: "dir/list.json", keys: []string{"list"}, values: []any_{[]any_{7, 8}}},
	{text: "text.txt", keys: []string{"text"}, values: []any_{"word"}},
	{text: "none.json", absent: true},
	{text: "empty.json"},
	{text: "dir", folder: true},
}

var values28 = []source28{
	{text: "p=10", keys: []string{"p"}, values: []any_{10}},
	{text: "q=text", keys: []string{"q"}, values: []any_{"text"}},
	{text: "p=", keys: []string{"p"}, values: []any_{""}},
	{text: "r=dir/list.json", keys: []string{"r"}, values: []any_{[]any_{7, 8}}},
	{text: "q=a.json", keys: []string{"q"}, values: []any_{map_{"p": 1, "q": "two"}}},
	{text: "p=none.json", keys: []string{"p"}, values: []any_{"none.json"}},
	{text: "a.json", keys: []string{"a"}, values: []any_{map_{"p": 1, "q": "two"}}},
	{text: "dir/list.json", keys: []string{"list"}, values: []any_{[]any_{7, 8}}},
	{text: `{"p": 11, "q": {"t": 12}}`, keys: []string{"p", "q"}, values: []any_{11, map_{"t": 12}}},
	{text: "other", args: "other"},
	{text: "13", args: 13},
	{text: "q=dir", keys: []string{"q"}, values: []any_{"dir"}},
	{text: "dir", args: "dir"},
	{text: "a=14", keys: []string{"a"}, values: []any_{14}},
}

func setup28() {
	root := Scratch()
	for _, f := range [][2]string{
		{"a.json", `{"p": 1, "q": "two"}`}, {"dir/b.yml", "q:\n  s: 3\nr: [4, 5]\n"}, {"c.hcl", "r = true\np = 6.5\n"}, {"dir/list.json", "[7, 8]"},
		{"text.txt", "word"}, {"empty.json", "{}"}} {
		PutFile(root+"/"+f[0], f[1], 0644)
	}
	os.Chdir(root)
	collections.SetListHelper(json.GenericListHelper)
	collections.SetDictionaryHelper(json.DictionaryHelper)
}

func some28(pool []source28, max int) (result []source28) {
	for n := Choose(max + 1); n > 0; n-- {
		result = append(result, pool[Choose(len(pool))])
	}
	return
}

func texts28(sources []source28) (result []string) {
	for _, s := range sources {
		result = append(result, s.text)
	}
	return
}

// checked28 creates the context and compares it with the sequence of the sources.
func checked28(optional, required, named []source28, ignore bool) {
	mode := []string{"", "json"}[Choose(2)]
	context, err := createContext(texts28(required), texts28(optional), texts28(named), mode, ignore)
	Observe("error", err != nil)
	fails := false
	for _, s := range required {
		fails = fails || s.absent && !ignore || s.folder
	}
	for _, s := range optional {
		fails = fails || s.folder
	}
	Assert((err != nil) == fails, "a missing required file or a file that cannot be read, and only they, is an error")
	if fails {
		return
	}
	expected := map_{}
	var args []any_
	for _, list := range [][]source28{optional, required, named} {
		for _, s := range list {
			for i := range s.keys {
				expected[s.keys[i]] = s.values[i]
			}
			if s.args != nil {
				args = append(args, s.args)
			}
		}
	}
	if args != nil {
		expected["ARGS"] = args
	}
	got := map_{}
	if context != nil {
		got = context.AsMap()
	}
	Observe("context", got)
	Assert(Eq(got, expected), "the context holds each variable with its last definition")
	Reach("end")
}

// Up to 2 optional files then up to 2 required files (3 and 2 when thorough), each any of 8 (map in JSON, YAML or HCL, list, text, missing, empty, folder), missing files ignored or not.
func Verif_C28_files() {
	setup28()
	checked28(some28(files28, 2+Tier()), some28(files28, 2), nil, Choose(2) == 1)
}

// At most one optional file, one required file and up to 2 named values (3 when thorough), each any of 14 (number, text, empty, file or folder under a name, missing file, unnamed file or folder, map, unnamed value).
func Verif_C28_values() {
	setup28()
	checked28(some28(files28[:2], 1), some28(files28[:2], 1), some28(values28, 2+Tier()), false)
}

// A named value "name=value" and an imported file that defines the same name, for every name of one letter and every value of up to 2 characters among "a", digit and minus.
func Verif_C28_names() {
	setup28()
	name := StrN(1, "pqz")
	value := Str(2, "a7-")
	Assume(value != "-" && value != "--")
	context, err := createContext([]string{"a.json"}, nil, []string{name + "=" + value}, "", false)
	Assert(err == nil, "the context is created")
	expected := any_(value)
	switch value {
	case "7":
		expected = 7
	case "77":
		expected = 77
	case "-7":
		expected = -7
	}
	Observe("name", name)
	Observe("value", value)
	Observe("context", context.AsMap())
	Assert(Eq(context.Get(name), expected), "the named value replaces the one of the file")
	if name != "p" {
		Assert(Eq(context.Get("p"), 1), "the other variables are kept")
	}
	if name != "q" {
		Assert(Eq(context.Get("q"), "two"), "the other variables are kept")
	}
	Reach("end")
}

// A file that cannot be read as data (one of 6 truncated or malformed texts) is an error wherever it is used, even when missing files are ignored.
func Verif_C28_invalid() {
	setup28()
	var lists [3][]string
	PutFile("bad.json", []string{"{", `{"a": 1`, "a: [", "a = [", "a: b: c", "[1"}[Choose(6)], 0644)
	lists[Choose(3)] = []string{"bad.json"}
	if lists[2] != nil && Choose(2) == 1 {
		lists[2][0] = "n=bad.json"
	}
	other := Choose(3)
	lists[other] = append(lists[other], "a.json")
	_, err := createContext(lists[0], lists[1], lists[2], []string{"", "json"}[Choose(2)], Choose(2) == 1)
	Assert(err != nil, "an invalid file is an error")
	Reach("end")
}
