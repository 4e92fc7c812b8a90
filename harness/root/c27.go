package main

import (
	"os"
	"path"
	"path/filepath"
	"sort"
	"strings"

	"github.com/coveooss/gotemplate/v3/utils"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C27_extend", Verif_C27_extend)
	Register("Verif_C27_exclude", Verif_C27_exclude)
	Register("Verif_C27_excludeFolders", Verif_C27_excludeFolders)
	Register("Verif_C27_find", Verif_C27_find)
	Register("Verif_C27_patterns", Verif_C27_patterns)
	Register("Verif_C27_links", Verif_C27_links)
	Register("Verif_C27_source", Verif_C27_source)
}

func sameNames(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for i := range a {
		same = And(same, a[i] == b[i])
	}
	return same
}

// Up to 2 arguments of up to 3 characters (4 and 3 when thorough) among "a", "b", comma, blank, tab and star.
func Verif_C27_extend() {
	var values, expected []string
	for n := Choose(3); n > 0; n-- {
		value := Str(3+Tier()*(n%2), "ab, \t*")
		values = append(values, value)
		item := ""
		for i := 0; i <= len(value); i++ {
			if i < len(value) && value[i] != ',' {
				item += value[i : i+1]
				continue
			}
			for item != "" && (item[0] == ' ' || item[0] == '\t') {
				item = item[1:]
			}
			for item != "" && (item[len(item)-1] == ' ' || item[len(item)-1] == '\t') {
				item = item[:len(item)-1]
			}
			if item != "" {
				expected = append(expected, item)
			}
			item = ""
		}
	}
	result := extend(values)
	Observe("values", values)
	Observe("result", result)
	Assert(sameNames(result, expected), "the patterns are those separated by commas, without blanks, in order")
	Reach("end")
}

// globbed tells if a name without separator matches a pattern made of characters, stars and question marks.
func globbed(pattern, name string) bool {
	if pattern == "" {
		return name == ""
	}
	switch pattern[0] {
	case '*':
		return globbed(pattern[1:], name) || name != "" && globbed(pattern, name[1:])
	case '?':
		return name != "" && globbed(pattern[1:], name[1:])
	}
	return name != "" && name[0] == pattern[0] && globbed(pattern[1:], name[1:])
}

// globbedPath tells if a path matches a pattern whose components could be **.
func globbedPath(pattern, name []string) bool {
	if len(pattern) == 0 {
		return len(name) == 0
	}
	if pattern[0] == "**" {
		return globbedPath(pattern[1:], name) || len(name) > 0 && globbedPath(pattern, name[1:])
	}
	return len(name) > 0 && globbed(pattern[0], name[0]) && globbedPath(pattern[1:], name[1:])
}

// Two files of up to 2 characters (3 when thorough) and a list of patterns of up to 3 and 2 characters among "a", "b", "*" and "?", in one or two arguments.
func Verif_C27_exclude() {
	Scratch()
	files := []string{StrN(1+Choose(2+Tier()), "ab"), StrN(1+Choose(2), "ab")}
	p1, p2 := Str(3, "ab*?"), Str(2, "ab*")
	patterns := []string{p1, p2}
	if Choose(2) == 1 {
		patterns = []string{p1 + " ," + p2}
	}
	given := append([]string{}, files...)
	result, err := exclude(files, patterns)
	var expected []string
	for _, file := range given {
		if !(p1 != "" && globbed(p1, file)) && !(p2 != "" && globbed(p2, file)) {
			expected = append(expected, file)
		}
	}
	Observe("files", given)
	Observe("patterns", patterns)
	Observe("result", result)
	Assert(err == nil, "the patterns are valid")
	Assert(sameNames(result, expected), "the files kept are those that match no pattern, in order")
	Assert(sameNames(files, given), "the list supplied is unchanged")
	Reach("end")
}

// Files in folders (relative, full path, or above the current folder) against patterns with folders and **, two patterns at once, from a folder whose name holds special characters or not.
func Verif_C27_excludeFolders() {
	root := Scratch()
	work := []string{"w", "[w]", "w*{a}", `w\`}[Choose(4)]
	os.MkdirAll(root+"/"+work, 0755)
	os.Chdir(root + "/" + work)
	letter := func() string { return StrN(1, "ab") }
	files := []string{letter(), letter() + "/" + letter(), "./" + letter() + "/" + letter(), "a/b/" + letter(), root + "/" + work + "/" + letter(), "../" + letter()}
	n := Choose(len(files))
	files = []string{files[n], files[(n+1)%len(files)]}
	all := []string{"a", "*", "a/b", "*/*", "a/*", "*/b", "**", "**/b", "a/**/b", "../b", "a/**", "./*"}
	pattern := all[Choose(len(all))]
	pattern2 := []string{"", "b/a"}[Choose(2)]
	result, err := exclude(files, []string{pattern, pattern2})
	var expected []string
	for _, file := range files {
		matched := false
		for _, p := range []string{pattern, pattern2} {
			if p == "" {
				continue
			}
			full := file
			if file[0] != '/' {
				full = path.Join(root, work, file)
			}
			prefix := root + "/" + work
			if strings.HasPrefix(p, "../") {
				prefix, p = root, p[3:]
			}
			if strings.HasPrefix(full, prefix+"/") && globbedPath(strings.Split(path.Clean(p), "/"), strings.Split(full[len(prefix)+1:], "/")) {
				matched = true
			}
		}
		if !matched {
			expected = append(expected, file)
		}
	}
	Observe("kept", len(result))
	Observe("pattern", pattern)
	Assert(err == nil, "the patterns are valid")
	Assert(sameNames(result, expected), "the files kept are those that match no pattern, in order")
	Reach("end")
}

// located checks that the files are, once each, those of the second list (full paths).
func located(found, expected []string) {
	for i := range found {
		found[i], _ = filepath.Abs(found[i])
	}
	found = append([]string{}, found...)
	sort.Strings(found)
	sort.Strings(expected)
	Assert(sameNames(found, expected), "each file that matches is found once, and no other")
}

var tree27 = []string{"a.x", "a.y", "d/a.x", "d/b.y", "d/e/a.x", "d/e/c", "d/e/f/a.x", "d.x/a.y", "g/h/a.x", "g/[i]/a.x", "g/i/a.y"}

// A tree of 11 files where each of 4 files may be absent, searched at any depth from 0 to 4 or without limit for one of 7 lists of patterns, from its root (relative or full path) or from a folder of it.
func Verif_C27_find() {
	root := Scratch() + "/t"
	var present []string
	for i, file := range tree27 {
		if (i == 0 || i == 2 || i == 5 || i == 10) && Choose(2) == 1 {
			os.MkdirAll(path.Dir(root+"/"+file), 0755)
			continue
		}
		PutFile(root+"/"+file, "", 0644)
		present = append(present, file)
	}
	folder := []string{"", "/d", "/g/[i]"}[Choose(3)]
	depth := Choose(6)
	suffixes := [][]string{{".x"}, {".y"}, {".x", ".y"}, {".x", ".x"}, {""}, {}, {".z"}}[Choose(7)]
	var patterns []string
	for _, s := range suffixes {
		patterns = append(patterns, "*"+s)
	}
	var expected []string
	for _, file := range present {
		file = root + "/" + file
		if !strings.HasPrefix(file, root+folder+"/") {
			continue
		}
		level := strings.Count(file[len(root+folder)+1:], "/")
		matched := false
		for _, s := range suffixes {
			matched = matched || strings.HasSuffix(file, s)
		}
		if matched && (level <= depth || depth == 5) {
			expected = append(expected, file)
		}
	}
	Observe("expected", len(expected))
	start := root + folder
	if Choose(2) == 1 {
		os.Chdir(root)
		start = "." + folder
	}
	var found []string
	var err error
	if depth == 5 {
		found, err = utils.FindFiles(start, true, false, patterns...)
	} else if depth == 0 {
		found, err = utils.FindFiles(start, false, false, patterns...)
	} else {
		found, err = utils.FindFilesMaxDepth(start, depth, false, patterns...)
	}
	Assert(err == nil, "the search succeeds")
	Observe("found", len(found))
	located(found, expected)
	Reach("end")
}

// Two arbitrary patterns of up to 3 and 2 characters among "a", ".", "*" and "?" on a folder with files named a, aa, .a, a.a, b and a folder named aaa.
func Verif_C27_patterns() {
	root := Scratch() + "/t"
	names := []string{"a", "aa", ".a", "a.a", "b"}
	for _, name := range names {
		PutFile(root+"/"+name, "", 0644)
	}
	PutFile(root+"/aaa/z", "", 0644)
	p1, p2 := StrN(1+Choose(3), "a.*?"), StrN(1+Choose(2), "a*")
	Assume(p1 != "." && p1 != "..")
	found, err := utils.FindFilesMaxDepth(root, 1, true, p1, p2)
	Assert(err == nil, "the search succeeds")
	var expected []string
	for _, name := range append(names, "aaa/z") {
		if globbed(p1, path.Base(name)) || globbed(p2, path.Base(name)) {
			expected = append(expected, root+"/"+name)
		}
	}
	Observe("p1", p1)
	Observe("p2", p2)
	Observe("found", len(found))
	located(found, expected)
	Reach("end")
}

// Two links, each to any of 9 destinations (parent, folders, other link, itself, file, nowhere, outside), in any of 3 folders, by relative or full path, followed or not, at unlimited depth: the search ends and gives each file once.
func Verif_C27_links() {
	Terminates(30000000)
	base := Scratch()
	root := base + "/t"
	for _, file := range []string{"t/a.x", "t/d/a.x", "t/d/e/b.x", "t/g/c.x", "out/o.x", "out/p/q.x"} {
		PutFile(base+"/"+file, "", 0644)
	}
	targets := []string{"t", "t/d", "t/d/e", "out", "t/l1", "t/d/l2", "t/a.x", "nowhere", "out/p"}
	follow := Choose(2) == 1
	links := []string{"t/l1", []string{"t/d/l2", "t/g/l2", "t/a_l2"}[Choose(3)]}
	for _, link := range links {
		target := targets[Choose(len(targets))]
		full := base + "/" + target
		if Tier() == 1 && Choose(2) == 1 {
			full, _ = filepath.Rel(path.Dir(base+"/"+link), full)
		}
		os.Symlink(full, base+"/"+link)
	}
	found, err := utils.FindFiles(root, true, follow, "*.x")
	Assert(err == nil, "the search succeeds")
	Observe("found", len(found))
	for i := range found {
		if real, err := filepath.EvalSymlinks(found[i]); err == nil {
			found[i] = real
		}
	}
	// the files that can be reached, found independently
	reached := map[string]bool{}
	var expected []string
	var reach func(string)
	reach = func(folder string) {
		real, err := filepath.EvalSymlinks(folder)
		if err != nil || reached[real] {
			return
		}
		reached[real] = true
		entries, err := os.ReadDir(real)
		if err != nil {
			return
		}
		for _, entry := range entries {
			name := real + "/" + entry.Name()
			if entry.IsDir() || entry.Type()&os.ModeSymlink != 0 && follow {
				reach(name)
			} else if strings.HasSuffix(name, ".x") {
				expected = append(expected, name)
			}
		}
	}
	reach(root)
	for i := range expected {
		expected[i], _ = filepath.EvalSymlinks(expected[i])
	}
	located(found, expected)
	Reach("end")
}

// The folder searched is itself a link, or a chain of two links, at any depth from 0 to 3, links followed or not.
func Verif_C27_source() {
	base := Scratch()
	for _, file := range []string{"t/a.x", "t/d/a.x", "t/d/e/b.x"} {
		PutFile(base+"/"+file, "", 0644)
	}
	os.Symlink(base+"/t", base+"/l")
	os.Symlink("l", base+"/m")
	folder := base + []string{"/l", "/m", "/l/d"}[Choose(3)]
	depth := Choose(4)
	found, err := utils.FindFilesMaxDepth(folder, depth, Choose(2) == 1, "*.x")
	Assert(err == nil, "the search succeeds")
	var expected []string
	names := []string{"a.x", "d/a.x", "d/e/b.x"}
	if strings.HasSuffix(folder, "d") {
		names = []string{"a.x", "e/b.x"}
	}
	for i, name := range names {
		if i <= depth {
			expected = append(expected, folder+"/"+name)
		}
	}
	Observe("found", len(found))
	located(found, expected)
	Reach("end")
}
