package collections

import (
	"strconv"

	. "github.com/coveooss/gotemplate/v3/verifrt"
)

func init() {
	Register("Verif_C11_protect", Verif_C11_protect)
	Register("Verif_C11_longText", Verif_C11_longText)
	Register("Verif_C11_lookAlike", Verif_C11_lookAlike)
}

// sections finds the complete quoted sections, from left to right up to the first quote that is never closed.
func sections(s string) (r []string, outside string) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '"' && s[i] != '`' {
			continue
		}
		end := -1
		slashes := 0
		for j := i + 1; j < len(s); j++ {
			if s[i] == '`' {
				if s[j] == '`' {
					end = j
					break
				}
				continue
			}
			if s[j] == '"' && slashes%2 == 0 {
				end = j
				break
			}
			if s[j] == '\\' {
				slashes++
			} else {
				slashes = 0
			}
		}
		if end < 0 {
			break
		}
		outside += s[start:i] + "\"♠" + strconv.Itoa(len(r)) + "\""
		r = append(r, s[i:end+1])
		i = end
		start = end + 1
	}
	return r, outside + s[start:]
}

func checkProtect(s string) {
	protected, saved := String(s).Protect()
	expected, text := sections(s)
	Assert(len(saved) == len(expected), "as many saved strings as complete quoted sections")
	for i := range expected {
		Assert(string(saved[i]) == expected[i], "the saved strings are the quoted sections in order")
	}
	Assert(string(protected) == text, "each section is replaced by its token, the rest is kept")
	Assert(string(protected.RestoreProtected(saved)) == s, "restoring gives back the original text")
}

// Text of 0..6 (quick) or 0..8 (thorough) arbitrary characters among both quotes, backslash and a letter.
func Verif_C11_protect() {
	checkProtect(Str(6+2*Tier(), "\"`\\a"))
	Reach("end")
}

// Two quoted sections around text: 12..16 characters of which 2 (quick) or 3 (thorough) arbitrary groups of two characters
// among both quotes, backslash and a letter.
func Verif_C11_longText() {
	s := "x" + StrN(2, "\"`\\a") + "♠ é\"b" + StrN(2, "\"`\\a") + "c\\\" `d"
	if Tier() > 0 {
		s += StrN(2, "\"`\\a")
	}
	checkProtect(s + "\"")
	Reach("end")
}

// Text containing the token notation itself (with number 0, 1 or 7, also incomplete) after 0..3 (quick) or 0..4 (thorough)
// arbitrary characters among both quotes, backslash and a letter, and followed by 0..1 such character.
func Verif_C11_lookAlike() {
	token := []string{"\"♠0\"", "\"♠1\"", "\"♠7\"", "♠0\"", "\"♠0"}[Choose(5)]
	s := Str(3+Tier(), "\"`\\a") + token + Str(1, "\"`\\a")
	protected, saved := String(s).Protect()
	Assert(string(protected.RestoreProtected(saved)) == s, "restoring gives back the original text")
	expected, _ := sections(s)
	Assert(len(saved) >= len(expected), "every quoted section is saved")
	for i := range expected {
		Assert(string(saved[i]) == expected[i], "the quoted sections are saved in order")
	}
	Reach("end")
}
