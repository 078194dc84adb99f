package h

import (
	"unicode"
	"unicode/utf8"

	"github.com/qjebbs/go-sqlf/v2/syntax"
)

func styleOf(i int) syntax.BindVarStyle {
	if i == 0 {
		return syntax.Dollar
	}
	return syntax.Question
}

// trim removes surrounding white space.
func trim(s string) string {
	for len(s) > 0 {
		r, w := utf8.DecodeRuneInString(s)
		if !unicode.IsSpace(r) {
			break
		}
		s = s[w:]
	}
	for len(s) > 0 {
		r, w := utf8.DecodeLastRuneInString(s)
		if !unicode.IsSpace(r) {
			break
		}
		s = s[:len(s)-w]
	}
	return s
}

func isLetter(r rune) bool { return unicode.IsLetter(r) }
