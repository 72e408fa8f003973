package lang

import (
	"strings"

	"pgregory.net/rapid"
	"verif/harness/pbt"
	"verif/harness/sgen"
)

type tok struct {
	text  string
	space bool // white space or a comment
}

// tokens cuts source in pieces, white space and comments included.
func tokens(s string) []tok {
	var l []tok
	for i := 0; i < len(s); {
		j := i + 1
		space := false
		switch {
		case s[i] == ' ' || s[i] == '\t':
			space = true
			for j < len(s) && (s[j] == ' ' || s[j] == '\t') {
				j++
			}
		case s[i] == '\n':
		case s[i] == '"':
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' {
					j++
				}
				j++
			}
			j++
		case strings.HasPrefix(s[i:], "//"):
			space = true
			for j < len(s) && s[j] != '\n' {
				j++
			}
		case strings.HasPrefix(s[i:], "/*"):
			space = true
			k := strings.Index(s[i+2:], "*/")
			if k < 0 {
				j = len(s)
			} else {
				j = i + 2 + k + 2
			}
		case word(s[i]):
			for j < len(s) && word(s[j]) {
				j++
			}
		}
		if j > len(s) {
			j = len(s)
		}
		l = append(l, tok{s[i:j], space})
		i = j
	}
	return l
}

func word(b byte) bool {
	return b == '_' || b == '.' || b == '-' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

func text(l []tok) string {
	var b strings.Builder
	for _, t := range l {
		b.WriteString(t.text)
	}
	return b.String()
}

var soup = []string{"type", "http", "operation", "example", "include", "base", "name", "namespace", "version", "Foo", "x", "String", "Struct", "Enum", "Union", "Array", "List", "Map", "UnitValue", "Int32", "GET", "\"/a/{x}\"", "\"s\"", "expect", "except", "inputs", "outputs", "exceptions", "200", "-1", "1e99", "99999999999", "{", "}", "(", ")", "<", ">", "[", "]", ",", ";", ":", "=", ".", "\n", "\n", "//c\n", "/*b*/", "required", "default", "header", "pattern", "values", "minsize", "min", "x_a", "reference", "action", "resource", "true", "null", "!", "@", "\"", "\\", "é", "\x00", "/"}

// mutate changes a few tokens.
func mutate(c *pbt.C, src string) string {
	l := tokens(src)
	for n := rapid.IntRange(1, 3).Draw(c.T, "nchanges"); n > 0 && len(l) > 0; n-- {
		i := rapid.IntRange(0, len(l)-1).Draw(c.T, "at")
		switch rapid.IntRange(0, 4).Draw(c.T, "change") {
		case 0:
			l = append(l[:i:i], l[i+1:]...)
		case 1:
			l = append(l[:i:i], append([]tok{l[i]}, l[i:]...)...)
		case 2:
			l = append(l[:i:i], append([]tok{{sgen.Pick(c.T, "soup", soup), false}, {" ", true}}, l[i:]...)...)
		case 3:
			l = append([]tok(nil), l...)
			l[i] = tok{sgen.Pick(c.T, "soup", soup), false}
		case 4:
			j := rapid.IntRange(0, len(l)-1).Draw(c.T, "other")
			l = append([]tok(nil), l...)
			l[i], l[j] = l[j], l[i]
		}
	}
	return text(l)
}
