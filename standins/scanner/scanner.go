// Package scanner is a clean-room stand-in for github.com/boynton/scanner v1.0.0,
// which is not available in this sandbox. It was written from the way
// /repo/parser.go uses that package: the token kinds, the token fields, and the
// fact that string literals are later unquoted by the parser (so a STRING token
// carries the raw text between its quotes).
package scanner

import (
	"bufio"
	"fmt"
	"io"
	"strings"
	"unicode"
)

type TokenType int

const (
	UNDEFINED TokenType = iota
	EOF
	SYMBOL
	NUMBER
	STRING
	LINE_COMMENT
	BLOCK_COMMENT
	NEWLINE
	SEMICOLON
	COMMA
	COLON
	DOT
	EQUALS
	AT
	HASH
	DOLLAR
	QUESTION
	SLASH
	OPEN_BRACE
	CLOSE_BRACE
	OPEN_PAREN
	CLOSE_PAREN
	OPEN_BRACKET
	CLOSE_BRACKET
	OPEN_ANGLE
	CLOSE_ANGLE
)

var names = map[TokenType]string{
	UNDEFINED: "UNDEFINED", EOF: "EOF", SYMBOL: "SYMBOL", NUMBER: "NUMBER", STRING: "STRING",
	LINE_COMMENT: "LINE_COMMENT", BLOCK_COMMENT: "BLOCK_COMMENT", NEWLINE: "NEWLINE",
	SEMICOLON: "SEMICOLON", COMMA: "COMMA", COLON: "COLON", DOT: "DOT", EQUALS: "EQUALS",
	AT: "AT", HASH: "HASH", DOLLAR: "DOLLAR", QUESTION: "QUESTION", SLASH: "SLASH",
	OPEN_BRACE: "OPEN_BRACE", CLOSE_BRACE: "CLOSE_BRACE",
	OPEN_PAREN: "OPEN_PAREN", CLOSE_PAREN: "CLOSE_PAREN",
	OPEN_BRACKET: "OPEN_BRACKET", CLOSE_BRACKET: "CLOSE_BRACKET",
	OPEN_ANGLE: "OPEN_ANGLE", CLOSE_ANGLE: "CLOSE_ANGLE",
}

func (t TokenType) String() string { return names[t] }

type Token struct {
	Type  TokenType
	Text  string
	Line  int
	Start int
}

func (tok Token) String() string {
	return fmt.Sprintf("<%v %q %d:%d>", tok.Type, tok.Text, tok.Line, tok.Start)
}

func (tok Token) IsText() bool    { return tok.Type == SYMBOL || tok.Type == STRING }
func (tok Token) IsNumeric() bool { return tok.Type == NUMBER }

const eof = rune(-1)

type Scanner struct {
	r      *bufio.Reader
	line   int
	col    int
	pcol   int
	peeked bool
	ch     rune
}

func NewScanner(r io.Reader) *Scanner {
	return &Scanner{r: bufio.NewReader(r), line: 1}
}

func (s *Scanner) read() rune {
	if s.peeked {
		s.peeked = false
	} else {
		ch, _, err := s.r.ReadRune()
		if err != nil {
			s.ch = eof
		} else {
			s.ch = ch
		}
	}
	s.pcol = s.col
	if s.ch == '\n' {
		s.line++
		s.col = 0
	} else if s.ch != eof {
		s.col++
	}
	return s.ch
}

func (s *Scanner) unread() {
	s.peeked = true
	if s.ch == '\n' {
		s.line--
	}
	s.col = s.pcol
}

func letter(ch rune) bool {
	return ch == '_' || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch > 127 && unicode.IsLetter(ch))
}
func digit(ch rune) bool { return ch >= '0' && ch <= '9' }

var punct = map[rune]TokenType{
	';': SEMICOLON, ',': COMMA, ':': COLON, '.': DOT, '=': EQUALS, '@': AT, '#': HASH,
	'$': DOLLAR, '?': QUESTION, '{': OPEN_BRACE, '}': CLOSE_BRACE, '(': OPEN_PAREN,
	')': CLOSE_PAREN, '[': OPEN_BRACKET, ']': CLOSE_BRACKET, '<': OPEN_ANGLE, '>': CLOSE_ANGLE,
}

func (s *Scanner) Scan() Token {
	ch := s.read()
	for ch == ' ' || ch == '\t' || ch == '\r' {
		ch = s.read()
	}
	tok := Token{Line: s.line, Start: s.col}
	switch {
	case ch == eof:
		tok.Type = EOF
	case ch == '\n':
		tok.Line = s.line - 1
		tok.Type, tok.Text = NEWLINE, "\n"
	case letter(ch):
		tok.Type = SYMBOL
		tok.Text = s.while(ch, func(c rune) bool { return letter(c) || digit(c) })
	case digit(ch) || ch == '-':
		tok.Type = NUMBER
		tok.Text = s.number(ch)
		if tok.Text == "-" {
			tok.Type = UNDEFINED
		}
	case ch == '"':
		s.str(&tok)
	case ch == '/':
		s.comment(&tok)
	default:
		if t, ok := punct[ch]; ok {
			tok.Type, tok.Text = t, string(ch)
		} else {
			tok.Type, tok.Text = UNDEFINED, string(ch)
		}
	}
	return tok
}

func (s *Scanner) while(first rune, ok func(rune) bool) string {
	var b strings.Builder
	b.WriteRune(first)
	for {
		ch := s.read()
		if ch == eof {
			return b.String()
		}
		if !ok(ch) {
			s.unread()
			return b.String()
		}
		b.WriteRune(ch)
	}
}

func (s *Scanner) number(first rune) string {
	prev := first
	return s.while(first, func(c rune) bool {
		good := digit(c) || c == '.' || c == 'e' || c == 'E' || ((c == '-' || c == '+') && (prev == 'e' || prev == 'E'))
		prev = c
		return good
	})
}

func (s *Scanner) str(tok *Token) {
	var b strings.Builder
	esc := false
	for {
		ch := s.read()
		if ch == eof || (ch == '\n' && !esc) {
			tok.Type, tok.Text = UNDEFINED, "unterminated string"
			return
		}
		if !esc && ch == '"' {
			tok.Type, tok.Text = STRING, b.String()
			return
		}
		esc = !esc && ch == '\\'
		b.WriteRune(ch)
	}
}

func (s *Scanner) comment(tok *Token) {
	ch := s.read()
	switch ch {
	case '/':
		var b strings.Builder
		for {
			ch = s.read()
			if ch == eof {
				break
			}
			if ch == '\n' {
				s.unread()
				break
			}
			b.WriteRune(ch)
		}
		tok.Type, tok.Text = LINE_COMMENT, strings.TrimSpace(b.String())
	case '*':
		var b strings.Builder
		prev := rune(0)
		for {
			ch = s.read()
			if ch == eof {
				tok.Type, tok.Text = UNDEFINED, "unterminated comment"
				return
			}
			if prev == '*' && ch == '/' {
				break
			}
			b.WriteRune(ch)
			prev = ch
		}
		tok.Type, tok.Text = BLOCK_COMMENT, strings.TrimSuffix(b.String(), "*")
	default:
		if ch != eof {
			s.unread()
		}
		tok.Type, tok.Text = SLASH, "/"
	}
}

const (
	BLACK = iota
	RED
	GREEN
	YELLOW
	BLUE
)

// FormattedAnnotation renders a message about a token together with some of the
// source lines around it.
func FormattedAnnotation(filename string, source string, prefix string, msg string, tok *Token, color int, contextSize int) string {
	if tok == nil {
		return fmt.Sprintf("%s%s: %s", prefix, filename, msg)
	}
	lines := strings.Split(source, "\n")
	lo, hi := tok.Line-1-contextSize, tok.Line-1+contextSize
	if lo < 0 {
		lo = 0
	}
	if hi > len(lines)-1 {
		hi = len(lines) - 1
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s%s:%d:%d: %s\n", prefix, filename, tok.Line, tok.Start, msg)
	for i := lo; i <= hi; i++ {
		fmt.Fprintf(&b, "%3d\t%s\n", i+1, lines[i])
	}
	return b.String()
}
