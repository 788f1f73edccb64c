package model

import "fmt"

// Error is a located syntax error.
type Error struct {
	Pos Pos
	Msg string
}

func (e *Error) Error() string { return fmt.Sprintf("%v: %s", e.Pos, e.Msg) }

type parser struct {
	s   *Src
	i   int
	neo bool

	// statement level
	stack []*frame
	ea    *ExArg
	line  int // first cell of the command line (modifiers and range included)
	cmd   int // first cell of the command name
	arg   int // first cell of the argument
}

func (p *parser) failAt(i int, f string, a ...interface{}) {
	panic(&Error{p.s.posAt(i), fmt.Sprintf(f, a...)})
}

// Operators, longest first.
var operators = []string{
	"isnot?", "isnot#", "isnot", "is?", "is#", "is", // words, handled apart
	"==?", "==#", "!=?", "!=#", ">=?", ">=#", "<=?", "<=#", "=~?", "=~#", "!~?", "!~#", "...",
	"||", "&&", "==", "!=", ">=", "<=", "=~", "!~", ">?", ">#", "<?", "<#", "->", "..", "#{",
	">", "<", "+", "-", ".", "*", "/", "%", "!", "?", ":", "#", "(", ")", "[", "]", "{", "}",
	",", "'", "\"", "=", "|", ";", "`",
}

var symbols = operators[6:]

// Token kinds other than operators, which are their own kind.
const (
	kNum = "number"
	kBlb = "blob"
	kID  = "identifier"
	kEnv = "env"
	kReg = "register"
	kOpt = "option"
	kEOL = "<EOL>"
	kEOF = "<EOF>"
)

type tok struct {
	kind, text string
	beg, end   int
}

// peek lexes the token that follows optional white space at p.i.
func (p *parser) peek() tok { return p.lexAt(p.i) }

// next consumes one token.
func (p *parser) next() tok {
	t := p.lexAt(p.i)
	p.i = t.end
	return t
}

func (p *parser) lexAt(i int) tok {
	s := p.s
	i = s.blank(i)
	mk := func(kind string, end int) tok { return tok{kind, s.str(i, end), i, end} }
	switch c := s.at(i); {
	case c == cEOF:
		return tok{kEOF, kEOF, i, i}
	case c == cEOL:
		return tok{kEOL, kEOL, i, i + 1}
	case isDigit(c):
		return p.lexNumber(i)
	case isAlpha(c) || c == '_':
		end := s.span(i, isWord)
		if w := s.str(i, end); w == "is" || w == "isnot" {
			if q := s.at(end); q == '?' || q == '#' {
				end++
			}
			return tok{s.str(i, end), s.str(i, end), i, end}
		}
		return mk(kID, s.span(i, isName))
	case c == '$':
		return mk(kEnv, s.span(i+1, isWord))
	case c == '@':
		if s.atEnd(i + 1) {
			return mk(kReg, i+1)
		}
		return mk(kReg, i+2)
	case c == '&' && s.at(i+1) != '&':
		k := i + 1
		if s.has(k, "g:") || s.has(k, "l:") {
			k += 2
		}
		return mk(kOpt, s.span(k, isWord))
	}
	for _, o := range symbols {
		if s.has(i, o) {
			return tok{o, o, i, i + len(o)}
		}
	}
	p.failAt(i, "unexpected character: %s", s.show(i))
	panic("unreachable")
}

func (p *parser) lexNumber(i int) tok {
	s := p.s
	mk := func(kind string, end int) tok { return tok{kind, s.str(i, end), i, end} }
	if s.at(i) == '0' {
		switch s.at(i + 1) {
		case 'x', 'X':
			if isHex(s.at(i + 2)) {
				return mk(kNum, s.span(i+2, isHex))
			}
		case 'b', 'B':
			bin := func(r rune) bool { return r == '0' || r == '1' }
			if bin(s.at(i + 2)) {
				return mk(kNum, s.span(i+2, bin))
			}
		case 'z', 'Z':
			if s.at(i+2) != '.' {
				return mk(kBlb, p.blobEnd(i+2))
			}
		}
	}
	k := s.span(i, isDigit)
	if s.at(k) == '.' && isDigit(s.at(k+1)) {
		k = s.span(k+1, isDigit)
		if e := s.at(k); e == 'e' || e == 'E' {
			m := k + 1
			if g := s.at(m); g == '+' || g == '-' {
				m++
			}
			if isDigit(s.at(m)) {
				k = s.span(m, isDigit)
			}
		}
	}
	return mk(kNum, k)
}

// blobEnd scans pairs of hex digits, optionally separated by single dots.
func (p *parser) blobEnd(i int) int {
	s := p.s
	for {
		switch {
		case isHex(s.at(i)):
			if s.atEnd(i + 1) { // accepted, see test/test_err_blob.vim
				return i
			}
			if !isHex(s.at(i + 1)) {
				p.failAt(i, "E973: Blob literal should have an even number of hex characters:%s", s.str(i, i+2))
			}
			i += 2
		case s.at(i) == '.' && isHex(s.at(i+1)):
			i++
		default:
			return i
		}
	}
}

// quoted scans a string literal from its opening quote and returns the cell
// after the closing one.
func (p *parser) quoted(i int) int {
	s := p.s
	q := s.at(i)
	i++
	for {
		if s.atEnd(i) {
			if q == '"' {
				p.failAt(i, "unexpectd EOL")
			}
			p.failAt(i, "unexpected EOL")
		}
		switch {
		case s.at(i) == q:
			if q == '\'' && s.at(i+1) == '\'' {
				i += 2
				continue
			}
			return i + 1
		case q == '"' && s.at(i) == '\\':
			if s.atEnd(i + 1) {
				p.failAt(i+1, "ExprTokenizer: unexpected EOL")
			}
			i += 2
		default:
			i++
		}
	}
}
