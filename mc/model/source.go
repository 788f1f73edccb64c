package model

import (
	"strings"
	"unicode/utf8"
)

const (
	cEOL rune = -1
	cEOF rune = -2
	cBad rune = -3 // a byte that is not part of a valid UTF-8 sequence
)

// Src is a script as a sequence of logical-line cells.  Continuation lines are
// already folded; every cell remembers its physical position.
type Src struct {
	r   []rune
	raw []string
	pos []Pos
	eof Pos
}

// SplitLines splits text in physical lines: terminated by LF or CRLF, the last
// terminator optional.
func SplitLines(text string) []string {
	l, _ := splitLines(text)
	return l
}

func splitLines(text string) (out []string, start []int) {
	off := 0
	for len(text) > 0 {
		k := strings.IndexByte(text, '\n')
		var l string
		if k < 0 {
			l, text = text, ""
		} else {
			l, text = text[:k], text[k+1:]
		}
		out = append(out, strings.TrimSuffix(l, "\r"))
		start = append(start, off)
		off += len(l) + 1
	}
	return out, append(start, off)
}

func contAt(l string) int { // index after the leading backslash, or -1
	t := strings.TrimLeft(l, " \t")
	if strings.HasPrefix(t, "\\") {
		return len(l) - len(t) + 1
	}
	return -1
}

// NewSrc builds the cells of a script.
func NewSrc(text string) *Src {
	s := &Src{}
	lines, start := splitLines(text)
	for i := 0; i < len(lines); {
		s.addLine(lines[i], 0, i+1, start[i])
		last := i
		i++
		for i < len(lines) {
			k := contAt(lines[i])
			if k < 0 {
				break
			}
			s.addLine(lines[i], k, i+1, start[i])
			last = i
			i++
		}
		l := len(lines[last])
		s.add(cEOL, "", Pos{last + 1, l + 1, start[last] + l})
	}
	s.eof = Pos{len(lines) + 1, 0, start[len(lines)]}
	return s
}

func (s *Src) addLine(l string, from, line, off int) {
	for k := from; k < len(l); {
		r, n := utf8.DecodeRuneInString(l[k:])
		if r == utf8.RuneError && n == 1 {
			r = cBad
		}
		s.add(r, l[k:k+n], Pos{line, k + 1, off + k})
		k += n
	}
}

func (s *Src) add(r rune, raw string, p Pos) {
	s.r = append(s.r, r)
	s.raw = append(s.raw, raw)
	s.pos = append(s.pos, p)
}

func (s *Src) at(i int) rune {
	if i >= len(s.r) {
		return cEOF
	}
	return s.r[i]
}

func (s *Src) posAt(i int) Pos {
	if i >= len(s.r) {
		return s.eof
	}
	return s.pos[i]
}

// str is the raw text of cells [i,j); line ends become "\n".
func (s *Src) str(i, j int) string {
	var b strings.Builder
	for ; i < j && i < len(s.r); i++ {
		if s.r[i] == cEOL {
			b.WriteByte('\n')
		} else {
			b.WriteString(s.raw[i])
		}
	}
	return b.String()
}

// eol is the index of the next line end (or end of input) at or after i.
func (s *Src) eol(i int) int {
	for i < len(s.r) && s.r[i] != cEOL {
		i++
	}
	return i
}

func isWhite(r rune) bool { return r == ' ' || r == '\t' }
func isDigit(r rune) bool { return '0' <= r && r <= '9' }
func isAlpha(r rune) bool { return 'a' <= r && r <= 'z' || 'A' <= r && r <= 'Z' }
func isAlnum(r rune) bool { return isAlpha(r) || isDigit(r) }
func isWord(r rune) bool  { return isAlnum(r) || r == '_' }
func isName(r rune) bool  { return isWord(r) || r == ':' || r == '#' }
func isHex(r rune) bool {
	return isDigit(r) || 'a' <= r && r <= 'f' || 'A' <= r && r <= 'F'
}

// span is the end of the maximal run of cells satisfying f from i.
func (s *Src) span(i int, f func(rune) bool) int {
	for f(s.at(i)) {
		i++
	}
	return i
}

// has reports whether the cells from i spell the ASCII string w.
func (s *Src) has(i int, w string) bool {
	for k := 0; k < len(w); k++ {
		if s.at(i+k) != rune(w[k]) {
			return false
		}
	}
	return true
}

func (s *Src) hasFold(i int, w string) bool {
	for k := 0; k < len(w); k++ {
		r := s.at(i + k)
		if 'A' <= r && r <= 'Z' {
			r += 'a' - 'A'
		}
		if r != rune(w[k]) {
			return false
		}
	}
	return true
}

func (s *Src) blank(i int) int { return s.span(i, isWhite) }

// atEnd reports the end of the line or of the input.
func (s *Src) atEnd(i int) bool { r := s.at(i); return r == cEOL || r == cEOF }

// show is how a cell is named in messages.
func (s *Src) show(i int) string {
	switch s.at(i) {
	case cEOF:
		return "<EOF>"
	case cEOL:
		return "<EOL>"
	}
	return s.raw[i]
}
