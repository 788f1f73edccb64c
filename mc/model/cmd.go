package model

import "strings"

func lookup(name string, list []Cmd) *Cmd {
	for i := range list {
		if len(name) >= list[i].Minlen && strings.HasPrefix(list[i].Name, name) {
			return &list[i]
		}
	}
	return nil
}

// Lookup is the command a (possibly abbreviated) name stands for.
func Lookup(name string, neovim bool) *Cmd {
	c := lookup(name, Builtin)
	if neovim {
		if a := lookup(name, NeovimAdded); a != nil {
			c = a
		}
		if lookup(name, NeovimRemoved) != nil {
			c = nil
		}
	}
	return c
}

// commandName finds how far the command name reaches.
func (p *parser) commandName() (string, int) {
	s := p.s
	c := s.at(p.i)
	not := func(k int, set string) bool {
		return !s.atEnd(p.i+k) && !strings.ContainsRune(set, s.at(p.i+k))
	}
	switch {
	case c == 'k':
		return "k", p.i + 1
	case c == 's':
		switch s.at(p.i + 1) {
		case 'g', 'I':
			return "substitute", p.i + 1
		case 'c':
			if not(2, "sr") && not(3, "i") && not(4, "p") {
				return "substitute", p.i + 1
			}
		case 'i':
			if not(2, "mlg") {
				return "substitute", p.i + 1
			}
		case 'r':
			if not(2, "e") {
				return "substitute", p.i + 1
			}
		}
	case c > 0 && strings.ContainsRune("@*!=><&~#", c):
		return string(c), p.i + 1
	case s.has(p.i, "py"):
		e := s.span(p.i, isAlnum)
		return s.str(p.i, e), e
	}
	e := s.span(p.i, isAlpha)
	n := s.str(p.i, e)
	// :delete directly followed by the flag l or p
	if k := len(n) - 1; k >= 1 && n != "del" && (n[k] == 'l' || n[k] == 'p') && strings.HasPrefix("delete", n[:k]) {
		return n[:k], e - 1
	}
	return n, e
}

func (p *parser) named() {
	s := p.s
	name, e := p.commandName()
	cmd := Lookup(name, p.neo)
	if name == "" {
		cmd = nil
	} else if (cmd == nil || cmd.Name == "Print") && 'A' <= name[0] && name[0] <= 'Z' {
		e = s.span(e, isAlnum)
		cmd = &Cmd{Name: s.str(p.cmd, e), Flags: "USERCMD"}
	}
	if cmd == nil {
		p.failAt(p.cmd, "E492: Not an editor command: %s", s.str(p.cmd, s.eol(p.cmd)))
	}
	p.i = e
	p.ea.Name, p.ea.Flags, p.ea.Minlen = cmd.Name, cmd.Flags, cmd.Minlen
	isCmd := func(names ...string) bool { return contains(names, cmd.Name) }

	if s.at(p.i) == '!' && !isCmd("substitute", "smagic", "snomagic") {
		p.i++
		p.ea.Forceit = true
		if !cmd.Has("BANG") && !cmd.Has("USERCMD") {
			p.failAt(p.cmd, "E477: No ! allowed")
		}
	}
	if cmd.Name != "!" {
		p.skip()
	}
	p.arg = p.i
	p.ea.Arg = p.here()
	if cmd.Has("ARGOPT") {
		p.argopt()
	}
	switch {
	case isCmd("write", "update") && s.at(p.i) == '>':
		if s.at(p.i+1) != '>' {
			p.failAt(p.cmd, "E494: Use w or w>>")
		}
		p.i += 2
		p.skip()
		p.ea.Append = 1
	case isCmd("write") && s.at(p.i) == '!':
		p.i++
		p.ea.Usefilter = true
	case isCmd("read") && p.ea.Forceit:
		p.ea.Usefilter, p.ea.Forceit = true, false
	case isCmd("read") && s.at(p.i) == '!':
		p.i++
		p.ea.Usefilter = true
	case isCmd("<", ">"):
		k := s.span(p.i, func(r rune) bool { return string(r) == cmd.Name })
		p.ea.Amount = 1 + k - p.i
		p.i = s.blank(k)
	}
	if cmd.Has("EDITCMD") && !p.ea.Usefilter && s.at(p.i) == '+' {
		p.i++
		if s.at(p.i) == ' ' {
			p.ea.EcmdCmd = "$"
		} else {
			p.ea.EcmdCmd = p.plusCommand()
		}
	}
	h := special[cmd.Name]
	if h == nil || cmd.Has("USERCMD") {
		h = (*parser).generic
	}
	h(p)
}

// Has reports whether the command has a flag.
func (c *Cmd) Has(f string) bool { return hasFlag(c.Flags, f) }

func hasFlag(flags, f string) bool { return contains(strings.Split(flags, "|"), f) }

func (p *parser) flag(f string) bool { return hasFlag(p.ea.Flags, f) }

func (p *parser) plusCommand() string {
	s := p.s
	var b strings.Builder
	for !s.atEnd(p.i) && !isWhite(s.at(p.i)) {
		if s.at(p.i) == '\\' {
			p.i++
			if s.atEnd(p.i) {
				break
			}
		}
		b.WriteString(s.str(p.i, p.i+1))
		p.i++
	}
	return b.String()
}

// argopt parses "++opt" arguments.
func (p *parser) argopt() {
	s := p.s
	for s.has(p.i, "++") {
		at := p.i
		opt := func(name string) bool { // "++name" as a whole word
			return s.has(at, "++"+name) && !isWord(s.at(at+2+len(name)))
		}
		val := func(names ...string) bool { // "++name=" with a value
			for _, n := range names {
				if s.has(at, "++"+n+"=") {
					p.i = at + 3 + len(n)
					return true
				}
			}
			return false
		}
		bad := func() { p.failAt(at, "E474: Invalid Argument") }
		switch {
		case opt("bin"):
			p.ea.ForceBin = 1
			p.i += 5
		case opt("nobin"):
			p.ea.ForceBin = 2
			p.i += 7
		case opt("edit"):
			p.ea.ReadEdit = 1
			p.i += 6
		case val("ff", "fileformat"):
			e := s.span(p.i, isWord)
			w := s.str(p.i, e)
			if w != "dos" && w != "unix" && w != "mac" {
				bad()
			}
			p.ea.FF = w
			p.i = e
		case val("enc", "encoding"):
			if s.atEnd(p.i) || isWhite(s.at(p.i)) {
				bad()
			}
			e := s.span(p.i, func(r rune) bool { return r >= 0 && !isWhite(r) || r == cBad })
			p.ea.Enc = s.str(p.i, e)
			p.i = e
		case val("bad"):
			e := s.span(p.i, func(r rune) bool { return r >= 0 && !isWhite(r) || r == cBad })
			if w := s.str(p.i, e); w != "keep" && w != "drop" && e != p.i+1 {
				bad()
			}
			p.ea.Bad = s.str(p.i, e)
			p.i = e
		default:
			bad()
		}
		p.skip()
	}
}

// generic: any command without syntax of its own.
func (p *parser) generic() {
	if p.flag("TRLBAR") && !p.ea.Usefilter {
		p.raw(p.separate())
		return
	}
	e := p.s.eol(p.i)
	p.raw(e)
	p.i = e
}

// separate finds where a command that may be followed by another one ends and
// returns the end of its text.
func (p *parser) separate() int {
	s := p.s
	if contains([]string{"vimgrep", "vimgrepadd", "lvimgrep", "lvimgrepadd"}, p.ea.Name) {
		p.grepPattern()
	}
	comments := !p.flag("NOTRLCOM")
	files := p.flag("XFILE") || p.flag("FILES") || p.flag("FILE1")
	textEnd := p.i // after the last significant character
	prev := rune(0)
	for !s.atEnd(p.i) {
		c := s.at(p.i)
		if c == 0x16 { // CTRL-V quotes the next character
			p.i++
			textEnd = p.i
			if s.atEnd(p.i) {
				break
			}
			prev = s.at(p.i)
			p.i++
			if !isWhite(prev) {
				textEnd = p.i
			}
			continue
		}
		if files && s.has(p.i, "`=") {
			p.i += 2
			p.expr()
			if s.at(p.i) != '`' {
				sh := s.show(p.i)
				if s.atEnd(p.i) {
					sh = ""
				}
				p.failAt(p.i, "unexpected character: %s", sh)
			}
			p.i++
			prev, textEnd = '`', p.i
			continue
		}
		comment := comments && c == '"' && !p.registerQuote(prev)
		if (c == '|' || comment) && prev != '\\' {
			break
		}
		p.i++
		prev = c
		if !isWhite(c) {
			textEnd = p.i
		}
	}
	if !comments {
		return p.i
	}
	return textEnd
}

// registerQuote: the quote names a register rather than starting a comment.
func (p *parser) registerQuote(prev rune) bool {
	switch p.ea.Name {
	case "@", "*":
		return p.i == p.arg
	case "redir":
		return p.i == p.arg+1 && prev == '@'
	}
	return false
}

func (p *parser) grepPattern() {
	s := p.s
	switch c := s.at(p.i); {
	case s.atEnd(p.i):
	case isWord(c):
		for !s.atEnd(p.i) && !isWhite(s.at(p.i)) {
			p.i++
		}
	default:
		p.i++
		if _, ok := p.pattern(c); ok {
			p.i = s.span(p.i, func(r rune) bool { return r == 'g' || r == 'j' })
		}
	}
}
