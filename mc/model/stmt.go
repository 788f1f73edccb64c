package model

import (
	"strconv"
	"strings"
)

// Block structure.  A frame is an open block; arms (elseif, else, catch,
// finally) are frames of their own on top of the block they belong to.
type frame struct {
	kind string // "File", "Function", "If", "ElseIf", ...
	node *Node
	body *Child
	end  *Child            // slot of the closing command
	arms map[string]*Child // slots of the arms
	root *frame            // for an arm, the block it belongs to
}

// family of each frame kind, for the "missing end" diagnostics.
var family = map[string]string{
	"If": "if", "ElseIf": "if", "Else": "if",
	"Try": "try", "Catch": "try", "Finally": "try",
	"While": "while", "For": "for", "Function": "function", "File": "file",
}

var missing = map[string]string{
	"if":       "E171: Missing :endif:    ",
	"try":      "E600: Missing :endtry:    ",
	"while":    "E170: Missing :endwhile:    ",
	"for":      "E170: Missing :endfor:    ",
	"function": "E126: Missing :endfunction:    ",
}

type arm struct {
	after []string // frame kinds it may follow
	fail  string
}

var arms = map[string]arm{
	"ElseIf":  {[]string{"If", "ElseIf"}, "E582: :elseif without :if"},
	"Else":    {[]string{"If", "ElseIf"}, "E581: :else without :if"},
	"Catch":   {[]string{"Try", "Catch"}, "E603: :catch without :try"},
	"Finally": {[]string{"Try", "Catch"}, "E606: :finally without :try"},
}

type closer struct {
	family string
	fail   string
}

var closers = map[string]closer{
	"EndIf":       {"if", "E580: :endif without :if"},
	"EndWhile":    {"while", "E588: :endwhile without :while"},
	"EndFor":      {"for", "E588: :endfor without :for"},
	"EndTry":      {"try", "E602: :endtry without :try"},
	"EndFunction": {"function", "E193: :endfunction not inside a function"},
}

func (p *parser) top() *frame { return p.stack[len(p.stack)-1] }

func (p *parser) inside(kinds ...string) bool {
	for _, f := range p.stack {
		for _, k := range kinds {
			if f.kind == k {
				return true
			}
		}
	}
	return false
}

func (p *parser) add(n *Node) { b := p.top().body; b.N = append(b.N, n) }

// block opens a block: the node gets the slots body, end and arms.
func (p *parser) open(n *Node, armKinds ...string) {
	n.C = append(n.C, Child{K: "body"}, Child{K: "end"})
	for _, a := range armKinds {
		n.C = append(n.C, Child{K: a})
	}
	f := &frame{kind: n.Kind, node: n, arms: map[string]*Child{}}
	for i := range n.C {
		switch c := &n.C[i]; c.K {
		case "body":
			f.body = c
		case "end":
			f.end = c
		default:
			f.arms[c.K] = c
		}
	}
	f.root = f
	p.stack = append(p.stack, f)
}

func (p *parser) pop() { p.stack = p.stack[:len(p.stack)-1] }

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// enterArm checks an arm may start here and returns the function that records it.
func (p *parser) enterArm(kind string) func(*Node) {
	t := p.top()
	if kind == "Catch" && t.kind == "Finally" {
		p.failAt(p.cmd, "E604: :catch after :finally")
	}
	if !contains(arms[kind].after, t.kind) {
		p.failAt(p.cmd, "%s", arms[kind].fail)
	}
	root := t.root
	if t != root {
		p.pop()
	}
	return func(n *Node) {
		n.C = append(n.C, Child{K: "body"})
		slot := root.arms[kind]
		slot.N = append(slot.N, n)
		p.stack = append(p.stack, &frame{kind: kind, node: n, body: &n.C[len(n.C)-1], root: root})
	}
}

func (p *parser) closeBlock(kind string) {
	c := closers[kind]
	t := p.top()
	if family[t.kind] != c.family {
		if kind == "EndFunction" && t.kind != "File" {
			p.failAt(p.cmd, "%sENDFUNCTION", missing[family[t.kind]])
		}
		p.failAt(p.cmd, "%s", c.fail)
	}
	if t != t.root {
		p.pop()
	}
	t.root.end.N = []*Node{p.stmt(kind)}
	p.pop()
}

// stmt makes a node for the command at hand.
func (p *parser) stmt(kind string, c ...Child) *Node {
	n := p.node(kind, p.cmd, c...)
	n.EA = p.ea
	return n
}

// Parse parses a script.
func Parse(text string, neovim bool) (n *Node, err *Error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Error)
			if !ok {
				panic(r)
			}
			n, err = nil, e
		}
	}()
	p := &parser{s: NewSrc(text), neo: neovim}
	file := p.node("File", 0)
	p.open(file)
	for p.s.at(p.i) != cEOF {
		p.command()
	}
	if f := family[p.top().kind]; f != "file" {
		p.failAt(p.i, "%sTOPLEVEL", missing[f])
	}
	file.C = file.C[:1]
	return file, nil
}

// command parses one command with its separator.
func (p *parser) command() {
	s := p.s
	if s.has(p.i, "#!") {
		p.i = s.eol(p.i) + 1
		return
	}
	p.skipColons()
	if s.atEnd(p.i) {
		p.i++
		return
	}
	if s.at(p.i) == '"' {
		p.comment()
		return
	}
	p.ea = &ExArg{}
	p.line = p.i
	p.ea.Line = p.here()
	p.modifiers()
	p.ranges()
	p.skipColons()
	p.cmd = p.i
	p.ea.Cmd = p.here()
	if s.atEnd(p.i) || s.at(p.i) == '"' {
		if len(p.ea.Mods) > 0 || len(p.ea.Range) > 0 {
			p.raw(p.i)
		}
	} else {
		p.named()
	}
	p.trail()
}

func (p *parser) here() *Pos { q := p.s.posAt(p.i); return &q }

func (p *parser) skipColons() {
	p.i = p.s.span(p.i, func(r rune) bool { return isWhite(r) || r == ':' })
}

func (p *parser) skip() { p.i = p.s.blank(p.i) }

func (p *parser) comment() {
	e := p.s.eol(p.i)
	p.add(p.node("Comment", p.i).attr("text", p.s.str(p.i+1, e)))
	p.i = e + 1
}

// trail consumes the end of a command: line end, bar or comment.
func (p *parser) trail() {
	p.skip()
	switch p.s.at(p.i) {
	case cEOF:
	case cEOL, '|':
		p.i++
	case '"':
		p.comment()
	default:
		p.failAt(p.i, "E488: Trailing characters: %s", p.s.show(p.i))
	}
}

// raw adds a generic command whose text ends before cell end.
func (p *parser) raw(end int) {
	p.add(p.stmt("Excmd").attr("text", p.s.str(p.line, end)))
}

func (p *parser) rawLines(lines []string) {
	p.add(p.stmt("Excmd").attr("text", strings.Join(lines, "\n")))
}

// ends: where a command may end without argument.
func (p *parser) ends() bool {
	r := p.s.at(p.i)
	return p.s.atEnd(p.i) || r == '|' || r == '"'
}

type modifier struct {
	name string
	min  int
}

var modifiers = []modifier{
	{"aboveleft", 3}, {"belowright", 3}, {"browse", 3}, {"botright", 2}, {"confirm", 4},
	{"keepmarks", 3}, {"keepalt", 5}, {"keepjumps", 5}, {"keeppatterns", 5}, {"hide", 3},
	{"lockmarks", 3}, {"leftabove", 5}, {"noautocmd", 3}, {"noswapfile", 3}, {"rightbelow", 6},
	{"sandbox", 3}, {"silent", 3}, {"tab", 3}, {"topleft", 2}, {"unsilent", 3},
	{"vertical", 4}, {"verbose", 4},
}

// Modifiers lists the command modifiers with their shortest abbreviation.
func Modifiers() []struct {
	Name string
	Min  int
} {
	var out []struct {
		Name string
		Min  int
	}
	for _, m := range modifiers {
		out = append(out, struct {
			Name string
			Min  int
		}{m.name, m.min})
	}
	return out
}

func (p *parser) modifiers() {
	s := p.s
	for {
		i := p.i
		count := ""
		if isDigit(s.at(i)) {
			e := s.span(i, isDigit)
			count = s.str(i, e)
			i = s.blank(e)
		}
		e := s.span(i, isAlpha)
		word := s.str(i, e)
		var m modifier
		for _, x := range modifiers {
			if len(word) >= x.min && strings.HasPrefix(x.name, word) {
				m = x
				break
			}
		}
		if m.name == "" {
			return
		}
		if h := s.blank(e); m.name == "hide" && (s.atEnd(h) || s.at(h) == '|' || s.at(h) == '"') {
			return // the command, not the modifier
		}
		rec := m.name
		next := s.blank(e)
		switch m.name {
		case "silent":
			if s.at(e) == '!' {
				next = e + 1
				rec += "!"
			}
		case "tab":
			if count != "" {
				rec += "=" + trimCount(count)
			}
		case "verbose":
			if count == "" {
				count = "1"
			}
			rec += "=" + trimCount(count)
		}
		p.ea.Mods = append(p.ea.Mods, rec)
		p.i = next
	}
}

func trimCount(d string) string {
	d = strings.TrimLeft(d, "0")
	if d == "" {
		return "0"
	}
	const max = "9223372036854775807"
	if len(d) > len(max) || len(d) == len(max) && d > max {
		return max
	}
	return d
}

// ranges collects the addresses in front of a command.
func (p *parser) ranges() {
	s := p.s
	take := func(n int) {
		p.ea.Range = append(p.ea.Range, s.str(p.i, p.i+n))
		p.i += n
	}
	for {
		p.address(take)
		if c := s.at(p.i); c == '%' || c == '*' {
			take(1)
		}
		if c := s.at(p.i); c != ';' && c != ',' {
			return
		}
		take(1)
	}
}

func (p *parser) address(take func(int)) {
	s := p.s
	for {
		p.skip()
		switch c := s.at(p.i); {
		case s.atEnd(p.i):
			return
		case c == '.' || c == '$':
			take(1)
		case c == '\'':
			if s.atEnd(p.i + 1) {
				p.i++
				return
			}
			take(2)
		case c == '/' || c == '?':
			p.i++
			pat, _ := p.pattern(c)
			p.ea.Range = append(p.ea.Range, pat)
		case c == '\\':
			if n := s.at(p.i + 1); n != '&' && n != '?' && n != '/' {
				p.failAt(p.i, "E10: \\\\ should be followed by /, ? or &")
			}
			take(2)
		case isDigit(c):
			take(s.span(p.i, isDigit) - p.i)
		}
		for { // offsets
			p.skip()
			k := p.i
			if c := s.at(k); c == '+' || c == '-' {
				k++
			}
			k = s.span(k, isDigit)
			if k == p.i {
				break
			}
			take(k - p.i)
		}
		if c := s.at(p.i); c != '/' && c != '?' {
			return
		}
	}
}

// pattern reads up to and including the delimiter, which does not count
// within brackets or after a backslash.
func (p *parser) pattern(delim rune) (string, bool) {
	s := p.s
	beg := p.i
	depth := 0
	for !s.atEnd(p.i) {
		c := s.at(p.i)
		if c == delim && depth == 0 {
			p.i++
			return s.str(beg, p.i-1), true
		}
		p.i++
		switch c {
		case '\\':
			if s.atEnd(p.i) {
				p.failAt(p.i, "E682: Invalid search pattern or delimiter")
			}
			p.i++
		case '[':
			depth++
		case ']':
			depth--
		}
	}
	return s.str(beg, p.i), false
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }
