package model

// Commands with syntax of their own.
var special map[string]func(*parser)

func init() {
	special = map[string]func(*parser){
		"append": (*parser).appendCmd, "insert": (*parser).appendCmd,
		"loadkeymap": (*parser).loadkeymap,
		"lua":        (*parser).script, "mzscheme": (*parser).script, "perl": (*parser).script,
		"python": (*parser).script, "python3": (*parser).script, "py3": (*parser).script,
		"ruby": (*parser).script, "tcl": (*parser).script,
		"finish":      (*parser).finish,
		"function":    (*parser).function,
		"delfunction": func(p *parser) { p.add(p.stmt("DelFunction", One("name", p.funcName()))) },
		"return":      (*parser).ret,
		"call":        (*parser).call,
		"let":         (*parser).let, "const": (*parser).constant,
		"unlet":     func(p *parser) { p.add(p.stmt("UnLet", Many("list", p.lvalues()))) },
		"lockvar":   func(p *parser) { p.lock("LockVar") },
		"unlockvar": func(p *parser) { p.lock("UnLockVar") },
		"if":        func(p *parser) { p.cond("If", "ElseIf", "Else") },
		"while":     func(p *parser) { p.cond("While") },
		"for":       (*parser).forLoop,
		"try":       func(p *parser) { n := p.stmt("Try"); p.add(n); p.open(n, "Catch", "Finally") },
		"elseif": func(p *parser) {
			rec := p.enterArm("ElseIf")
			rec(p.stmt("ElseIf", One("cond", p.expr())))
		},
		"else":        func(p *parser) { p.enterArm("Else")(p.stmt("Else")) },
		"catch":       (*parser).catch,
		"finally":     func(p *parser) { p.enterArm("Finally")(p.stmt("Finally")) },
		"endif":       func(p *parser) { p.closeBlock("EndIf") },
		"endwhile":    func(p *parser) { p.closeBlock("EndWhile") },
		"endfor":      func(p *parser) { p.closeBlock("EndFor") },
		"endtry":      func(p *parser) { p.closeBlock("EndTry") },
		"endfunction": func(p *parser) { p.closeBlock("EndFunction"); p.i = p.s.eol(p.i) },
		"continue":    func(p *parser) { p.jump("Continue", "E586: :continue without :while or :for") },
		"break":       func(p *parser) { p.jump("Break", "E587: :break without :while or :for") },
		"throw":       func(p *parser) { p.add(p.stmt("Throw", One("expr", p.expr()))) },
		"eval":        func(p *parser) { p.add(p.stmt("Eval", One("expr", p.expr()))) },
		"echo":        (*parser).echo, "echon": (*parser).echo, "echomsg": (*parser).echo, "echoerr": (*parser).echo,
		"execute": func(p *parser) { p.add(p.stmt("Execute", Many("exprs", p.exprs()))) },
		"echohl":  (*parser).echohl,
		"wincmd":  (*parser).wincmd,
		"syntax":  (*parser).syntax,
	}
}

func (p *parser) cond(kind string, arms ...string) {
	n := p.stmt(kind, One("cond", p.expr()))
	p.add(n)
	p.open(n, arms...)
}

func (p *parser) jump(kind, fail string) {
	if !p.inside("While", "For") {
		p.failAt(p.cmd, "%s", fail)
	}
	p.add(p.stmt(kind))
}

func (p *parser) catch() {
	rec := p.enterArm("Catch")
	pat := ""
	p.skip()
	if !p.ends() {
		d := p.s.at(p.i)
		p.i++
		pat, _ = p.pattern(d)
	}
	rec(p.stmt("Catch").attr("pattern", pat))
}

func (p *parser) exprs() []*Node {
	var out []*Node
	for {
		p.skip()
		if p.s.at(p.i) != '"' && p.ends() {
			return out
		}
		out = append(out, p.expr())
	}
}

func (p *parser) echo() {
	p.add(p.stmt("Echo", Many("exprs", p.exprs())).attr("cmd", p.ea.Name))
}

func (p *parser) echohl() {
	beg := p.i
	for !p.ends() {
		p.i++
	}
	p.add(p.stmt("Echohl").attr("name", p.s.str(beg, p.i)))
}

func (p *parser) ret() {
	if !p.inside("Function") {
		p.failAt(p.cmd, "E133: :return not inside a function")
	}
	var v *Node
	p.skip()
	if p.s.at(p.i) == '"' || !p.ends() {
		v = p.expr()
	}
	p.add(p.stmt("Return", One("result", v)))
}

func (p *parser) call() {
	p.skip()
	if p.ends() {
		p.failAt(p.i, "E471: Argument required")
	}
	f := p.expr()
	if f.Kind != "Call" {
		panic(&Error{f.Pos, "Not an function call"})
	}
	p.add(p.stmt("ExCall", One("call", f)))
}

// lvalueNode parses what may stand on the left of an assignment.
func (p *parser) lvalueNode() *Node {
	t := p.peek()
	var n *Node
	switch {
	case t.kind == "{" || t.kind == kID || isWordOp(t) || t.kind == "<" && p.s.hasFold(t.end, "sid>"):
		n = p.name(t.beg)
	case t.kind == kOpt || t.kind == kEnv || t.kind == kReg:
		n = p.primary()
	default:
		p.unexpected(t)
	}
	return p.postfix(n, true)
}

// isWordOp: an operator which is a name where a name is expected.
func isWordOp(t tok) bool {
	return t.kind == "is" || t.kind == "is#" || t.kind == "isnot" || t.kind == "isnot#"
}

// isVarName: [vgslabwt]: alone, or an optional scope and a name.
func isVarName(v string) bool {
	scope := len(v) >= 2 && v[1] == ':' && containsByte("vgslabwt", v[0])
	if scope {
		if len(v) == 2 {
			return true
		}
		v = v[2:]
	}
	for i := 0; i < len(v); i++ {
		r := rune(v[i])
		ok := isWord(r) || r == '#'
		if i == 0 {
			ok = isAlpha(r) || r == '_'
		}
		if !ok {
			return false
		}
	}
	return v != ""
}

func containsByte(s string, b byte) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == b {
			return true
		}
	}
	return false
}

func isLit(n *Node, kind string) bool { return n.Kind == "Lit" && n.Get("kind") == kind }

func (p *parser) lvalue() *Node {
	n := p.lvalueNode()
	checkVarName(n)
	return n
}

func checkVarName(n *Node) {
	if n.Kind == "Ident" && !isVarName(n.Get("name")) {
		panic(&Error{n.Pos, "E461: Illegal variable name: " + n.Get("name")})
	}
}

func (p *parser) constLvalue() *Node {
	n := p.lvalue()
	what := ""
	switch {
	case n.Kind == "Subscript" || n.Kind == "Slice" || n.Kind == "Dot":
		what = "a list or dict"
	case isLit(n, "OPTION"):
		what = "an option"
	case isLit(n, "ENV"):
		what = "an environment variable"
	case isLit(n, "REG"):
		what = "a register"
	default:
		return n
	}
	panic(&Error{n.Pos, "E996: Cannot lock " + what})
}

func (p *parser) funcName() *Node {
	n := p.lvalueNode()
	if n.Kind == "Slice" {
		panic(&Error{n.Pos, "Invalid Expression"})
	}
	return n
}

// lvalues: a list of variables; the first one is parsed as an expression.
func (p *parser) lvalues() []*Node {
	out := []*Node{p.expr()}
	for {
		p.skip()
		if p.ends() {
			return out
		}
		out = append(out, p.lvalue())
	}
}

func (p *parser) lock(kind string) {
	depth := "0"
	p.skip()
	if e := p.s.span(p.i, isDigit); e > p.i {
		depth = trimCount(p.s.str(p.i, e))
		p.i = e
	}
	p.add(p.stmt(kind, Many("list", p.lvalues())).attr("depth", depth))
}

// target parses the left side of :let, :const and :for.
func (p *parser) target(elem func() *Node) []Child {
	t := p.peek()
	if t.kind != "[" {
		return []Child{One("left", elem()), {K: "list"}, {K: "rest"}}
	}
	p.i = t.end
	var list []*Node
	for {
		list = append(list, elem())
		switch t = p.next(); t.kind {
		case ",":
			continue
		case "]":
			return []Child{{K: "left"}, Many("list", list), {K: "rest"}}
		case ";":
			rest := elem()
			if t = p.next(); t.kind == "]" {
				return []Child{{K: "left"}, Many("list", list), One("rest", rest)}
			}
		}
		p.failAt(t.beg, "E475 Invalid argument: %s", t.text)
	}
}

var assignOps = []string{"..=", "=<<", "+=", "-=", ".=", "*=", "/=", "%=", "="}

func (p *parser) let() {
	beg := p.i
	p.skip()
	if p.ends() {
		p.i = beg
		p.generic()
		return
	}
	lhs := p.target(p.lvalue)
	p.skip()
	op := ""
	for _, o := range assignOps {
		if p.s.has(p.i, o) {
			op = o
			break
		}
	}
	if op == "" {
		p.i = beg
		p.generic()
		return
	}
	p.i += len(op)
	var right *Node
	if op == "=<<" {
		right = p.heredoc(p.i - len(op))
	} else {
		right = p.expr()
	}
	p.add(p.stmt("Let", append(lhs, One("right", right))...).attr("op", op))
}

func (p *parser) constant() {
	beg := p.i
	p.skip()
	if p.ends() {
		p.i = beg
		p.generic()
		return
	}
	lhs := p.target(p.constLvalue)
	p.skip()
	if p.s.at(p.i) != '=' {
		p.i = beg
		p.generic()
		return
	}
	p.i++
	p.add(p.stmt("Let", append(lhs, One("right", p.expr()))...).attr("op", "="))
}

func (p *parser) forLoop() {
	lhs := p.target(p.lvalue)
	p.skip()
	e := p.s.span(p.i, isAlpha)
	if p.s.str(p.i, e) != "in" {
		p.failAt(p.i, "Missing \"in\" after :for")
	}
	p.i = e
	n := p.stmt("For", append(lhs, One("right", p.expr()))...)
	p.add(n)
	p.open(n)
}

// heredoc parses "=<< [flags] MARKER" and the lines up to the marker.
func (p *parser) heredoc(op int) *Node {
	s := p.s
	var flags, body []*Node
	marker, indent := "", ""
	for {
		p.skip()
		e := s.span(p.i, isWord)
		if e == p.i {
			p.failAt(p.i, "E172: Missing marker")
		}
		if c := s.at(p.i); c < 'a' || c > 'z' {
			marker = s.str(p.i, e)
			p.i = e
			break
		}
		if s.str(p.i, e) == "trim" {
			l := p.line
			for l > 0 && s.at(l-1) != cEOL {
				l--
			}
			indent = s.str(l, s.blank(l))
		}
		flags = append(flags, p.node("Lit", p.i).attr("kind", "STRING").attr("value", s.str(p.i, e)))
		p.i = e
	}
	p.trail()
	for s.at(p.i) != cEOF {
		e := s.eol(p.i)
		line := s.str(p.i, e)
		if line == marker || line == indent+marker {
			p.i = e
			return p.node("Heredoc", op, Many("flags", flags), Many("body", body)).attr("marker", marker)
		}
		body = append(body, p.node("Lit", p.i).attr("kind", "STRING").attr("value", line))
		p.i = e + 1
	}
	p.failAt(p.i, "E990: Missing end marker '%s'", marker)
	return nil
}

func (p *parser) function() {
	s := p.s
	beg := p.i
	p.skip()
	if p.ends() || s.at(p.i) == '/' {
		p.i = beg
		p.generic()
		return
	}
	name := p.funcName()
	p.skip()
	if name.Kind == "Ident" {
		v := name.Get("name")
		c := rune(v[0])
		if c != '<' && c != '_' && !('A' <= c && c <= 'Z') && !containsByte(v, ':') && !containsByte(v, '#') {
			panic(&Error{name.Pos, "E128: Function name must start with a capital or contain a colon: " + v})
		}
	}
	if s.at(p.i) != '(' {
		p.i = beg
		p.generic()
		return
	}
	p.i++
	params, defaults := p.params()
	attrs := map[string]bool{}
	for {
		p.skip()
		e := s.span(p.i, isAlpha)
		if e == p.i {
			break
		}
		w := s.str(p.i, e)
		if !contains([]string{"range", "abort", "dict", "closure"}, w) {
			p.failAt(p.i, "unexpected token: %s", w)
		}
		attrs[w] = true
		p.i = e
	}
	n := p.stmt("Function", One("name", name), Many("params", params), Many("defaults", defaults))
	for _, a := range []string{"range", "abort", "dict", "closure"} {
		v := ""
		if attrs[a] {
			v = "yes"
		}
		n.attr(a, v)
	}
	p.add(n)
	p.open(n)
}

func (p *parser) params() (params, defaults []*Node) {
	seen := map[string]bool{}
	if t := p.peek(); t.kind == ")" {
		p.i = t.end
		return
	}
	for {
		t := p.next()
		if t.kind != kID && t.kind != "..." {
			p.unexpected(t)
		}
		v := p.node("Ident", t.beg).attr("name", t.text)
		if t.kind == "..." {
			params = append(params, v)
			if t = p.next(); t.kind != ")" {
				p.unexpected(t)
			}
			return
		}
		if !isArgName(t) || t.text == "firstline" || t.text == "lastline" {
			p.failAt(t.beg, "E125: Illegal argument: %s", t.text)
		}
		if seen[t.text] {
			p.failAt(t.beg, "E853: Duplicate argument name: %s", t.text)
		}
		seen[t.text] = true
		params = append(params, v)
		if q := p.peek(); q.kind == "=" {
			p.i = q.end
			defaults = append(defaults, p.expr())
		} else if len(defaults) > 0 {
			p.failAt(t.beg, "E989: Non-default argument follows default argument")
		}
		p.noSpaceBeforeComma()
		t = p.next()
		if t.kind == "," && p.peek().kind == ")" { // trailing comma
			t = p.next()
		}
		if t.kind == ")" {
			return
		}
		if t.kind != "," {
			p.unexpected(t)
		}
	}
}

// appendCmd: text lines up to a lone dot.
func (p *parser) appendCmd() {
	e := p.s.eol(p.i)
	lines := []string{p.s.str(p.line, e)}
	p.i = e + 1
	p.rawLines(p.textLines(lines, "."))
}

// textLines collects lines up to and including the end marker.
func (p *parser) textLines(lines []string, marker string) []string {
	for p.s.at(p.i) != cEOF {
		e := p.s.eol(p.i)
		l := p.s.str(p.i, e)
		lines = append(lines, l)
		p.i = e
		if l == marker {
			break
		}
		p.i++
	}
	return lines
}

func (p *parser) loadkeymap() {
	e := p.s.eol(p.i)
	lines := []string{p.s.str(p.line, e)}
	p.i = e + 1
	for p.s.at(p.i) != cEOF {
		e = p.s.eol(p.i)
		lines = append(lines, p.s.str(p.i, e))
		p.i = e + 1
	}
	p.rawLines(lines)
}

// script: a command line in another language, or "<< MARKER" and a script.
func (p *parser) script() {
	s := p.s
	p.skip()
	e := s.eol(p.i)
	lines := []string{s.str(p.line, e)}
	if s.has(p.i, "<<") {
		marker := s.str(s.blank(p.i+2), e)
		if marker == "" {
			marker = "."
		}
		p.i = e + 1
		lines = p.textLines(lines, marker)
	} else {
		p.i = e
	}
	p.rawLines(lines)
}

func (p *parser) finish() {
	p.generic()
	if p.top().kind == "File" {
		p.i = len(p.s.r)
	}
}

func (p *parser) wincmd() {
	s := p.s
	c := s.at(p.i)
	if s.atEnd(p.i) {
		p.failAt(p.i, "E471: Argument required")
	}
	p.i++
	if c == 'g' || c == 7 {
		c2 := s.at(p.i)
		if !s.atEnd(p.i) {
			p.i++
		}
		if c2 < 0 && c2 != cBad || isWhite(c2) {
			p.failAt(p.i, "E474: Invalid Argument")
		}
	}
	end := p.i
	p.skip()
	if !p.ends() {
		p.failAt(p.i, "E474: Invalid Argument")
	}
	p.raw(end)
}

// syntax: patterns may contain the separators.
func (p *parser) syntax() {
	s := p.s
	for {
		end := p.i
		switch c := s.at(p.i); {
		case c == '/' || c == '\'' || c == '"':
			p.i++
			p.pattern(c)
		case c == '=':
			p.i++
			p.pattern(' ')
		case p.ends():
			p.raw(end)
			return
		}
		if !s.atEnd(p.i) {
			p.i++
		}
	}
}
