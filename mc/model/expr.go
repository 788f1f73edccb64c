package model

// Expression grammar: a precedence table for the infix levels, then prefix,
// postfix and primary forms.

func (p *parser) node(kind string, at int, c ...Child) *Node {
	return &Node{Kind: kind, Pos: p.s.posAt(at), C: c}
}

func (n *Node) attr(k, v string) *Node { n.A = append(n.A, Attr{k, v}); return n }

// level of each infix operator; larger binds tighter.
var level = map[string]int{"||": 2, "&&": 3, "+": 5, "-": 5, ".": 5, "..": 5, "*": 6, "/": 6, "%": 6}

const comparison = 4

func init() {
	for _, o := range []string{"==", "!=", ">", ">=", "<", "<=", "=~", "!~", "is", "isnot"} {
		for _, c := range []string{"", "?", "#"} {
			level[o+c] = comparison
		}
	}
}

// Operators lists every infix operator of the language.
func Operators() map[string]int { return level }

func (p *parser) expr() *Node {
	cond := p.infix(2)
	if t := p.peek(); t.kind == "?" {
		p.i = t.end
		yes := p.expr()
		c := p.next()
		if c.kind != ":" {
			p.unexpected(c)
		}
		no := p.expr()
		return p.node("Ternary", t.beg, One("cond", cond), One("left", yes), One("right", no))
	}
	return cond
}

func (p *parser) unexpected(t tok) { p.failAt(t.beg, "unexpected token: %s", t.text) }

func (p *parser) infix(l int) *Node {
	if l > 6 {
		return p.prefix()
	}
	left := p.infix(l + 1)
	for {
		t := p.peek()
		if level[t.kind] != l {
			return left
		}
		p.i = t.end
		right := p.infix(l + 1)
		op := t.kind
		if op == ".." {
			op = "."
		}
		left = p.node("Binary", t.beg, One("left", left), One("right", right)).attr("op", op)
		if l == comparison { // does not associate
			return left
		}
	}
}

func (p *parser) prefix() *Node {
	t := p.peek()
	if t.kind == "!" || t.kind == "-" || t.kind == "+" {
		p.i = t.end
		return p.node("Unary", t.beg, One("x", p.prefix())).attr("op", t.kind)
	}
	return p.postfix(p.primary(), false)
}

// Values after which ".name" selects a member.
var dottable = map[string]bool{"Ident": true, "CurlyName": true, "Dict": true, "Subscript": true, "Call": true, "Dot": true, "Method": true}

// postfix parses subscripts, slices, members and, unless lvalue, calls.
func (p *parser) postfix(left *Node, lvalue bool) *Node {
	for {
		spaced := isWhite(p.s.at(p.i))
		t := p.peek()
		switch {
		case t.kind == "[" && !spaced:
			p.i = t.end
			left = p.index(left, t)
		case t.kind == "->" && !lvalue:
			p.i = t.end
			m := p.primary()
			o := p.next()
			if o.kind != "(" {
				p.failAt(o.beg, "E107: Missing parentheses: lambda")
			}
			left = p.node("Method", o.beg, One("left", left), One("method", m), Many("args", p.args()))
		case t.kind == "(" && !lvalue:
			p.i = t.end
			left = p.node("Call", t.beg, One("fun", left), Many("args", p.args()))
		case t.kind == "." && !spaced:
			w := p.s.span(t.end, isWord)
			if !dottable[left.Kind] || w == t.end || isName(p.s.at(w)) {
				return left
			}
			right := p.node("Ident", t.end).attr("name", p.s.str(t.end, w))
			left = p.node("Dot", t.beg, One("left", left), One("right", right))
			p.i = w
		default:
			return left
		}
	}
}

func (p *parser) index(left *Node, open tok) *Node {
	closing := func() {
		if t := p.next(); t.kind != "]" {
			p.unexpected(t)
		}
	}
	var low, high *Node
	if p.peek().kind != ":" {
		low = p.expr()
		if p.peek().kind != ":" {
			closing()
			return p.node("Subscript", open.beg, One("left", left), One("right", low))
		}
	}
	p.next() // ":"
	if p.peek().kind != "]" {
		high = p.expr()
	}
	closing()
	return p.node("Slice", open.beg, One("x", left), One("low", low), One("high", high))
}

const maxArgs = 20

func (p *parser) args() []*Node {
	var out []*Node
	last := p.peek()
	if last.kind == ")" {
		p.next()
		return nil
	}
	for {
		out = append(out, p.expr())
		last = p.next()
		if last.kind == ")" {
			break
		}
		if last.kind != "," {
			p.unexpected(last)
		}
		if p.peek().kind == ")" {
			p.next()
			break
		}
	}
	if len(out) > maxArgs {
		p.failAt(last.beg, "E740: Too many arguments for function")
	}
	return out
}

func (p *parser) lit(kind string, t tok) *Node {
	return p.node("Lit", t.beg).attr("kind", kind).attr("value", t.text)
}

func (p *parser) primary() *Node {
	t := p.peek()
	switch t.kind {
	case kNum:
		p.i = t.end
		return p.lit("NUMBER", t)
	case kBlb:
		p.i = t.end
		return p.lit("BLOB", t)
	case kOpt:
		p.i = t.end
		return p.lit("OPTION", t)
	case kEnv:
		p.i = t.end
		return p.lit("ENV", t)
	case kReg:
		p.i = t.end
		return p.lit("REG", t)
	case "\"", "'":
		e := p.quoted(t.beg)
		p.i = e
		return p.lit("STRING", tok{text: p.s.str(t.beg, e), beg: t.beg})
	case "[":
		p.i = t.end
		return p.list(t)
	case "{":
		return p.brace(t)
	case "#{":
		return p.literalDict(t)
	case "(":
		p.i = t.end
		x := p.expr()
		if c := p.next(); c.kind != ")" {
			p.unexpected(c)
		}
		return p.node("Paren", t.beg, One("x", x))
	case kID, "is", "is#", "isnot", "isnot#":
		return p.name(t.beg)
	case "<":
		if p.s.hasFold(t.end, "sid>") {
			return p.name(t.beg)
		}
	}
	p.unexpected(t)
	return nil
}

func (p *parser) list(open tok) *Node {
	var vals []*Node
	for p.peek().kind != "]" {
		vals = append(vals, p.expr())
		t := p.peek()
		if t.kind == "," {
			p.next()
		} else if t.kind != "]" {
			p.unexpected(t)
		}
	}
	p.next()
	return p.node("List", open.beg, Many("values", vals))
}

// name parses an identifier, possibly with curly parts.
func (p *parser) name(at int) *Node {
	p.i = at
	var parts []*Node
	lit := func(end int) {
		parts = append(parts, p.node("CurlyNameLit", p.i).attr("value", p.s.str(p.i, end)))
		p.i = end
	}
	if p.s.hasFold(p.i, "<sid>") {
		lit(p.i + 5)
	}
	for {
		if e := p.s.span(p.i, isName); e > p.i {
			lit(e)
		} else if p.s.at(p.i) == '{' {
			open := p.i
			p.i++
			v := p.expr()
			p.i = p.s.blank(p.i)
			if p.s.at(p.i) != '}' {
				p.failAt(p.i, "unexpected token: %s", p.s.show(p.i))
			}
			p.i++
			parts = append(parts, p.node("CurlyNameExpr", open, One("value", v)))
		} else {
			break
		}
	}
	if len(parts) == 1 && parts[0].Kind == "CurlyNameLit" {
		return p.node("Ident", at).attr("name", parts[0].Get("value"))
	}
	return p.node("CurlyName", at, Many("parts", parts))
}

// brace parses what "{" opens: lambda, dictionary or curly-braces name.
func (p *parser) brace(open tok) *Node {
	first := p.lexAt(open.end)
	lambda := first.kind == "->"
	if !lambda && first.kind != "'" && first.kind != "\"" {
		second := p.lexAt(first.end)
		lambda = (first.kind == kID || first.kind == "...") && (second.kind == "->" || second.kind == ",")
	}
	p.i = open.end
	if lambda {
		if n := p.lambda(open); n != nil {
			return n
		}
		p.i = open.end
	}
	var entries []*Node
	for {
		if t := p.peek(); t.kind == "}" {
			p.next()
			return p.node("Dict", open.beg, Many("entries", entries))
		}
		k := p.expr()
		t := p.next()
		if t.kind == "}" && len(entries) == 0 {
			return p.name(open.beg)
		}
		if t.kind != ":" {
			p.unexpected(t)
		}
		entries = p.entry(entries, k)
		t = p.next()
		if t.kind == "}" {
			return p.node("Dict", open.beg, Many("entries", entries))
		}
		if t.kind != "," {
			p.unexpected(t)
		}
	}
}

func (p *parser) entry(es []*Node, k *Node) []*Node {
	v := p.expr()
	return append(es, &Node{Kind: "Entry", C: []Child{One("key", k), One("value", v)}})
}

func isLitKey(r rune) bool { return isWord(r) || r == '-' }

// literalDict parses "#{key: value, ...}".
func (p *parser) literalDict(open tok) *Node {
	p.i = open.end
	var entries []*Node
	if k := p.s.blank(p.i); p.s.at(k) == '}' {
		p.i = k + 1
		return p.node("Dict", open.beg, Many("entries", nil))
	}
	for {
		k := p.s.blank(p.i)
		e := p.s.span(k, isLitKey)
		if e == k {
			p.failAt(k, "unexpected character: %s", p.s.show(k))
		}
		if p.s.atEnd(e) {
			p.failAt(e, "unexpectd EOL")
		}
		p.i = e
		key := p.node("Lit", k).attr("kind", "STRING").attr("value", "'"+p.s.str(k, e)+"'")
		if t := p.next(); t.kind != ":" {
			p.unexpected(t)
		}
		entries = p.entry(entries, key)
		t := p.next()
		if t.kind == "," {
			t = p.peek()
			if t.kind != "}" {
				continue
			}
			p.next()
		} else if t.kind != "}" {
			p.unexpected(t)
		}
		return p.node("Dict", open.beg, Many("entries", entries))
	}
}

func isArgName(t tok) bool {
	for _, r := range t.text {
		if !isWord(r) {
			return false
		}
	}
	return true
}

// lambda parses "{params -> expr}"; nil when it turns out not to be one.
func (p *parser) lambda(open tok) *Node {
	var params []*Node
	seen := map[string]bool{}
	param := func(t tok) { params = append(params, p.node("Ident", t.beg).attr("name", t.text)) }
	for {
		t := p.next()
		if t.kind == "->" {
			break
		}
		if t.kind == "..." {
			param(t)
			if t = p.next(); t.kind != "->" {
				p.unexpected(t)
			}
			break
		}
		if t.kind != kID {
			return nil
		}
		if !isArgName(t) {
			p.failAt(t.beg, "E125: Illegal argument: %s", t.text)
		}
		if seen[t.text] {
			p.failAt(t.beg, "E853: Duplicate argument name: %s", t.text)
		}
		seen[t.text] = true
		param(t)
		p.noSpaceBeforeComma()
		if t = p.next(); t.kind == "->" {
			break
		}
		if t.kind != "," {
			p.unexpected(t)
		}
	}
	body := p.expr()
	if t := p.next(); t.kind != "}" {
		p.unexpected(t)
	}
	return p.node("Lambda", open.beg, Many("params", params), One("expr", body))
}

func (p *parser) noSpaceBeforeComma() {
	if isWhite(p.s.at(p.i)) && p.peek().kind == "," {
		p.failAt(p.i, "E475: Invalid argument: White space is not allowed before comma")
	}
}

// ParseExpr parses the first expression of text, as the language's expression
// entry point does: what follows it is left alone.
func ParseExpr(text string) (n *Node, err *Error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(*Error)
			if !ok {
				panic(r)
			}
			n, err = nil, e
		}
	}()
	p := &parser{s: NewSrc(text)}
	return p.expr(), nil
}
