package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/token"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C13: the printer.

// binTokens maps the spelling of infix operators to tokens.
var binTokens = map[string]token.Token{
	"||": token.OROR, "&&": token.ANDAND,
	"==": token.EQEQ, "==?": token.EQEQCI, "==#": token.EQEQCS, "!=": token.NEQ, "!=?": token.NEQCI, "!=#": token.NEQCS,
	">": token.GT, ">?": token.GTCI, ">#": token.GTCS, ">=": token.GTEQ, ">=?": token.GTEQCI, ">=#": token.GTEQCS,
	"<": token.LT, "<?": token.LTCI, "<#": token.LTCS, "<=": token.LTEQ, "<=?": token.LTEQCI, "<=#": token.LTEQCS,
	"=~": token.MATCH, "=~?": token.MATCHCI, "=~#": token.MATCHCS, "!~": token.NOMATCH, "!~?": token.NOMATCHCI, "!~#": token.NOMATCHCS,
	"is": token.IS, "is?": token.ISCI, "is#": token.ISCS, "isnot": token.ISNOT, "isnot?": token.ISNOTCI, "isnot#": token.ISNOTCS,
	"+": token.PLUS, "-": token.MINUS, ".": token.DOT, "*": token.STAR, "/": token.SLASH, "%": token.PERCENT,
}

var unTokens = map[string]token.Token{"!": token.NOT, "-": token.MINUS, "+": token.PLUS}

// build makes a tree from prefix notation: "B+ U- a b" etc., [ for a
// subscript, ( for parentheses, a literal or a name otherwise.
func build(words []string) (ast.Expr, []string) {
	w := words[0]
	words = words[1:]
	var x, y ast.Expr
	switch {
	case w == "[":
		x, words = build(words)
		y, words = build(words)
		return &ast.SubscriptExpr{Left: x, Right: y}, words
	case w == "(":
		x, words = build(words)
		return &ast.ParenExpr{X: x}, words
	case w[0] == 'B' && len(w) > 1:
		x, words = build(words)
		y, words = build(words)
		return &ast.BinaryExpr{Left: x, Op: binTokens[w[1:]], Right: y}, words
	case w[0] == 'U' && len(w) > 1:
		x, words = build(words)
		return &ast.UnaryExpr{Op: unTokens[w[1:]], X: x}, words
	}
	switch w[0] {
	case '\'', '"':
		return &ast.BasicLit{Kind: token.STRING, Value: w}, words
	case '&':
		return &ast.BasicLit{Kind: token.OPTION, Value: w}, words
	case '$':
		return &ast.BasicLit{Kind: token.ENV, Value: w}, words
	case '@':
		return &ast.BasicLit{Kind: token.REG, Value: w}, words
	}
	if w[0] >= '0' && w[0] <= '9' {
		if strings.HasPrefix(w, "0z") {
			return &ast.BasicLit{Kind: token.BLOB, Value: w}, words
		}
		return &ast.BasicLit{Kind: token.NUMBER, Value: w}, words
	}
	return &ast.Ident{Name: w}, words
}

// noParens removes the parentheses, makes positions and the number of
// statement-like details irrelevant.
func noParens(n *model.Node) *model.Node {
	for n.Kind == "Paren" && len(n.C) == 1 && len(n.C[0].N) == 1 {
		n = n.C[0].N[0]
	}
	m := &model.Node{Kind: n.Kind, A: n.A}
	for _, c := range n.C {
		d := model.Child{K: c.K}
		for _, x := range c.N {
			if x == nil {
				d.N = append(d.N, nil)
			} else {
				d.N = append(d.N, noParens(x))
			}
		}
		m.C = append(m.C, d)
	}
	return m
}

func printable(n *model.Node) bool {
	switch n.Kind {
	case "Binary", "Unary", "Subscript", "Paren":
	case "Lit", "Ident":
		// names and literals which cannot stand by themselves, such as the key in a.1
		v := n.Get("name") + n.Get("value")
		m, e := model.ParseExpr(v)
		return e == nil && model.Equal(m, n, model.MStruct)
	default:
		return false
	}
	for _, c := range n.C {
		for _, x := range c.N {
			if x != nil && !printable(x) {
				return false
			}
		}
	}
	return true
}

var fprints = []func(*bytes.Buffer, ast.Node) error{
	func(b *bytes.Buffer, n ast.Node) error { return printer.Fprint(b, n, nil) },
	func(b *bytes.Buffer, n ast.Node) error { return printer.Fprint(b, n, &printer.Config{}) },
}

func fprint(n ast.Node, how int) (out string, err error, p interface{}) {
	var b bytes.Buffer
	defer func() { out, p = b.String(), recover() }()
	err = fprints[how](&b, n)
	return
}

func printed(c eng.Case) (o eng.Out) {
	o.Steps = 1
	var raw func() ast.Node
	switch c.Mode {
	case "built":
		raw = func() ast.Node { x, _ := build(strings.Fields(c.Text)); return x }
	default:
		m := strings.TrimPrefix(c.Mode, "all ")
		raw = func() ast.Node { return runImpl(eng.Case{Mode: m, Text: c.Text}).Raw }
	}
	n := raw()
	if n == nil {
		return o
	}
	list := []ast.Node{n}
	if strings.HasPrefix(c.Mode, "all ") {
		list = subNodes(n)
	}
	for _, x := range list {
		if o.Bad = printNode(x, &o); o.Bad != "" {
			return o
		}
	}
	if !reflect.DeepEqual(n, raw()) {
		o.Bad = "printing changes the tree"
	}
	return o
}

func printNode(n ast.Node, o *eng.Out) string {
	o.Compared = true
	o.Steps++
	t := impl.Conv(n)
	out, err, p := fprint(n, 0)
	out2, err2, p2 := fprint(n, 1)
	if out != out2 || (err == nil) != (err2 == nil) || (p == nil) != (p2 == nil) {
		return fmt.Sprintf("not the same with an empty configuration: %q %v %v, %q %v %v", out, err, p, out2, err2, p2)
	}
	if _, isExpr := n.(ast.Expr); !isExpr {
		o.Outcome = model.Hash(t)
		if err == nil || out != "" || p != nil {
			return fmt.Sprintf("%s: output %q, error %v, panic %v", t.Kind, out, err, p)
		}
		return ""
	}
	if !printable(t) {
		if (err != nil || p != nil) && out != "" {
			return fmt.Sprintf("output although unsupported: %q, error %v, panic %v", out, err, p)
		}
		return ""
	}
	if err != nil || p != nil {
		return fmt.Sprintf("error %v, panic %v for\n%s", err, p, model.Dump(t, model.MStruct))
	}
	o.NonTrivial = true
	want := noParens(t)
	o.Outcome = model.Hash(want)
	r := impl.ParseExpr(out)
	if r.Kind() != "tree" {
		return fmt.Sprintf("printed %q, which is not an expression: %v %v %v, for\n%s", out, r.Err, r.Other, r.Panic, model.Dump(want, model.MStruct))
	}
	if !model.Equal(noParens(r.Tree), want, model.MStruct) {
		return fmt.Sprintf("printed %q, which is\n%snot\n%s", out, model.Dump(noParens(r.Tree), model.MStruct), model.Dump(want, model.MStruct))
	}
	if m, e := model.ParseExpr(out); e != nil || !model.Equal(noParens(m), want, model.MStruct) {
		return fmt.Sprintf("printed %q, which the reference does not read as\n%s", out, model.Dump(want, model.MStruct))
	}
	if len(out) > 60 { // quadratic
	} else if bad := parens(r.Tree, t, out, want); bad != "" {
		return bad
	}
	again, err, p := fprint(r.Raw, 0)
	if again != out || err != nil || p != nil {
		return fmt.Sprintf("printed %q, which is printed as %q (%v, %v)", out, again, err, p)
	}
	if len(out) <= 24 {
		for k := 0; k < len(out); k++ {
			err, p := failing(n, k)
			if p != nil || !errors.Is(err, errFull) {
				return fmt.Sprintf("error %v, panic %v although writing fails after %d bytes", err, p, k)
			}
			o.Steps++
		}
		if last, err, p := fprint(n, 0); last != out || err != nil || p != nil {
			return fmt.Sprintf("after failed writes %q (%v, %v), before %q", last, err, p, out)
		}
	}
	return ""
}

// parens compares the parentheses of got, which was read from the output, with
// those of the tree n which was printed: none is lost, except that ((x)) may
// become (x), and none is added which could be left out.
func parens(got, n *model.Node, out string, want *model.Node) string {
	is := func(n *model.Node) bool { return n.Kind == "Paren" && len(n.C) == 1 && len(n.C[0].N) == 1 }
	if is(n) && !is(got) {
		return fmt.Sprintf("printed %q, without the parentheses of\n%s", out, model.Dump(n, model.MStruct))
	}
	for is(n) {
		n = n.C[0].N[0]
		if is(got) {
			got = got.C[0].N[0]
		}
	}
	for is(got) {
		at := got.Pos.Off
		for i := at + 1; i < len(out); i++ {
			if at < 0 || out[at] != '(' || out[i] != ')' {
				continue
			}
			if m, e := model.ParseExpr(out[at : i+1]); e != nil || !model.Equal(m, got, model.MStruct) {
				continue // not the other one of the pair
			}
			less := out[:at] + " " + out[at+1:i] + " " + out[i+1:]
			if m, e := model.ParseExpr(less); e == nil && model.Equal(noParens(m), want, model.MStruct) {
				return fmt.Sprintf("printed %q, although %q means the same", out, less)
			}
			break
		}
		got = got.C[0].N[0]
	}
	for i, c := range n.C {
		for k, x := range c.N {
			if x == nil || i >= len(got.C) || k >= len(got.C[i].N) || got.C[i].N[k] == nil {
				continue
			}
			if bad := parens(got.C[i].N[k], x, out, want); bad != "" {
				return bad
			}
		}
	}
	return ""
}

func failing(n ast.Node, k int) (err error, p interface{}) {
	defer func() { p = recover() }()
	err = printer.Fprint(&shortWriter{n: k}, n, nil)
	return
}

// treesOf is every tree with n inner nodes in prefix notation.
func treesOf(n int, leaves, un, bin []string, memo map[int]eng.Space) eng.Space {
	if s, ok := memo[n]; ok {
		return s
	}
	var u []eng.Space
	if n == 0 {
		u = []eng.Space{eng.Lits(leaves)}
	} else {
		u = append(u, eng.Cat(eng.Lits(un), eng.Lits{" "}, treesOf(n-1, leaves, un, bin, memo)))
		for i := 0; i < n; i++ {
			u = append(u, eng.Cat(eng.Lits(bin), eng.Lits{" "}, treesOf(i, leaves, un, bin, memo), eng.Lits{" "}, treesOf(n-1-i, leaves, un, bin, memo)))
		}
	}
	s := eng.Union(u...)
	memo[n] = s
	return s
}

func init() {
	add(&eng.Check{
		ID:   "C13",
		Rule: "every expression of the spaces (parsed, or built by hand from a prefix notation: B operator, U operator, [ subscript, ( parentheses) is printed, the output is parsed again and compared without parentheses, printed again, and printed to every failing writer; mode all: every node of the tree. Non-trivial: there is output",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			var ops []string
			for _, o := range infix {
				if binTokens[o] != 0 {
					ops = append(ops, "B"+o)
				}
			}
			bin := append([]string{"["}, ops...)
			un := words("U! U- U+ (")
			leaves := words("a 1 's' \"d\" 1.5 0x1F 0z01 &o $E @r s:v g#h is x:y &l:o @@ isnot 0z 1.5e3 a:000 @\" v:true")
			short := words("[ B|| B&& B== Bis B- B. B*")
			built := func(n int, leaves, un, bin []string) eng.Space {
				return treesOf(n, leaves, un, bin, map[int]eng.Space{})
			}
			p("built 1", "built", eng.Union(eng.Lits(leaves), built(1, leaves, un, bin)))
			p("built 2", "built", built(2, leaves[:6], un, bin))
			p("built 3", "built", built(3, leaves[:1], un[:4], bin))
			p("built 3, few operators", "built", built(3, leaves[:4], un, short))
			p("built 4, few operators", "built", built(4, leaves[1:2], un[1:], append(short[:4:4], short[5:]...)))
			p("built 2, all leaves", "built", built(2, leaves[2:], un[1:2], []string{"[", "B.", "B-", "Bisnot?", "B*"}))
			p("contexts 1", "all expr", nest(1, atoms, holes))
			ph := eng.Lits{}
			for _, h := range holes[:39] {
				if _, err, pa := fprint(runImpl(eng.Case{Mode: "expr", Text: fill(h, "a")}).Raw, 0); err == nil && pa == nil {
					ph = append(ph, h)
				}
			}
			ph = append(ph, "(%s)", "a[%s]", "%s[0]", "%s  [ 0]", "a- -%s", "((%s))", "%s-1", "1 .%s")
			p("contexts 2", "expr", nest(2, atoms, ph))
			p("contexts 3", "expr", nest(3, atoms[:7], ph))
			p("operators", "expr", matrix(infix, []string{"a", "-1", "'s'", "x[0]", "(a)"}, []string{"b", "!1"}, []string{"c", "(c)"}, spaced))
			p("token sequences", "expr", eng.Seq([]string{"a", "1", "'s'", " ", "+", "-", "!", "*", ".", "(", ")", "[", "]", "==", "&&", "is"}, "", 1, 5))
			p("corpus", "all file", eng.Lits(scripts))
			p("corpus in blocks", "all file", fills(leads[33:], eng.Lits(scripts[:100])))
			p("expressions in commands", "all file", eng.Wraps(places, nest(1, atoms[:4], holes)))
			chain := func(op string, right bool) func(int) string {
				return func(n int) string {
					if right {
						return strings.Repeat(op+" a ", n) + "b"
					}
					return strings.Repeat(op+" ", n) + "a" + strings.Repeat(" b", n)
				}
			}
			var l []eng.Space
			for _, op := range []string{"[", "B||", "B&&", "B+", "B*", "Bis?", "B."} {
				l = append(l, eng.Range(1, 150, chain(op, false)), eng.Range(1, 150, chain(op, true)))
			}
			for _, u := range un {
				u := u
				l = append(l, eng.Range(1, 300, func(n int) string { return strings.Repeat(u+" ", n) + "a" }))
			}
			p("long", "built", eng.Union(l...))
			txt := eng.Seq([]string{"a", "%s", "%", "\\", "''", "\xff", "é", "\t", "|", "\"", "\\\"", "\n"}, "", 0, 4)
			p("literals", "expr", fills([]string{"'%s'", "\"%s\"", "a . '%s' . b", "x[\"%s\"]"}, txt))
			if thorough {
				p("built 4, few operators", "built", built(4, leaves[:2], un, short))
				p("built 5, few operators", "built", built(5, leaves[:1], un[1:3], []string{"[", "B&&", "Bis", "B-", "B*"}))
				p("built 2, all", "built", built(2, leaves, un, bin))
				p("contexts 3", "expr", nest(3, atoms[7:], ph))
				p("token sequences", "expr", eng.Seq([]string{"a", "1", "'s'", " ", "+", "-", "!", "*", ".", "(", ")", "[", "]", "==", "&&", "is"}, "", 6, 6))
			}
			return ps
		},
		Eval:        printed,
		Assumptions: []string{"expressions of kinds the printer does not support yet (a panic or an error) are not judged, except that there is no output then"},
	})
}
