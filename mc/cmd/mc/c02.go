package main

import (
	"strings"

	"mc/eng"
	"mc/model"
)

// C02: structure of expressions.

var exprWords = []string{"a", "1", "'s'", " ", "+", "*", ".", "!", "-", "(", ")", "[", "]", "{", "}", ",", ":", "?", "==", "&&", "||", "->", "x:y"}

var exprWords2 = []string{"a", "f", "#{", "{", "}", ":", ",", "->", "(", ")", "[", "]", ".", "..", " ", "...", "'k'", "is", "<", "&o", "@r", "=", "é", "-1"}

// operands of the operator matrix
var operands = []string{"a", "1", "(x)", "-x", "!x", "f(y)", "x[0]", "x.y", "[1]", "{}", "'s'", "x->f()", "&o", "{-> y}"}

func matrix(ops []string, x, y, z []string, fm func(a, o, b, p, c string) string) eng.Space {
	n := len(x) * len(y) * len(z) * len(ops) * len(ops)
	return eng.Func(n, func(i int) string {
		a := x[i%len(x)]
		i /= len(x)
		b := y[i%len(y)]
		i /= len(y)
		c := z[i%len(z)]
		i /= len(z)
		return fm(a, ops[i%len(ops)], b, ops[i/len(ops)], c)
	})
}

func spaced(a, o, b, p, c string) string { return a + " " + o + " " + b + " " + p + " " + c }

func counts(lo, hi int, more ...int) []int {
	var out []int
	for i := lo; i <= hi; i++ {
		out = append(out, i)
	}
	return append(out, more...)
}

func numbered(f, sep string, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(strings.Replace(f, "#", itoa(i), -1))
	}
	return b.String()
}

// lengths: lists, arguments, chains of any length, and deep nesting.
func lengths(thorough bool) eng.Space {
	ns := counts(0, 70, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 600, 1000, 1023, 1024, 1025)
	if thorough {
		ns = append(ns, 2000, 4095, 4096, 4097, 5000, 10000)
	}
	var u []eng.Space
	num := func(pre, f, sep, post string) {
		u = append(u, ladder(func(n int) string { return pre + numbered(f, sep, n) + post }, ns...))
	}
	num("[", "v#", ", ", "]")
	num("[", "v#", ",", ",]")
	num("{", "'k#': v#", ", ", "}")
	num("{", "v#: #", ",", ",}")
	num("#{", "k#: #", ", ", "}")
	num("f(", "v#", ", ", ")")
	num("f(", "v#", ",", ",)")
	num("x->f(", "v#", ", ", ")")
	num("{", "p#", ", ", " -> 1}")
	num("{", "p#, ", "", "... -> 1}")
	num("x{", "v#}", "{", "")
	num("", "a{v#}", "", "b")
	num("x[", "v#][", "", "0]")
	num("x", ".k#", "", "")
	num("x", "(v#)", "", "")
	num("x", "->m#()", "", "")
	num("x", "[#:v#]", "", "")
	for _, o := range append([]string{"==", "is"}, infix...) {
		num("", "v#", " "+o+" ", "")
	}
	num("", "c# ? v# : ", "", "x")
	num("", "c# ? ", "", "x")
	var hs []string
	for _, h := range holes {
		if strings.Contains(h, "{%s}") || strings.Contains(h, "%s{") || strings.Contains(h, "{%s:") { // doubling per level
			continue
		}
		hs = append(hs, h)
	}
	for _, h := range hs {
		k := strings.Index(h, "%s")
		pre, post := h[:k], h[k+2:]
		d := counts(1, 40, 60, 64, 65, 80, 99, 100, 101, 127, 128, 129, 150, 200, 255, 256, 257)
		u = append(u, ladder(nested(pre, post), d...))
	}
	return eng.Union(u...)
}

func structure() func(eng.Case) eng.Out { return conform(model.MStruct, errKind) }

func init() {
	add(&eng.Check{
		ID:   "C02",
		Rule: "expressions from token sequences, operator matrices, nested contexts and lengths, parsed alone or in a command and compared with the reference grammar; non-trivial: the expression is valid",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			p("lengths and depths", "expr", lengths(thorough))
			p("lengths and depths", "file", eng.Wrap("let x = %s", lengths(false)))
			p("atoms", "file", eng.Wraps(places, eng.Union(eng.Lits(atoms), nest(1, atoms, holes))))
			p("contexts 2", "expr", nest(2, atoms, holes))
			p("contexts 2 in echo", "file", eng.Wrap("echo %s", nest(2, atoms[:12], holes)))
			p("contexts 3", "expr", nest(3, atoms[:4], holes))
			three := []string{"a", "1", "(b)"}
			p("operator pairs", "expr", matrix(infix, operands, operands, operands[:6], spaced))
			p("operator pairs close", "expr", matrix(infix, operands, operands[:5], three, func(a, o, b, q, c string) string { return a + o + b + q + c }))
			p("operator pairs with ternary", "expr", eng.Cross(eng.Lits([]string{"%s ? d : e", "d ? %s : e", "d ? e : %s", "(%s)", "-%s", "[%s]", "f(%s)", "x[%s]", "x[%s:1]"}),
				matrix(infix, three, three, three, spaced), func(x, y string) string { return strings.Replace(x, "%s", y, 1) }))
			trip := eng.Cross(matrix(infix, []string{"a"}, []string{"b", "-b", "b.c"}, []string{"c"}, spaced), eng.Lits(infix), func(x, o string) string { return x + " " + o + " d" })
			p("operator triples", "expr", trip)
			p("operator triples, parenthesised", "expr", eng.Func(len(infix)*len(infix)*len(infix)*5, func(i int) string {
				n := len(infix)
				o, q, r := infix[i%n], infix[i/n%n], infix[i/n/n%n]
				switch i / n / n / n {
				case 0:
					return "(a " + o + " b) " + q + " c " + r + " d"
				case 1:
					return "a " + o + " (b " + q + " c) " + r + " d"
				case 2:
					return "a " + o + " b " + q + " (c " + r + " d)"
				case 3:
					return "!a " + o + " -b " + q + " +c " + r + " d"
				}
				return "a " + o + " b ? c " + q + " d : e " + r + " f"
			}))
			k := 4
			if thorough {
				k = 5
			}
			p("token sequences", "expr", eng.Seq(exprWords, "", 0, 5))
			p("token sequences 2", "expr", eng.Seq(exprWords2, "", 0, k))
			p("token sequences in echo", "file", eng.Wrap("echo %s", eng.Seq(exprWords, "", 0, 4)))
			p("token sequences spaced", "expr", eng.Seq(exprWords2, " ", 0, k))
			p("operators and atoms", "expr", eng.Seq(append([]string{"a", "1", " "}, infix...), "", 0, 3))
			for _, w := range []string{"[%s", "{%s", "#{%s", "f(%s", "x[%s", "{-> %s", "a{%s", "x->%s", "a ? %s", "(%s", "{'k': %s", "#{k: %s", "{x, %s", "x.%s"} {
				p("token sequences in "+w, "expr", eng.Wrap(w, eng.Seq(exprWords, "", 0, 4)))
			}
			if thorough {
				p("contexts 4", "expr", nest(4, []string{"a", "1"}, holes))
				p("contexts 3, all atoms", "expr", nest(3, atoms, holes))
				p("operator quadruples", "expr", eng.Cross(trip, eng.Lits(infix), func(x, o string) string { return x + " " + o + " e" }))
				for _, w := range []string{"{%s", "#{%s", "f(%s", "x[%s", "a ? %s"} {
					p("long token sequences in "+w, "expr", eng.Wrap(w, eng.Seq(exprWords2, "", 5, 5)))
				}
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: structure(),
		Assumptions: []string{
			"the reference model is the specification of the grammar; where Vim itself differs, see DESIGN.md",
		},
	})
}
