package main

import (
	"strings"

	"mc/eng"
)

// C22: expressions by themselves and in place.

// inner places of expressions within expressions
var innerPlaces = func() eng.Lits {
	var out eng.Lits
	for _, h := range holes {
		if strings.Count(h, "%s") == 1 {
			out = append(out, h)
		}
	}
	return append(out, "[a, (%s)]", "{'a': {'b': %s}}", "f(g(%s))", "x[y[%s]]", "[[%s], 'é']", "'é' . (%s)", "a ? (b ? %s : c) : d", "f('é', %s, 'z')", "  %s  ", "{x -> [x, %s]}", "x{y{%s}}z", "#{é: 1, k: %s}", "(%s)[0]", "(%s).k", "(%s)(1)", "a[b][%s : ]", "\n\\ (%s)", "[\n\\ %s,\n\\ a]")
}()

var tails = []string{" )", ")", " ]", "]", "}", " }", ",", " , a", " : b", " | echo", "|", " x", " 'a'", " \"a\"", ";", " ;", "=", " = 1", " \\", " \xff", " é", " @r", "\n", "\nx", " {", " (", " [", "{", " <<", " #", " !x", " ...", " #{}", " is", "\t\"c", " 1", " &o", "->", " ->f", " a b c", ")))", " }}}", "\r", "\x00"}

func longest(c eng.Case) eng.Out {
	i := strings.LastIndex(c.Text, sepr)
	x, tail := c.Text[:i], c.Text[i+1:]
	o := eng.Out{Steps: 1}
	a, _ := modelParse("expr", x)
	b, _ := modelParse("expr", x+tail)
	if a.e != nil || !same(a, b) {
		return o
	}
	o.Compared, o.NonTrivial = true, true
	ia, bad := implParse("expr", x)
	ib, bad2 := implParse("expr", x+tail)
	if bad != "" || bad2 != "" {
		o.Bad = bad + bad2
	} else if !same(ia, ib) {
		o.Bad = "alone:\n" + show(ia) + "followed by something:\n" + show(ib)
	}
	return o
}

func init() {
	add(&eng.Check{
		ID:   "C22",
		Rule: "every expression of the spaces by itself and in every place for one, compared on the real parser with all positions moved (the reference decides where the law can hold), and followed by other text. Non-trivial: compared and accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			pl := append(eng.Lits{}, places...)
			pl = append(pl, "echo 'é' %s | echo 1", "if a\n\tlet x = [1,\n\\ %s,\n\\ 2]\nendif", "function F(a, b = 'é', c = %s) abort\nendfunction", "echo 1\n\n  return %s", "function F()\nif a | return %s | endif\nendfunction", "let d['é'][%s] = 1", "for [a, b; c] in %s\nendfor | echo 1", "silent! call f(é, %s)", "let x{%s}y.z = 1", "w `=%s` x", "call x[%s].f()", "unlet x[0][%s].k", "execute 'normal!' %s 'x'")
			exprs := eng.Union(eng.Lits(atoms), nest(1, atoms[:20], holes))
			p("places in commands", "place", holed(pl, exprs))
			p("places in expressions", "inner", holed(innerPlaces, exprs))
			two := nest(2, atoms[:4], holes)
			some := eng.Lits{}
			for i := 0; i < len(pl); i += 4 {
				some = append(some, pl[i])
			}
			p("larger expressions in commands", "place", holed(some, two))
			some = eng.Lits{}
			for i := 0; i < len(innerPlaces); i += 6 {
				some = append(some, innerPlaces[i])
			}
			p("larger expressions in expressions", "inner", holed(some, two))
			k := 4
			if thorough {
				k = 5
			}
			seq := eng.Seq(exprWords, "", 1, k-1)
			p("token sequences in commands", "place", holed(eng.Lits{pl[0], pl[8], pl[18], "let x = %s", "call f(%s)", "if %s\nendif", "echo %s y"}, seq))
			p("token sequences in expressions", "inner", holed(eng.Lits{"(%s)", "[%s]", "f(%s)", "x[%s]", "{'k': %s}", "a ? %s : b", "{-> %s}", "x{%s}y", "#{k: %s}", "x[%s:1]", "f(a, %s, b)"}, seq))
			p("token sequences", "place", holed(eng.Lits{"echo %s", "let x = [%s]"}, eng.Seq(exprWords, "", k, k)))
			p("followed by something", "tail", holed(eng.Union(exprs, nest(2, atoms[:2], holes)), eng.Lits(tails)))
			p("token sequences followed by something", "tail", holed(eng.Seq(exprWords2, "", 1, 3), eng.Lits(tails)))
			p("long expressions", "place", holed(eng.Lits{"echo %s", "let x = f(%s)", "if %s | echo 1 | endif"}, lengths(false)))
			p("long expressions", "inner", holed(eng.Lits{"[%s, a]", "(%s)"}, lengths(false)))
			if thorough {
				p("larger expressions in all commands", "place", holed(pl, nest(2, atoms[:8], holes)))
				p("larger expressions in all expressions", "inner", holed(innerPlaces, nest(2, atoms[:8], holes)))
			}
			return ps
		},
		Eval: func(c eng.Case) eng.Out {
			if c.Mode == "tail" {
				return longest(c)
			}
			return composed(c)
		},
		Assumptions: []string{"in which places the law can hold (an operand in front of an operator may bind differently) is decided with the reference model"},
	})
}
