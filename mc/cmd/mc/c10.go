package main

import (
	"strings"

	"mc/eng"
)

// C10: function headers and lambda parameters.

var paramWords = []string{"a", "b", "A_1", "...", ",", " ", "=", " = 1", "a:b", "firstline", "lastline", "is", "1", "{", "f(x, y)", ")", "é"}

var funcNames = []string{"F", "f", "s:f", "g:f", "g:F", "b:F", "w:F", "t:F", "l:F", "a:F", "v:F", "x:F", "<SID>f", "<sid>F", "<SID>", "<S", "a#b", "a#B", "A#b", "#b", "a#", "a#b#c", "d.f", "d.F", "d['f']", "d[0]", "d[1:2]", "D.f.g", "d.e['x'].f", "{a}", "F{a}", "f{a}", "F{a}b", "s:{a}b", "a{b}#c", "_f", "_F", "F1", "1F", "F_", "F#", "F!", "", "(F)", "F()", "'F'", "&F", "@f", "$F", "Fé", "é", "f.g", "self.f", "g:d.f", "is", "isnot", "function", "F-x", "F.1", "[F]", "{->1}", "s:f.g", "s:d[i].f", "d.f.", "s:", "g:", "<SID>{a}", "<SID>f.g", "F:x", "s:f:g", "0z1", "f#", "/F", "/F/", "F/", "F x"}

// attributes of every sequence.
var attrWords = []string{" range", " abort", " dict", " closure", "range", " ", " foo", " |", " \"c", "\t", " Abort", " abor", " aborts", " !"}

func init() {
	add(&eng.Check{
		ID:   "C10",
		Rule: "function headers and lambdas with every short sequence of parameter words, attribute words and names, and every kind of default value; compared with the reference. Non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			k := 5
			if thorough {
				k = 6
			}
			w := eng.Seq(paramWords, "", 0, k)
			p("parameter sequences", "file", eng.Wrap("function F(%s)\nendfunction", w))
			p("lambda parameter sequences", "expr", eng.Wrap("{%s -> 1}", w))
			p("lambda parameter sequences, close", "expr", eng.Wrap("{%s->a}", eng.Seq(paramWords[:12], "", 0, 4)))
			p("parameters behind others", "file", eng.Wrap("function! s:f(x, y = 2, %s) abort\nreturn 1\nendfunction", eng.Seq(paramWords, "", 0, 3)))
			p("attribute sequences", "file", eng.Cross(eng.Lits{"function F()", "function! s:f(a, b = 1)", "fu F(...)"}, eng.Seq(attrWords, "", 0, 4), func(a, b string) string { return a + b + "\nendfunction" }))
			p("all attributes", "file", eng.Wrap("function F()%s\nendfunction", eng.Seq(attrWords[:4], "", 5, 6)))
			nm := eng.Lits(funcNames)
			p("names", "file", fills([]string{"function %s()\nendfunction", "function! %s(a)\nreturn\nendfunction", "function %s ()\nendfunction", "function %s", "function %s(\nendfunction", "function %s() abort dict\nendfunction", "function! %s", "function  %s(a, ...) range\nendfunction | echo 1", "delfunction %s", "fu!%s()\nendf", "if a\nfunction %s()\nendfunction\nendif", "function F()\nfunction %s()\nendfunction\nendfunction", "function %s() | endfunction", "function %s\nendfunction", "fu %s()|endf|echo", "call %s()"}, nm))
			p("parameter names", "file", fills([]string{"function F(%s)\nendfunction", "function F(a, %s)\nendfunction", "function F(%s, a)\nendfunction", "function F(%s = 1)\nendfunction", "echo {%s -> 1}", "echo {a, %s -> 1}", "echo {%s, a -> 1}", "echo {%s, ... -> 1}"},
				eng.Union(nm, eng.Lits{"a", "firstline", "lastline", "firstline1", "First", "000", "0", "1", "a1", "_", "a_b", "self", "a:a", "s:a", "g:a", "l:a", "a#b", "a.b", "...", "..", "....", "a...", "is", "isnot", "not", "in", "if", "a ", " a", "é", "\xff", "A", "a-b", "&a", "'a'", "a:", ":a"})))
			// any two of many names must differ
			p("distinct names", "file", eng.Func(13*13*13, func(i int) string {
				n := []string{"a", "b", "A", "aa", "a_", "_a", "a1", "ab", "x", "xx", "a0", "b1", "_"}
				return "function F(" + n[i%13] + ", " + n[i/13%13] + ", " + n[i/169] + ")\nendfunction"
			}))
			p("distinct lambda names", "expr", eng.Func(13*13*13, func(i int) string {
				n := []string{"a", "b", "A", "aa", "a_", "_a", "a1", "ab", "x", "xx", "a0", "b1", "_"}
				return "{" + n[i%13] + ", " + n[i/13%13] + ", " + n[i/169] + " -> a}"
			}))
			p("defaults", "file", fills([]string{"function F(a = %s)\nendfunction", "function F(a, b=%s)\nendfunction", "function F(a = %s, b = 2)\nendfunction", "function F(a = %s, ...)\nendfunction", "function F(a = 1, b = %s , c = 3)\nendfunction", "function F(a = %s,)\nendfunction", "function F(a, b = %s, c)\nendfunction"},
				eng.Union(eng.Lits(atoms), nest(1, atoms[:10], holes))))
			p("default patterns", "file", eng.Func(4*4*4*4*4, func(i int) string {
				parts := []string{"%", "% = 1", "% = f(a, b)", "..."}
				var l []string
				for j := 0; j < 5; j++ {
					l = append(l, strings.Replace(parts[i%4], "%", "p"+itoa(j), 1))
					i /= 4
				}
				return "function F(" + strings.Join(l, ", ") + ")\nendfunction"
			}))
			p("nested functions", "file", eng.Cross(eng.Lits{"function F(a)%s\n", "function! s:f(a = 1, b = {-> 2}, ...)%s\n", "function d.f()%s\n"}, eng.Cross(eng.Seq(attrWords[:4], "", 0, 2), eng.Lits{"function G(a, b = 3) dict\nreturn 1\nendfunction\n", "function s:g(...)\nendfunction\nfunction H(x = {y, z -> y})\nendfunction\n", "echo 1\n", ""},
				func(a, b string) string { return a + "\x00" + b }), func(h, ab string) string {
				i := strings.Index(ab, "\x00")
				return strings.Replace(h, "%s", ab[:i], 1) + ab[i+1:] + "endfunction\necho 'x'"
			}))
			p("lambda bodies", "expr", fills([]string{"{-> %s}", "{a->%s}", "{a, b -> %s}", "{a, b, ... -> %s }", "{... ->%s}", "{ a , ... -> %s}", "{ -> %s}", "f({x -> %s}, 1)", "[{-> %s}, {y, z -> %s}]"}, eng.Union(eng.Lits(atoms), nest(1, atoms, holes))))
			p("commands", "file", eng.Cross(eng.Lits{"function", "function!", "fu", "func! ", "fun ", "function F", "function! F ", "function /", "function F("}, eng.Seq([]string{" ", "F", "(", ")", "!", "/", "a", "|", "\"", ",", "\n", "endfunction", ".", "s:"}, "", 0, 4), func(a, b string) string { return a + b }))
			n := counts(0, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000)
			p("lengths", "file", eng.Union(
				ladder(func(n int) string { return "function F(" + numbered("p#", ", ", n) + ")\nendfunction" }, n...),
				ladder(func(n int) string { return "function F(" + numbered("p#, ", "", n) + "...) abort\nendfunction" }, n...),
				ladder(func(n int) string { return "function F(" + numbered("p#, ", "", n) + "p0)\nendfunction" }, n...),
				ladder(func(n int) string { return "function F(x, " + numbered("p# = #", ", ", n) + ")\nendfunction" }, n...),
				ladder(func(n int) string { return "function F(" + numbered("p# = #, ", "", n) + "...)\nendfunction" }, n...),
				ladder(func(n int) string { return "echo {" + numbered("p#, ", "", n) + "p -> 1}" }, n...),
				ladder(func(n int) string { return "echo {" + numbered("p#, ", "", n) + "p0 -> 1}" }, n...),
				ladder(func(n int) string {
					return "function F" + strings.Repeat("x", n) + "(a" + strings.Repeat("y", n) + ")" + strings.Repeat(" abort dict", n%4) + "\nendfunction"
				}, n...)))
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: structure(),
	})
}
