package main

import (
	"strings"

	"mc/eng"
)

// C09: arguments of the commands with syntax of their own.

// stmtWords are the words of such arguments.
var stmtWords = []string{"a", "s:b", "1", "'s'", " ", "[", "]", ",", ";", "=", "+=", ".", "(", ")", "|", "\"", "!", "d.k", "@r", "&o", "$E", "in", "x[0]", "{y}", "f(z)"}

// heads of the commands, with what must follow to close blocks.
var heads = []struct{ pre, post string }{
	{"let ", ""}, {"let", ""}, {"const ", ""}, {"unlet ", ""}, {"unlet", ""}, {"lockvar ", ""}, {"lockvar", ""}, {"unlockvar ", ""}, {"for ", "\nendfor"}, {"for x in", "\nendfor"}, {"call ", ""}, {"eval ", ""}, {"throw ", ""},
	{"function F()\nreturn", "\nendfunction"}, {"echo", ""}, {"echon ", ""}, {"echomsg ", ""}, {"echoerr", ""}, {"echohl", ""}, {"execute", ""}, {"delfunction ", ""}, {"delfunction", ""}, {"if ", "\nendif"}, {"if a\nelseif", "\nendif"}, {"while", "\nendwhile"},
	{"try\ncatch", "\nendtry"}, {"let [a, b", ""}, {"let a", ""}, {"let a =", ""}, {"let a[", ""}, {"const [", ""}, {"for [", "\nendfor"}, {"let a.", ""}, {"call a.", ""}, {"unlet! ", ""}, {"let x = 1", ""}, {"else", ""}, {"if a\nelse", "\nendif"}, {"if a\nendif", ""}, {"wincmd", ""}, {"try\nfinally", "\nendtry"}, {"while a\nbreak", "\nendwhile"},
}

var targets = []string{"a", "s:a", "a:b", "a:1", "g:a#b", "a#b", "a.k", "a.k.j", "a[0]", "a[0].k", "a[1:2]", "a[:]", "a[1][2:]", "a{b}", "a{b}c{d}", "{a}", "s:{a}", "&o", "&l:o", "&g:o", "$E", "@r", "@\"", "@", "@@", "f()", "f().k", "f()[0]", "a->f()", "(a)", "1", "'s'", "-a", "a+b", "[a]", "{}", "g:", "s:", "a:b:c", "v:x", "is", "isnot", "in", "<SID>a", "<sid>a.b", "é", "a.1", "a.b{c}", "x:", "[a, b]", "#{}", "{-> 1}", "a ", "0z", "if", "function", "a-b", "{a}[0]", "self.x", "a:000", "A", "_", "a1", "1a", "&", "$", "foo:bar", "b:a.c[1].d(2)", "b:a.c(1).d", "&a.b", "@a.b", "$E[0]", "@a[0]", "&o[0]", "a.b[1:2]", "''.a"}

func init() {
	add(&eng.Check{
		ID:   "C09",
		Rule: "each command with syntax of its own with every short sequence of the words of its arguments, and every kind of target in every place for one; acceptance and node are compared with the reference. Non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			k, more := 3, 0
			if thorough {
				k, more = 4, 1
			}
			for _, h := range heads {
				p("argument sequences of "+h.pre, "file", eng.Map(eng.Seq(stmtWords, "", 0, k), func(s string) string { return h.pre + s + h.post }))
			}
			core := []string{"a", " ", "[", "]", ",", ";", "=", ".", "k", "(", ")", "1", "{", "}", "|"}
			for i, h := range heads {
				if i < 9 || i == 10 || i == 19 || i == 28 || i == 31 || thorough {
					p("longer argument sequences of "+h.pre, "file", eng.Map(eng.Seq(core, "", 4, 4), func(s string) string { return h.pre + s + h.post }))
				}
			}
			for _, h := range heads {
				p("quotes and bars behind "+h.pre, "file", eng.Map(eng.Seq([]string{" ", "\"", "a", "|", "\\"}, "", 4, 6), func(s string) string { return h.pre + s + h.post }))
			}
			t := eng.Lits(targets)
			p("targets", "file", fills([]string{"let %s = 1", "let %s += 1", "let %s .= x", "let %s ..= x", "let %s -= 1", "let %s *= 1", "let %s /= 1", "let %s %= 1", "let %s", "let %s y", "let %s=1", "const %s = 1", "const %s", "unlet %s", "unlet! %s", "lockvar %s", "lockvar 3 %s", "unlockvar! %s", "for %s in l\nendfor", "let [%s] = l", "let [a, %s] = l", "let [%s, b] = l", "let [a; %s] = l", "let [%s; a] += l", "const [%s] = l", "const [a; %s] = l", "for [%s] in l\nendfor", "for [a, %s; b] in l\nendfor", "for [a; %s] in l\nendfor",
				"call %s", "call %s()", "call %s(1)", "delfunction %s", "eval %s", "unlet a %s b", "lockvar 1 a %s", "let %s =<< E\nE", "let [%s, b] =<< E\nE", "let %s is 1", "const %s =<< E\nE", "let  %s  =  1  ", "let [ %s ] = l", "let [ a , %s ; b ] = l", "for\t%s\tin\tl\nendfor", "for %s on l\nendfor", "for %sin l\nendfor", "echohl %s", "let [%s;] = l", "let [%s,] = l", "let [;%s] = l"}, t))
			p("pairs of targets", "file", eng.Cross(eng.Lits{"let [%s, %t] = l", "let [%s; %t] = l", "unlet %s %t", "lockvar %s %t", "for [%s, %t] in l\nendfor", "for [%s; %t] in l\nendfor", "unlet %s|%t", "unlockvar 5 %s\t%t", "const [%s, %t] = l", "call %s(%t)", "call %s %t", "let %s = %t", "const [%s;%t] = l"}, eng.Cross(t, t, func(a, b string) string { return a + "\x00" + b }), func(f, ab string) string {
				i := strings.Index(ab, "\x00")
				return strings.Replace(strings.Replace(f, "%s", ab[:i], 1), "%t", ab[i+1:], 1)
			}))
			ops := []string{"=", "+=", "-=", ".=", "..=", "*=", "/=", "%=", "=<<", "==", "===", "=~", "=?", "^=", "&=", "|=", "<<=", "", "++", "--", ":=", "=>", "+", "-", ".", "..", "...=", "= =", "+ =", "is", "!=", "=-", "=+", "=!", "=.", "=#{}"}
			p("operators", "file", eng.Cross(eng.Lits{"let a%s1", "let a %s 1", "let a %s", "let a%s", "let a.b%sc", "let [a, b]%sl", "let [a; b] %s l", "let a[0]%s1", "let &o%s1", "let $E%sx", "let @r%sx", "let a{b}%s1", "const a %s 1", "const [a]%sl", "let a  %s  1 | echo 2", "let %s 1", "let a %s\n1", "let a%s 1 \" c", "let s:a#b%s1", "const a%sb"}, eng.Lits(ops), fill))
			p("counts and bangs", "file", eng.Cross(eng.Lits(words("let const unlet lockvar unlockvar for call eval throw return echo echon echomsg echoerr echohl execute delfunction if elseif while catch break continue else finally endif")),
				eng.Seq([]string{"!", " ", "1", "a", "0", "-", "9", "f()", "|", "\"", "(", "é", "/", "\\"}, "", 0, 4), func(a, b string) string { return a + b }))
			p("catch patterns", "file", eng.Map(eng.Seq([]string{"/", "a", "\\", "[", "]", " ", "|", "\"", "'", "#", "é", "^"}, "", 0, 5), func(s string) string { return "try\ncatch " + s + "\nendtry" }))
			p("echohl", "file", eng.Cross(eng.Lits{"echohl", "echohl ", "echoh\t"}, eng.Seq([]string{"a", "B", "1", "_", " ", "|", "\"", "é", "-", ".", "'", "\t"}, "", 0, 4), func(a, b string) string { return a + b }))
			p("locks", "file", eng.Cross(eng.Lits{"lockvar", "lockvar!", "unlockvar", "unlo!", "lockv", "unl", "unlet", "unlet!"}, eng.Seq([]string{"1", "0", "99999999999", "-", " ", "a", "b[1]", "|", "\"", "x.y", "'a'", "\t"}, "", 0, 4+more), func(a, b string) string { return a + b }))
			p("expressions", "file", eng.Wraps(places, eng.Union(eng.Lits(atoms), nest(1, atoms[:16], holes))))
			p("lists of expressions", "file", eng.Cross(eng.Lits(words("echo echon echomsg echoerr execute ec exe")), eng.Seq([]string{" a", " 'b'", "\"c\"", " -d", " (e)", "[f]", " {}", " !g", ",", " |", " \"", " x.y", "\t1", " +2", " ? h : i", " &o", "@r", " é"}, "", 0, 4), func(a, b string) string { return a + b }))
			n := counts(1, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000)
			var u []eng.Space
			add := func(pre, f, sep, post string) {
				u = append(u, ladder(func(n int) string { return pre + numbered(f, sep, n) + post }, n...))
			}
			for _, c := range words("echo execute echomsg") {
				add(c+" ", "v#", " ", "")
				add(c+" ", "'#'", "", " | echo 1")
			}
			add("unlet ", "v#", " ", "")
			add("lockvar 3 ", "v#", " ", "")
			add("unlockvar! ", "v#.k", " ", " | echo")
			add("let [", "v#", ", ", "] = l")
			add("let [", "v#", ",", "; r] = l")
			add("const [", "v#", ",", "; r] = l")
			add("for [", "v#", ", ", "; r] in l\nendfor")
			add("call f(", "v#", ", ", ")")
			add("lockvar ", "1", "", " x")
			p("numbers of arguments", "file", eng.Union(u...))
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: structure(),
		Assumptions: []string{
			"which forms are legal is what vim-vimlparser documents: forms of later Vim versions are no part of it",
		},
	})
}
