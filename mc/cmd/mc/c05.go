package main

import (
	"strings"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C05: positions.

func positions(c eng.Case) eng.Out {
	o := eng.Out{Steps: 1}
	name := ""
	var r *impl.Result
	if c.Mode == "expr" {
		r = impl.ParseExpr(c.Text)
	} else {
		name = someFile
		r = impl.ParseReader(strings.NewReader(c.Text), name, c.Mode == "neo")
	}
	t, e := runModel(c)
	if e != nil || r.Tree == nil || !model.Equal(r.Tree, t, model.MStruct) {
		return o // judged by other checks
	}
	o.Compared, o.NonTrivial = true, true
	o.Steps = model.Count(t)
	o.Outcome = model.Hash(t)
	if !model.Equal(r.Tree, t, model.MPos|model.MEAPos) {
		o.Bad = "got:\n" + model.Dump(r.Tree, model.MPos|model.MEAPos) + "expected:\n" + model.Dump(t, model.MPos|model.MEAPos)
		return o
	}
	for _, x := range impl.Audit(r.Raw, name) {
		if x.Cat == "file" || x.Cat == "pos" {
			o.Bad = x.Msg
			return o
		}
	}
	return o
}

// Lead-ins: everything that may stand in front of a command.
var leads = []string{
	"%s", " %s", "\t\t%s", ":%s", " : :\t%s", "\n%s", "\n\n \t\n%s", "\r\n%s", "\" é\n%s", "\" \xff\xfe \U0001F600\n%s", "echo 'é' | %s", "echo '\xff\x80'|%s", "echo \"\t\"\n\t%s", "set x=é | %s",
	"echo 1\n  \\ + 2\n%s", "echo 1\n  \\ + 2\n\t\\ | %s", "echo 'é\n\\é'\n\\| %s", "\n\\%s", "\n \\ %s", "echo\n\\\n\\\n\\|%s", "\"x\n  \\é\n%s", "echo 1\r\n \\ + 2 |%s", "echo 'é\r\n\\é'\r\n%s",
	"let x =<< E\né\n\n  \\ b\nE\n%s", "append\né\n\n.\n%s", "lua << E\n\xff\nE\n%s", "let x =<< trim E\r\né\r\n  E\r\n%s",
	"if é\n%s", "if a\n%s\nendif", "if a | %s\nendif", "if a\nelseif b\n\t%s\nelse\n%s\nendif", "while a\n%s\nendwhile | %s", "for [é, ë] in l\n%s\nendfor", "for i in l\n%s\nendfor", "try\n%s\ncatch /é/\n%s\nfinally\n%s\nendtry", "function F(a, b = 'é', ...) abort\n  %s\nendfunction",
	"function F()\n%s\nendfunction\n%s", "function! s:f() abort | %s\nendfunction", "%s\n%s", "%s\n\n\t%s\n", "%s\r\n%s\r\n", "%s | %s", "silent %s", "sil! verb 3 %s", "1,2%s", " 'a,/é/+1 %s", "silent :1%s", "%s | \" é\n%s", "%s\n\" é", "\x00\n%s", "echo '\x00' | %s",
	"function F()\nwhile 1\nif é\n%s\nendif\nendwhile\nendfunction",
}

// crlf gives all lines CRLF ends.
func crlf(s string) string { return strings.Replace(s, "\n", "\r\n", -1) }

// continued is every text with one line break and a backslash put in
// everywhere, with every indent.
func continued(texts []string, breaks ...string) eng.Space {
	var u []eng.Space
	for _, t := range texts {
		t := t
		at := cuts(t)
		u = append(u, eng.Func(len(at)*len(breaks), func(i int) string {
			k := at[i/len(breaks)]
			return t[:k] + breaks[i%len(breaks)] + t[k:]
		}))
	}
	return eng.Union(u...)
}

func wideLadder(thorough bool) eng.Space {
	ns := counts(1, 20, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 2000, 4095, 4096, 4097)
	if thorough {
		ns = append(ns, 10000, 32767, 32768, 65535, 65536, 65537, 100000)
	}
	var u []eng.Space
	add := func(pre, x, post string) { u = append(u, ladder(repeated(pre, x, "", post), ns...)) }
	rest := "let x = [1, f(a), {'k': v}, a ? b : c] | echo é[1:2] . x->y()"
	rest = strings.Replace(rest, "é", "w", -1)
	for _, x := range []string{" ", "\t", ":", "\n", "\r\n", "\" é\n", "\n\\", "\r\n \\", "silent ", "echo 1|", "echo 'é' | "} {
		add("", x, rest)
	}
	for _, x := range []string{"a", "é", "\xff", "\U0001F600", "''", "\n\\", "\n\\x"} {
		add("echo '", x, "' . y | "+rest)
	}
	add("if a\n", "elseif b\n", "else\n"+rest+"\nendif")
	add("let x =<< E\n", "é\n", "E\n"+rest)
	add("append\n", "é\r\n", ".\n"+rest)
	add("lua << E\n", "\xff\n", "E\n"+rest)
	add("echo [", "a, ", "b] . c")
	add("echo a", " + b", " | "+rest)
	add("function F(", "a, b, ", ")\nendfunction")
	return eng.Union(u...)
}

func init() {
	add(&eng.Check{
		ID:   "C05",
		Rule: "every script or expression of the spaces which both sides accept with the same structure: all positions, and the file name, are compared with the reference; non-trivial: compared",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			ok := eng.Lits(scripts)
			p("corpus behind everything", "file", fills(leads, ok))
			p("corpus behind everything, CRLF", "neo", eng.Map(fills(leads, ok), crlf))
			p("corpus continued everywhere", "file", continued(scripts, "\n\\", "\n \t\\", "\r\n\\", "\n\\\n  \\"))
			p("wide and long", "file", wideLadder(thorough))
			p("pairs", "file", eng.Cross(ok, ok, func(a, b string) string { return a + "\n" + b }))
			p("contexts 1 in commands", "file", eng.Wraps(places, eng.Union(eng.Lits(atoms), nest(1, atoms[:12], holes))))
			p("contexts 2", "expr", nest(2, atoms, holes))
			p("contexts 2 in echo", "file", eng.Wrap("echo 'é' %s x", nest(2, atoms[:12], holes)))
			p("contexts 2 spread", "expr", eng.Map(nest(2, atoms[:6], holes), func(s string) string { return " \t" + strings.Replace(s, " ", "\t ", -1) }))
			p("contexts 2 spread over lines", "file", eng.Wrap("echo %s", eng.Map(nest(2, atoms[:4], holes), func(s string) string { return strings.Replace(s, " ", " \n  \\ ", -1) })))
			w := append([]string{"'é'", "\n\\"}, exprWords...)
			p("token sequences", "expr", eng.Seq(exprWords, "", 0, 4))
			p("token sequences in echo", "file", eng.Wrap("echo 'é' %s", eng.Seq(w, "", 0, 4)))
			p("token sequences 2", "expr", eng.Seq(exprWords2, "", 0, 4))
			p("command heads", "file", eng.Cross(eng.Seq([]string{":", " ", "1", ",", "silent ", "sil!", "3", "'a", "/é/", ";", "+2", "|", "\n", "\n\\", "\t", "%"}, "", 0, 4),
				eng.Lits{"echo x", "let x = é", "let x = y", "set é", "if a | endif", "s/a/b/", "k a", "Foo x", "w! >> f", "e ++ff=dos +3 f", "\" c", "!x", "call f(y)", "function F(a, b) dict\nendfunction"},
				func(a, b string) string { return a + b }))
			p("headers", "file", fills([]string{"function %s\nendfunction", "function! %s\nendfunction", "echo {%s -> 1}", "let %s = 1", "for %s in x\nendfor", "unlet %s", "call %s", "lockvar %s"},
				eng.Seq([]string{"F", "(", ")", "a", "b", ", ", " ", "...", " = 'é'", "[", "]", "; ", "s:f", ".k", "{x}", "abort", "\n\\", "#{"}, "", 1, 4)))
			if thorough {
				p("contexts 3", "expr", nest(3, atoms[:4], holes))
				p("contexts 2 in commands", "file", eng.Wraps(places, nest(2, atoms[:6], holes)))
				p("pairs behind everything", "file", eng.Cross(eng.Lits(leads), eng.Cross(eng.Lits(scripts[:60]), ok, func(a, b string) string { return a + "\n" + b }), fill))
				p("corpus continued twice", "file", continuedTwice(scripts, 40, "\n\\", "\n \\"))
				p("token sequences", "expr", eng.Seq(w, "", 5, 5))
			}
			max := 60000
			if thorough {
				max = 1200000
			}
			ps = append(ps, also(false, max, "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C19", "C20")...)
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        positions,
		Assumptions: []string{"the reference model defines the defining token of each node kind, see DESIGN.md"},
	})
}

// continuedTwice breaks short texts at every pair of points.
func continuedTwice(texts []string, max int, breaks ...string) eng.Space {
	var u []eng.Space
	nb := len(breaks)
	for _, t := range texts {
		t := t
		if len(t) > max {
			continue
		}
		at := cuts(t)
		n := len(at)
		u = append(u, eng.Func(n*n*nb*nb, func(i int) string {
			a, b := at[i%n], at[i/n%n]
			if a > b {
				a, b = b, a
			}
			return t[:a] + breaks[i/n/n%nb] + t[a:b] + breaks[i/n/n/nb] + t[b:]
		}))
	}
	return eng.Union(u...)
}

// cuts is every point between characters, and both ends.
func cuts(t string) []int {
	at := []int{0}
	for _, c := range impl.Chars(t) {
		at = append(at, at[len(at)-1]+len(c))
	}
	return at
}
