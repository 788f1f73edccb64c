package main

import (
	"strings"

	"mc/eng"
)

// C21: composition of scripts.

// lineHoles are all scripts with a hole in front of each line and at the end,
// and in front of each bar.
func lineHoles(texts []string) eng.Lits {
	var out eng.Lits
	for _, t := range texts {
		if strings.Contains(t, holeMark) {
			continue
		}
		for i := 0; i <= len(t); i++ {
			switch {
			case i == 0 || t[i-1] == '\n':
				out = append(out, t[:i]+"%s\n"+t[i:])
			case i < len(t) && t[i] == '|':
				out = append(out, t[:i]+"|%s"+t[i:], t[:i]+"| %s "+t[i:])
			case i == len(t):
				out = append(out, t+"\n%s", t+" | %s", t+"\r\n%s", t+"\n\n%s\n")
			}
		}
	}
	return out
}

var blockHoles = eng.Lits{
	"if a\n%s\nendif", "if a\nelse\n%s\nendif", "if a\nelseif b\n%s\nelse\necho 1\nendif", "while c\n%s\nendwhile", "for x in y\n%s\nendfor", "for [x, y; z] in w\n%s\nendfor", "try\n%s\ncatch\nendtry", "try\ncatch /p/\n%s\nendtry", "try\nfinally\n%s\nendtry", "function F()\n%s\nendfunction", "function! s:f(a, b = 1, ...) abort dict\n%s\nendfunction",
	"if a | %s | endif", "while c|%s|endwhile", "try | %s | endtry", "function F() | %s | endfunction", "for x in y | %s | endfor", "if a\n  %s\nelse\n\techo 1\nendif\necho 2", "if a\nwhile b\ntry\nfunction F()\nfor x in y\n%s\nendfor\nendfunction\nendtry\nendwhile\nendif", "function F()\nfunction G()\nreturn\nendfunction\n%s\nendfunction", "if a\nendif\n%s\nif b\nendif", "function F()\n\treturn 1\n\t%s\nendfunction\nfunction G()\nendfunction",
	"silent %s", "1,2%s", ":%s", "  %s", "%s \" c", "\t%s\t", "verbose 3 %s", "silent! echo 1 | %s", "\" é\n%s\n\" é", "echo 'é' | %s", "%s|", "|%s", "\n\n%s\n\n",
}

func init() {
	add(&eng.Check{
		ID:   "C21",
		Rule: "every script of the corpus in every hole of every other one and of block frames; the result of the whole is compared with the results of the parts, on the real parser. Compared are the pairs for which the law can hold (the reference decides that); non-trivial: compared and accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			all := eng.Lits(corpus)
			var after eng.Lits
			for _, t := range corpus {
				if !strings.Contains(t, holeMark) {
					after = append(after, t+"\n%s")
				}
			}
			p("one after another", "file", holed(after, all))
			p("one after another", "neo", holed(after, all))
			p("in blocks and lines", "file", holed(blockHoles, all))
			p("in all places", "file", holed(lineHoles(multi), all))
			p("in all places of commands", "file", holed(lineHoles(simple), eng.Lits(append(append([]string{}, multi...), bad[:40]...))))
			seq := eng.Seq(blockOps, "\n", 1, 3)
			p("command sequences in blocks", "file", holed(blockHoles[:20], seq))
			p("command sequences one after another", "file", holed(eng.Map(eng.Seq(blockOps, "\n", 1, 2), func(s string) string { return s + "\n%s" }), eng.Seq(blockOps, "\n", 1, 2)))
			state := []string{"echo 1", "silent! 3verbose 1,2w! ++bin ++ff=dos ++enc=x ++bad=y >> f", "function F(a) abort\nreturn\nendfunction", "let x =<< trim E\n  a\nE", "append\nx\n.", "lua << E\nx\nE", "if a\nelse\nendif", "for i in l\nbreak\nendfor", "try\ncatch\nfinally\nendtry", "Foo x", "Foo1", "echo {x, y -> x}", "let [a, b; c] = l", "call f()\n\\ \" c", "\" é", "s/a/b/ | k x", "redir @\">", "e `=x` y", "const x = #{k: 1}", "echo (", "while 1", "endif", "function F(", "foo", "let x =<<", "echo {a, -> 1}", "w >x"}
			p("triples", "file", holed(eng.Cross(eng.Lits(state), eng.Lits(state), func(a, b string) string { return a + "\n%s\n" + b }), eng.Lits(state)))
			p("triples with bars", "file", holed(eng.Cross(eng.Lits(state), eng.Lits(state), func(a, b string) string { return a + " | %s|" + b }), eng.Lits(state)))
			n := counts(1, 60, 100, 200, 255, 256, 257, 500, 1000)
			var u []eng.Space
			for _, s := range state[:19] {
				s := s
				u = append(u, ladder(func(n int) string { return strings.Repeat(s+"\n", n) + "%s\n" + s }, n...))
			}
			p("many in front", "file", holed(eng.Union(u...), eng.Lits{state[1], state[2], state[3], state[12], state[17], state[19], "foo"}))
			if thorough {
				p("in all places of commands", "file", holed(lineHoles(simple), all))
				p("longer command sequences in blocks", "file", holed(blockHoles[:11], eng.Seq(blockOps, "\n", 4, 4)))
				p("quadruples", "file", holed(eng.Cross(eng.Lits(state), eng.Cross(eng.Lits(state), eng.Lits(state), func(a, b string) string { return a + "\n" + b }), func(a, b string) string { return a + "\n%s\n" + b }), eng.Lits(state)))
			}
			return ps
		},
		Eval:        composed,
		Assumptions: []string{"whether a text is complete, and thus subject to the law, is decided with the reference model"},
	})
}
