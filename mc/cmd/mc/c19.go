package main

import (
	"strings"

	"mc/eng"
	"mc/model"
)

// C19: heredocs and other multi-line bodies.

// Starters of bodies, with E or . as marker.
var starters = []struct{ head, marker string }{
	{"let x =<< E", "E"}, {"let x =<< trim E", "E"}, {"let [a, b; c] =<< E", "E"}, {"  let x =<< trim E", "E"}, {"\t let d.k =<< trim E", "E"}, {"let x=<<E", "E"}, {"let x =<< trim eval E", "E"}, {"let x =<< E \" E", "E"}, {"let x =<<   E  | echo 1", "E"}, {"let x =<< trim trim E", "E"}, {"let x =<< EOF", "EOF"}, {"let x =<< .", "."}, {"let x =<< É", "É"}, {"const x =<< E", "E"},
	{"append", "."}, {"insert", "."}, {"a", "."}, {"i!", "."}, {"1,2append!", "."}, {"  append", "."}, {"append | x", "."}, {"append \" x", "."}, {"silent a", "."}, {"change", "."}, {"insert x", "."}, {"a |", "."}, {":1insert", "."},
	{"lua << E", "E"}, {"lua <<E", "E"}, {"lua << E | x", "E | x"}, {"perl << E", "E"}, {"python << E", "E"}, {"python3 << E", "E"}, {"py3 << E", "E"}, {"py << E", "E"}, {"ruby << E", "E"}, {"tcl << E", "E"}, {"mzscheme << E", "E"}, {"lua <<", "."}, {"perl << ", "."}, {"python3 <<\t", "."}, {"lua << E ", "E "}, {"lua << trim E", "trim E"}, {"ruby << EOF", "EOF"}, {"  tcl << E", "E"}, {"lua << \"E", "\"E"}, {"pyx << E", "E"}, {"pythonx << E", "E"}, {"silent! lua << E", "E"}, {"1,2perl << E", "E"}, {"lua! << E", "E"}, {"lua x << E", "E"}, {"mz << E", "E"}, {"rub << E", "E"},
	{"loadkeymap", ""}, {"loadk", ""}, {"loadkeymap x", ""}, {"finish", ""}, {"fini | x", ""}, {"finish \" c", ""}, {"  finish", ""}, {"silent finish", ""}, {"if a\nfinish", "endif"}, {"finish!", ""}, {"finish x", ""}, {"function F()\nfinish", "endfunction"}, {"if a | finish | endif", ""}, {"loadkeymap | x", ""}, {"if a\nloadkeymap", "endif"}, {"try\nlua << E", "E\nendtry"}, {"function F()\nlet x =<< trim E", "E\nendfunction"}, {"finish\nfinish", ""},
}

// bodyLines are the lines around a marker M.
func bodyLines(m string) []string {
	return []string{m, " " + m, m + " ", m + m, "", "x", "  y | \"z", "\t" + m, ".", "E", "\\x", "endif", "let q =<< " + m, "é\xff", "finish", "echo 1", "\"" + m, "\\" + m, "(((", m + "\r", "  ", "\t\tx", "|" + m, ".\r"}
}

func bodies(s struct{ head, marker string }, lo, hi int, few bool) eng.Space {
	l := bodyLines(s.marker)
	if few {
		l = l[:12]
	}
	return eng.Map(eng.Seq(l, "\n", lo, hi), func(b string) string { return s.head + "\n" + b })
}

func init() {
	add(&eng.Check{
		ID:   "C19",
		Rule: "every start of a multi-line body with every sequence of body lines up to a length, among them everything like the end marker, in every surrounding; compared with the reference. Non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			var short, long, closed []eng.Space
			for _, s := range starters {
				short = append(short, bodies(s, 0, 3, false))
				long = append(long, bodies(s, 4, 4, true))
				closed = append(closed, eng.Map(bodies(s, 0, 2, false), func(b string) string { return b + "\n" + s.marker + "\necho 'x'\nlet y = 2" }))
			}
			p("bodies", "file", eng.Union(short...))
			p("bodies with an end", "file", eng.Union(closed...))
			p("bodies with an end", "neo", eng.Map(eng.Union(closed...), crlf))
			p("longer bodies", "file", eng.Union(long...))
			p("surroundings", "file", fills([]string{"if a\n%s\nendif\necho 2", "function F()\n%s\nendfunction\necho 2", "echo 1\n%s\n", "\n\n\t%s\n\n", "while 1\n%s\nbreak\nendwhile", "try\n%s\ncatch\nendtry", "let z =<< E\nx\nE\n%s\necho 2", "append\n.\n%s\nappend\n.\necho 2", "\"é\n%s"}, eng.Union(closed...)))
			head := eng.Cross(eng.Lits{"let x =<<", "let [a, b] =<<", "let x += <<", "let d.k=<<", "let x =<< ", "const x =<<", "let x <<"}, eng.Seq([]string{" ", "trim", "eval", "E", "e", "1", "|", "\"", ".", "É", "\t", "<", "-"}, "", 0, 4), func(a, b string) string { return a + b })
			p("heredoc heads", "file", eng.Cross(head, eng.Lits{"", "\n", "\nE", "\nx\nE\necho 1", "\nx\n  E\n.\necho 1"}, func(a, b string) string { return a + b }))
			p("words of heredoc heads", "file", eng.Cross(eng.Cross(eng.Lits{"let x =<< ", "const [a; b] =<< ", "let x =<<"}, eng.Seq([]string{"trim", "eval", "E", "e", "\"", "| echo", "trimE", "É"}, " ", 0, 5), func(a, b string) string { return a + b }),
				eng.Lits{"", "\nE", "\n  E\nE\necho 1"}, func(a, b string) string { return a + b }))
			p("script heads", "file", eng.Cross(eng.Cross(eng.Lits(words("lua perl python python3 py3 ruby tcl mzscheme pyx pyxdo luado py3file pythonx py pyfile lua! append insert change")), eng.Seq([]string{" ", "<<", "<", "E", "|", "\"", "x", "\t", "."}, "", 0, 4), func(a, b string) string { return a + b }),
				eng.Lits{"", "\nE", "\nx\nE\necho 1", "\nx\n.\necho 1"}, func(a, b string) string { return a + b }))
			p("indent of trimmed heredocs", "file", eng.Cross(eng.Seq([]string{" ", "\t", ":", "é|", "\v"}, "", 0, 3), eng.Cross(eng.Seq([]string{" ", "\t", "\v"}, "", 0, 4), eng.Lits{"", " ", "x"}, func(a, b string) string { return a + "E" + b }), func(a, b string) string {
				return "if 1\n" + a + "let x =<< trim E\n  a\n" + b + "\nendif\nE\nendif"
			}))
			ns := counts(0, 130, 200, 255, 256, 257, 500, 1000, 4095, 4096, 4097)
			var u []eng.Space
			for _, s := range starters {
				s := s
				u = append(u, ladder(func(n int) string { return s.head + "\n" + numbered("line # é\n", "", n) + s.marker + "\necho 'x'" }, ns...))
				u = append(u, ladder(func(n int) string {
					return s.head + "\n" + strings.Repeat("x", n) + "\n" + strings.Repeat(" ", n) + s.marker + "\n" + s.marker + "\necho 'x'"
				}, ns...))
			}
			p("lengths", "file", eng.Union(u...))
			p("marker lengths", "file", eng.Union(ladder(func(n int) string {
				m := strings.Repeat("M", n)
				return "let x =<< " + m + "\n" + m + "M\n" + m[1:] + "\n" + m + "\necho 1"
			}, ns[1:]...), ladder(func(n int) string {
				m := strings.Repeat("é", n)
				return "lua << " + m + "\n" + m + "M\n" + m[1:] + "\n" + m + "\necho 1"
			}, ns[1:]...)))
			if thorough {
				long = nil
				for _, s := range starters {
					long = append(long, bodies(s, 4, 4, false), bodies(s, 5, 5, true))
				}
				p("long bodies", "file", eng.Union(long...))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: conform(model.MStruct, errKind),
	})
}
