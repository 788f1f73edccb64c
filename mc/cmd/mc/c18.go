package main

import (
	"fmt"
	"regexp"
	"strings"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C18: errors.

func located(c eng.Case) eng.Out {
	o := eng.Out{Steps: 1, Compared: true}
	name := ""
	var r *impl.Result
	if c.Mode == "expr" {
		r = impl.ParseExpr(c.Text)
	} else {
		name = someFile
		r = impl.ParseReader(strings.NewReader(c.Text), name, c.Mode == "neo")
	}
	_, e := runModel(c)
	if e == nil || r.Kind() == "tree" {
		// That it must be accepted or rejected is what other checks judge.
		o.Compared = false
		return o
	}
	o.NonTrivial = true
	o.Outcome = model.HashError(e)
	switch {
	case r.Kind() != "error":
		o.Bad = fmt.Sprintf("%s: %v %v", r.Kind(), r.Panic, r.Other)
	case *r.Err != *e:
		o.Bad = fmt.Sprintf("got error %v\nexpected  %v", r.Err, e)
	case r.File != name:
		o.Bad = fmt.Sprintf("file name %q", r.File)
	default:
		if why := errorText(r.Text, r.Msg, name, e.Pos.Line, e.Pos.Col); why != "" {
			o.Bad = fmt.Sprintf("text of the error: %q: %s", r.Text, why)
		}
	}
	return o
}

var digits = regexp.MustCompile(`\d+`)

// errorText says what a text of an error lacks.
func errorText(text, msg, name string, line, col int) string {
	if !strings.Contains(text, msg) {
		return "no message"
	}
	text = strings.Replace(text, msg, " ", 1)
	if !strings.Contains(text, name) {
		return "no file name"
	}
	if name != "" {
		text = strings.Replace(text, name, " ", 1)
	}
	if d := digits.FindAllString(text, -1); len(d) != 2 || d[0] != itoa(line) || d[1] != itoa(col) {
		return "line and column are not given"
	}
	return ""
}

func init() {
	add(&eng.Check{
		ID:   "C18",
		Rule: "every text of the spaces which both sides reject: message, line, column, offset, file name and error text are compared with the reference; non-trivial: rejected",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			cat := func(a, b string) string { return a + b }
			ko := eng.Lits(broken)
			p("errors behind everything", "file", fills(leads, ko))
			p("errors behind everything, CRLF", "neo", eng.Map(fills(leads, ko), crlf))
			p("errors behind scripts", "file", eng.Cross(eng.Lits(scripts), ko, func(a, b string) string { return a + "\n" + b }))
			p("errors in front of scripts", "file", eng.Cross(ko, eng.Lits(scripts[:40]), func(a, b string) string { return a + "\n" + b }))
			p("errors continued everywhere", "file", continued(broken, "\n\\", "\n \t\\", "\r\n\\", "\n\\\n  \\"))
			all := damaged(corpus, "\n\\|\"'()[]{} \t!=,:;.x0é")
			p("damaged scripts", "file", all)
			p("damaged scripts behind a prefix", "file", eng.Wrap("echo 'é\xff'\n\n  \\ . x\n\t%s", all))
			k := 3
			if thorough {
				k = 4
			}
			p("damaged expressions", "expr", damaged(eng.All(eng.Union(eng.Lits(atoms), nest(1, atoms[:10], holes))), "\n\\|\"'()[]{} !=,:;.é&@"))
			p("token sequences", "expr", eng.Seq(append([]string{"é", "\xff", ";", "="}, exprWords...), "", 0, k+1))
			p("token sequences in echo", "file", eng.Wrap("echo 'é' %s", eng.Seq(append([]string{"é", "\n\\", ";"}, exprWords...), "", 0, 4)))
			p("token sequences 2", "expr", eng.Seq(exprWords2, "", 0, 4))
			for _, h := range heads {
				p("arguments of "+h.pre, "file", eng.Map(eng.Seq(stmtWords, "", 0, k), func(s string) string { return "\"é\n" + h.pre + s + h.post }))
			}
			p("parameters", "file", fills([]string{"function F(%s)\nendfunction", "echo {%s -> 1}"}, eng.Seq(paramWords, "", 0, 4)))
			p("attributes", "file", eng.Wrap("\t function F()%s\nendfunction", eng.Seq(attrWords, "", 0, 3)))
			p("names", "file", fills([]string{"function %s()\nendfunction", "echo 1\nfunction! %s(a)\nendfunction", "delfunction %s", "call %s", "let %s = 1", "let [a, %s] = l", "const %s = 1", "unlet x %s", "for %s in l\nendfor", "lockvar %s", "echo %s"}, eng.Union(eng.Lits(funcNames), eng.Lits(targets))))
			p("commands", "file", eng.Cross(eng.Lits{"", " ", "silent ", "1,2", "\"é\n\t:", "echo 'é' | "}, eng.Cross(prefixes(), eng.Lits{"!", "! x", "x y", "é", "(", " )", ""}, cat), cat))
			p("command sequences", "file", eng.Seq(blockOps, "\n", 0, k+1))
			p("command sequences with bars", "file", eng.Seq(blockOps[:20], " | ", 0, k))
			p("3 open blocks", "file", inAll(3, 1, blockOps, "\n"))
			p("2 open blocks, unfinished", "file", eng.Cross(inAll(2, 1, blockOps, "\n"), eng.Lits{"\n", "\n\n\n", "\nif é", "\r\n", "|", "\nwhile 1|", "\ntry\ncatch", "\nfunction F()", " \" c"}, cat))
			p("options", "file", eng.Cross(eng.Lits(words("edit write read sp update")), eng.Cross(eng.Lits{" ", "! "}, eng.Cross(eng.Lits(optForms), eng.Cross(eng.Lits{" ", ""}, eng.Lits(append(append([]string{}, optForms...), plusForms...)), cat), cat), cat), cat))
			p("addresses", "file", eng.Cross(eng.Lits(addresses), eng.Cross(eng.Lits{",", ";", " ", "\\", "é"}, eng.Cross(eng.Lits(addresses), eng.Lits{"p", "foo", "\\", "é x"}, cat), cat), cat))
			p("bytes", "file", fills(append([]string{"echo %s", "%s", "let %s = 1", "call %s", "echo 1 %s", "wincmd %s", "echo 'é%s", "echo \"\\%s", "function %s", "x{%s", "for %s", "1,%s", "e ++%s", "w >%s", "echo x.%s", "echo x->%s", "echo &%s", "echo @%s", "echo {%s", "echo #{%s"}, tokenHoles...), eng.Seq(append(allBytes(), "é", "世", "\U0001F600"), "", 0, 1)))
			p("two bytes", "expr", fills(tokenHoles[:20], eng.Seq(append(allBytes()[9:127], "\x80", "\xff", "é"), "", 2, 2)))
			p("command arguments", "file", eng.Cross(eng.Lits(words("edit vimgrep wincmd syntax redir catch g e+ write 1,/ s !")), eng.Seq(argChars, "", 0, 4), cat))
			ns := counts(1, 70, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 4095, 4096, 4097, 10000)
			var u []eng.Space
			for _, t := range []string{"foo", "echo )", "if a", "endif", "let x = 1 2", "echo 'a", "let x =<< E", "function f()", "edit ++x"} {
				for _, x := range []string{" ", "\t", "\n", "\r\n", "\"é\n", "\n\\", "echo 1|", "silent ", "é|"} {
					u = append(u, ladder(repeated("", x, "", t), ns...))
				}
				u = append(u, ladder(func(n int) string { return "echo '" + strings.Repeat("é", n) + "' | " + t }, ns...))
				u = append(u, ladder(func(n int) string { return "echo '" + strings.Repeat("\xff", n) + "'\n" + t }, ns...))
				u = append(u, ladder(func(n int) string { return "echo [" + eng.Repeat("é\n \\ ", ",", n) + "]\n" + t }, ns...))
				u = append(u, ladder(func(n int) string { return "append\n" + strings.Repeat("é\r\n", n) + ".\n" + t }, ns...))
			}
			u = append(u, ladder(func(n int) string { return strings.Repeat("x", n) + " y" }, ns...), ladder(func(n int) string { return "echo " + strings.Repeat("é", n) }, ns...), ladder(func(n int) string { return "echo f(" + strings.Repeat("a,", n) + " b c" }, ns...))
			p("lengths", "file", eng.Union(u...))
			p("lengths", "expr", eng.Map(eng.Union(u...), func(s string) string { return "(" + s }))
			max := 60000
			if thorough {
				max = 1200000
			}
			ps = append(ps, also(false, max, "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C19", "C20")...)
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        located,
		Assumptions: []string{"numbers of internal token types in a message are ignored"},
	})
}
