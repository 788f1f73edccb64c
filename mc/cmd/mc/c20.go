package main

import (
	"strings"

	"mc/eng"
	"mc/model"
)

// C20: modifiers, ranges, ++opt and +cmd, filters, counts.

func modNames() []string {
	var out []string
	for _, m := range model.Modifiers() {
		out = append(out, m.Name)
	}
	return out
}

// modForms are all prefixes of all modifiers with all that may stand around.
func modForms() eng.Lits {
	seen := map[string]bool{}
	var out eng.Lits
	for _, n := range modNames() {
		for k := 1; k <= len(n); k++ {
			if !seen[n[:k]] {
				seen[n[:k]] = true
				out = append(out, n[:k])
			}
		}
		out = append(out, n+"x", n+"1", strings.ToUpper(n[:1])+n[1:])
	}
	return out
}

// every address form
var addresses = []string{".", "$", "1", "0", "123", "'a", "'<", "'\"", "'|", "/p/", "?p?", "/p", "?p", "/a|b/", "/[/]/", "/\\//", "?[?]?", "\\/", "\\?", "\\&", "%", "*", "+", "-", "+1", "-2", "++", "--3", "+1-2", ".+3", "$-1", "'a+1", "/p/+1", "?p?-2", "/a//b/", "/a/;/b/", "/a/+1/b/-1", "1 + 2", ". - 1", "", "\\/\\?", "'é", "/é\xff/", "4294967296", "+4294967297", "'", "+\t1", "/p/ +", "99999999999999999999", "//", "??", "$ $", "..", "1.", ".1", "''", "/p/?q?", "%%", "1%", "%1", "*1"}

// the parts of ranges
var rangeParts = []string{"1", ".", "$", "'a", "/p/", "?p?", "\\/", "\\", ",", ";", "+", "-", "2", " ", "%", "*", "'", "/"}

var optForms = []string{"++bin", "++nobin", "++edit", "++ff=dos", "++ff=unix", "++ff=mac", "++fileformat=dos", "++fileformat=mac", "++fileformat=unix", "++enc=utf-8", "++encoding=latin1", "++enc=é", "++bad=keep", "++bad=drop", "++bad=x", "++bad=é", "++bad=\xff", "++bad=?", "++bad=|",
	"++ff", "++ff=", "++ff=x", "++ff=dosx", "++ff=DOS", "++enc", "++enc=", "++bad", "++bad=", "++bad=xy", "++bad=keepx", "++binx", "++nobinx", "++editx", "++bin1", "++bin=1", "++", "++x", "+ +bin", "++BIN", "++fileformat", "++fileformat=x", "++encoding=", "++encodin=x", "++f=dos", "++ff =dos", "++bin.", "++edit!", "++nobin,", "++enc=a|b", "++enc=\"", "++ff=dos|", "++ff=unix,", "++p", "+++", "++bin++edit", "++ff=dos++bin"}

var plusForms = []string{"+", "+1", "+$", "+/p", "+/p/", "+/a\\ b/", "+cmd", "+set\\ ts=4", "+\\", "+\\\\", "+\"", "+|", "+a|b", "+a\\|b", "+a\"b", "+é", "+\xff", "++", "+ ", "+\t", "+-1", "+call\\ f('a|b')", "+a\\", "+`=x`", "+\x16|"}

func editCmds(f func(*model.Cmd) bool) []string {
	var out []string
	for i := range model.Builtin {
		if c := &model.Builtin[i]; f(c) {
			out = append(out, c.Name)
		}
	}
	return out
}

func init() {
	add(&eng.Check{
		ID:   "C20",
		Rule: "every sequence of modifiers, address parts, options and counts up to a length before and behind commands; acceptance and what is recorded with the command are compared with the reference. Non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			cat := func(a, b string) string { return a + b }
			cmds := eng.Lits{"echo 1", "", "set x", "p", "s/a/b/", "Foo x", "let x = 1", "!ls", "1,2d", "k a", "|echo", "\" c", "'a,'b>", "edit f", "if 1 | endif", ":::w"}
			mods := modForms()
			p("modifier forms", "file", eng.Cross(eng.Lits{"", "3", "0", "12 ", "4294967296", "99999999999999999999", ":", " :", "1,2", "00007", "silent ", "%", "é", "-1"},
				eng.Cross(mods, eng.Lits{" echo 1", "!echo 1", "! echo 1", " 3 echo 1", "", "!", "|echo 1", " | echo 1", ":echo 1", " : 2,3echo 1", "\techo 1", "\"c", " \" c", "1echo", "! 5tab! new", " x", "!x", "=1", "(", ".x = 1", " !ls", " %s/a/b/", " \n echo"}, cat), cat))
			p("modifiers and commands", "file", eng.Cross(eng.Lits(modNames()), eng.Cross(eng.Lits{" ", "! ", " 2"}, cmds, cat), cat))
			words := []string{}
			for _, n := range modNames() {
				words = append(words, n+" ")
			}
			words = append(words, "silent! ", "silent!", "3verbose ", "0verb ", "5tab ", "7 ", "2 vert ", ":", "sil ", "hid ")
			p("modifier sequences", "file", eng.Cross(eng.Seq(words, "", 0, 3), eng.Lits{"echo 1", "2,3d | " + "5s/a/b/"}, cat))
			short := []string{"silent ", "silent! ", "3tab ", "verbose ", "2verb ", "hide ", "sandbox ", "4", " ", ":", "keepp "}
			p("longer modifier sequences", "file", eng.Cross(eng.Seq(short, "", 4, 5), eng.Lits{"w"}, cat))
			a := eng.Lits(addresses)
			p("addresses", "file", eng.Cross(a, cmds, cat))
			p("address pairs", "file", eng.Cross(eng.Cross(a, eng.Cross(eng.Lits{",", ";", " , ", ";;", ",,", " ", ":", ""}, a, cat), cat), eng.Lits{"p", " s/a/b/", "", ":w >>f"}, cat))
			p("address triples", "file", eng.Cross(eng.Cross(eng.Lits(addresses[:34]), eng.Cross(eng.Lits{",", ";"}, eng.Cross(eng.Lits(addresses[:34]), eng.Cross(eng.Lits{",", ";"}, eng.Lits(addresses[:34]), cat), cat), cat), cat), eng.Lits{"d x 3"}, cat))
			k := 5
			if thorough {
				k = 6
			}
			p("address part sequences", "file", eng.Map(eng.Seq(rangeParts, "", 0, 4), func(s string) string { return s + "p" }))
			p("address part sequences", "file", eng.Map(eng.Seq(rangeParts[:14], "", 5, k), func(s string) string { return s + "w x" }))
			p("patterns", "file", eng.Map(eng.Seq([]string{"/", "?", "a", "[", "]", "\\", "\"", "|", "+", ",", " ", "é"}, "", 1, k), func(s string) string { return "/" + s + "d" }))
			ed := editCmds(func(c *model.Cmd) bool { return c.Has("ARGOPT") || c.Has("EDITCMD") })
			few := []string{"edit", "write", "read", "split", "update", "view", "next", "wq", "echo", "set"}
			o, pl := eng.Lits(optForms), eng.Lits(plusForms)
			p("options", "file", eng.Cross(eng.Lits(ed), eng.Cross(eng.Lits{"", " ", "! ", "!"}, eng.Cross(eng.Union(o, pl), eng.Lits{"", " f", " f | echo 1", "\tf \" c"}, cat), cat), cat))
			p("option sequences", "file", eng.Cross(eng.Lits(few), eng.Map(eng.Seq(optForms[:24], " ", 2, 3), func(s string) string { return " " + s + " f" }), cat))
			p("options and commands", "file", eng.Cross(eng.Lits(ed), eng.Cross(eng.Seq(append([]string{"++bin", "++ff=dos", "++enc=x", "++bad=z", "++edit"}, optForms[19:26]...), " ", 1, 2), eng.Cross(pl, eng.Lits{"", " f g"}, func(a, b string) string { return " " + a + b }), func(a, b string) string { return " " + a + b }), cat))
			p("write, update, read", "file", eng.Cross(eng.Lits{"w", "write", "update", "up", "read", "r", "w!", "r!", "update!", "wq", "x", "1,2w", "1r", "wn", "saveas"}, eng.Seq([]string{" ", "!", ">", ">>", "++bin ", "++ff=mac", "+", "+3 ", "f", "|", "\"", "\\", "é"}, "", 0, 4), cat))
			p("shift", "file", eng.Cross(eng.Seq([]string{">", "<", "1", ",", " ", "!", ":", "'a"}, "", 1, 5), eng.Lits{"", " 3", "x", " | echo 1", "\" c", "|>>"}, cat))
			p("shift counts", "file", eng.Union(ladder(func(n int) string { return strings.Repeat(">", n) + " 2 | " + strings.Repeat("<", n/2+1) }, counts(1, 300)...)))
			p("filters", "file", eng.Cross(eng.Seq([]string{"!", "1", ",", "'a", " ", "silent ", ":"}, "", 0, 4), eng.Lits{"!ls", "! ls | x", "!", "!!", "r !ls", "r!ls", "w !ls", "w!ls", "w ! ls \" c", "read! ls|x", "update !x", "w >>!x", "w ++bin !x | y", "r ++ff=dos !x"}, cat))
			n := counts(1, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1000)
			p("lengths", "file", eng.Union(
				ladder(func(n int) string { return strings.Repeat("silent ", n) + "echo 1" }, n...),
				ladder(func(n int) string { return numbered("#tab ", "", n) + "echo 1" }, n...),
				ladder(func(n int) string { return numbered("#verbose ", "", n) + "sil! w" }, n...),
				ladder(func(n int) string { return numbered("#,", "", n) + "$d" }, n...),
				ladder(func(n int) string { return numbered("/p#/;", "", n) + "d" }, n...),
				ladder(func(n int) string { return "." + numbered("+#", "", n) + "d" }, n...),
				ladder(func(n int) string { return "/" + strings.Repeat("x", n) + "/," + strings.Repeat("9", n) + "d" }, n...),
				ladder(func(n int) string { return "e " + strings.Repeat("++bin ", n) + "+" + strings.Repeat("y", n) + " f" }, n...),
				ladder(func(n int) string { return "e ++enc=" + strings.Repeat("z", n) + " f" }, n...)))
			// nothing of a command shows up in the next one
			full := eng.Lits{"silent! 3verbose 1,2w! ++bin ++ff=dos ++enc=x ++bad=y >> f", "5,6>>>> 2", "e! ++edit ++nobin +cmd f", "r! ls", "w !x", "tab 'a;/p/+1d", "1,2", "silent", "7tab", "echo 1", "Foo! x", "w >>f", "sp +3 g", "1,5!sort", "let x = 1", "if 1", "endif", "\" c", "hide", "k a"}
			p("sequences of commands", "file", eng.Cross(full, eng.Cross(eng.Lits{"\n", " | ", "\n\n\t"}, eng.Cross(full, eng.Cross(eng.Lits{"\n", "|"}, full, cat), cat), cat), cat))
			if thorough {
				p("modifier sequences", "file", eng.Map(eng.Seq(words, "", 4, 4), func(s string) string { return s + "echo 1" }))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: conform(model.MEA, errKind),
	})
}
