package main

import (
	"strings"

	"mc/eng"
	"mc/model"
)

// C08: where commands end, and their verbatim text.

// A command of every way to end: with bar and comment, without either, file
// names, registers, patterns, users', and special parsers.
var enders = words(`set edit write read map normal global s & k @ * @@ = redir put yank delete syntax highlight vimgrep lvimgrepadd grep make source Foo command autocmd doautocmd lua python3
	! wincmd echo let call execute throw if catch return append copy help hide tag menu match lcd argadd next args cd buffer debug abbreviate echohl unlet function > : registers display marks windo finish loadkeymap else startinsert
	g/x/ tabe sort digraphs colorscheme wn history perl > sp botright 1 'a % silent pu reg nohlsearch wqa jumps diffget Next Print X ~ # dl`)

var argChars = []string{"a", " ", "|", "\"", "\\", "\x16", "`", "`=", "/", "'", "@", "=", "[", "]", "é", "!", "\t", "(", ")", "1"}

// Arguments of all kinds.
var args = []string{
	"", " ", "a", " a", " a b ", " a | b", " a|b", "|a", " |", "|", " \"", " \" c", "\" c", " a \" c | d", " a\"b", " a\" b\" c", " a\\|b | c", " a\\\"b\" c", " a\\\\|b", " a\x16|b|c", " a\x16\"b\"c", " \x16", " a \x16 ", " \x16\x16|b", " `=x`", " `=x|y`", " `='a|b'` | c", " `=\"a\"`\" c", " `=x", " `x|y`", " a`=1`b`=2`|c",
	" /a|b/", " /a|b/gj c|d", " /a\"b/ c", " a|b c|d", " /a\\/|b/j x|y", " /a", " ?a|b? x", " #a|b# x", " x\"y|z", " a|\" c", " a | | b", " a || b", "  a  ", "\ta\t|\tb\t", " a\r", " é | é \" é", " \xff | \xff \" \xff", " a \\", " a \\ |b", " a\\", " =a|b", " =\"a|b\"", " @\"", " @\" c", " @a\" c", "\"", "\"a", " \"a\" c", "@", "@\"|x", "*", " *\"", "a\"", " '|'", " 'a' | b", " (a|b)", " [a\"b] | c", " {a|b}", " 1 | 2", " 1\"2", "!", "! a | b", "! \" c", " ! a|b", " !a\"b", " ++bin a|b", " +1 a|b", " +/a|b/ c", " +/a\\ b/ c|d", " +\"x y", " > a|b", " >> a\"b", " >> a | b", " < a", " x=y|z", " x='|'|z", " \"x\" | y", " \\\" | y", " a;b", " a,b|c", " %|#", " <args>|x", " <C-V>|x", " <Bar>x\"y", " a\x00b|c", " \x0b|a",
}

func init() {
	add(&eng.Check{
		ID:   "C08",
		Rule: "a command of every kind with every short sequence of the characters that matter behind it, and every command with a list of arguments; texts and separation are compared with the reference. Non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			cat := func(a, b string) string { return a + b }
			p("every command, every argument", "file", eng.Cross(eng.Lits(allNames()), eng.Lits(args), cat))
			p("every command, every argument", "neo", eng.Cross(eng.Lits(allNames()), eng.Lits(args), func(a, b string) string { return "1,2silent! " + a + b + "\necho 1" }))
			p("argument sequences", "file", eng.Cross(eng.Lits(enders), eng.Seq(argChars, "", 0, 3), cat))
			core := words("set edit map s @ redir syntax vimgrep lua ! wincmd echo Foo hide write! if normal =")
			p("argument sequences", "file", eng.Cross(eng.Lits(core), eng.Seq(argChars, "", 4, 4), cat))
			p("longer argument sequences", "file", eng.Cross(eng.Lits(core), eng.Seq([]string{" ", "a", "|", "\"", "\\", "\x16", "/", "`="}, "", 5, 5), cat))
			p("pairs of commands", "file", eng.Cross(eng.Lits(simple), eng.Cross(eng.Lits{"|", " | ", "\"", " \" ", " || ", "\\|", "\x16|", "\n", " |\" c\n"}, eng.Lits(simple), cat), cat))
			p("redir and registers", "file", eng.Cross(eng.Lits{"redir", "redir!", "redi", "@", "*", ":@", "1@", "put", "normal", "let x = @"}, eng.Seq([]string{"@", "\"", " ", ">", "a", "|", "*", "=", ":"}, "", 0, 5), cat))
			p("patterns", "file", eng.Cross(eng.Lits{"vimgrep", "vim!", "vimgrepa", "lv", "lvimgrepadd", "syntax match X", "sy match X", "syn region X start=", "syntax region", "syn keyword", "syn", "syntax cluster X"},
				eng.Seq([]string{" ", "/", "a", "|", "\"", "\\", "g", "[", "=", "skip=", "'"}, "", 0, 4), cat))
			var del []string
			for b := 1; b < 256; b++ {
				if b != '\n' {
					del = append(del, string([]byte{byte(b)}))
				}
			}
			p("delimiters of patterns", "file", eng.Cross(eng.Lits{"vimgrep ", "vimgrep! ", "1vim", "lvimgrepadd", "syntax match X ", "syn region X start=", "s", "s ", "g", "v ", "sort ", "tag ", "wincmd ", "normal ", "lhelpgrep ", "call search", "catch ", "catch", "au X ", "filter ", "match X ", "2match X ", "ijump ", "@", "put ", "doau "},
				eng.Cross(eng.Lits(append(del, "é")), eng.Lits{"D", "DaD|b", "Da|bD|c", "Da b|cD d|e", "Da\\D|b c|dD|e", "D a\"bD\"c", "Da\"b cD \"d", "DaDgj f|x", "DaD D|D|x", "Da|b", "a|Db", "Da b", "DD|x", "D|D"}, func(d, t string) string { return strings.ReplaceAll(t, "D", d) }), cat))
			p("expressions in file names", "file", eng.Cross(eng.Lits{"edit ", "e! ", "read ", "write ", "source ", "args ", "sp ", "hide ", "file ", "set ", "!", "lcd ", "e ++ff=unix ", "e + "},
				eng.Seq([]string{"`=", "`", "a", "'|'", " ", "|", "\"", "\\", "+", "("}, "", 0, 4), cat))
			p("comments", "file", eng.Cross(eng.Seq([]string{"\"", "#", "#!", " ", ":", "1", "silent "}, "", 0, 4), eng.Lits{"", "x", " x | y", "\"x", "\\", "é\xff", "\t", "x\n\"y"}, cat))
			n := counts(1, 70, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097)
			var u []eng.Space
			for _, c := range []string{"set ", "map x ", "edit ", "Foo ", "!", "\"", "normal ", "vimgrep /", "s/", "lua ", "syn match X /", "wincmd w |"} {
				for _, x := range []string{"a", " ", "\\|", "\x16|", "|", "\\", "é", "`=a`", "a "} {
					u = append(u, ladder(repeated(c, x, "", "b | echo 1"), n...))
				}
			}
			u = append(u, ladder(func(n int) string { return numbered("set x# | ", "", n) + "\" c" }, n[:100]...))
			p("lengths", "file", eng.Union(u...))
			if thorough {
				p("argument sequences", "file", eng.Cross(eng.Lits(enders), eng.Seq(argChars, "", 4, 4), cat))
				p("argument sequences", "file", eng.Cross(eng.Lits(words("set edit map redir syntax write")), eng.Seq(argChars, "", 5, 5), cat))
				p("argument sequences of all commands", "file", eng.Cross(eng.Lits(allNames()), eng.Seq([]string{" ", "a", "|", "\"", "\\", "\x16", "/", "`=", "!"}, "", 0, 4), cat))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        conform(model.MStruct, errKind),
		Assumptions: []string{"which commands take bars, quotes or file names is decided by the table of commands"},
	})
}
