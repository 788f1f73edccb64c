package main

import (
	"strconv"
	"strings"

	"mc/eng"
)

func itoa(i int) string { return strconv.Itoa(i) }

// C03: literal and name texts.

var tokenHoles = []string{"%s", "'%s'", "\"%s\"", "a%s", "1%s", "0x%s", "0X1%s", "0b%s", "0z%s", "0z00%s", "1.%s", "1.5%s", "1.5e%s", "&%s", "&g:%s", "&o%s", "$%s", "$E%s", "@%s", "a:%s", "s:x%s", "g#%s", "x.%s", "x.y%s", "#{%s:1}", "#{a%s: 1}", "x{%s}", "x{y}%s", "<SID>%s", "<%s", "'a'%s", "'a''%s'", "\"\\%s\"", "is%s", "isnot%s", "[%s]", "{%s}", "(%s)", "a[%s]", "f(%s)", "{'%s': \"%s\"}", "x->%s()", "{%s -> 1}", "a %s b", "-%s"}

func fill(t, x string) string { return strings.Replace(t, "%s", x, -1) }

func fills(ts []string, s eng.Space) eng.Space {
	return eng.Cross(eng.Lits(ts), s, fill)
}

func litLadder(thorough bool) eng.Space {
	ns := counts(1, 140, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2000, 2047, 2048, 2049, 4095, 4096, 4097, 5000)
	if thorough {
		ns = append(ns, 8191, 8192, 8193, 20000, 65535, 65536, 65537, 100000)
	}
	var u []eng.Space
	for _, f := range []func(int) string{
		repeated("", "9", "", ""), repeated("0x", "f", "", ""), repeated("0b", "1", "", ""), repeated("0z", "a1", "", ""), repeated("0z", "A1", ".", ""), repeated("1.", "5", "", ""), repeated("1.5e", "7", "", ""), repeated("", "3", "", ".5"),
		repeated("'", "a", "", "'"), repeated("'", "é", "", "'"), repeated("'", "''", "", "'"), repeated("\"", "\\\"", "", "\""), repeated("\"", "\\n", "", "\""), repeated("\"", "'", "", "\""), repeated("'", "\\", "", "'"), repeated("'", "\xff", "", "'"), repeated("\"", "\U0001F600", "", "\""),
		repeated("", "n", "", ""), repeated("s:", "n", "", ""), repeated("a", "#b", "", ""), repeated("&", "o", "", ""), repeated("&l:", "o", "", ""), repeated("$", "E", "", ""), repeated("x{y}", "n", "", ""), repeated("x.", "k", "", ""), repeated("#{", "k", "", ": 1}"), repeated("{'", "k", "", "': 1}"), repeated("<SID>", "n", "", "()"), repeated("{", "p", "", " -> 1}"),
	} {
		u = append(u, ladder(f, ns...))
	}
	return eng.Union(u...)
}

func init() {
	add(&eng.Check{
		ID:   "C03",
		Rule: "token texts over bytes and small alphabets in every lexical context, parsed alone or in a command and compared with the reference lexer; non-trivial: the text is a valid expression or script",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			one := eng.Seq(allBytes(), "", 0, 1)
			runes := eng.Lits{"é", "\u0080", "\u07ff", "\u0800", "\ud7ff", "\ufffd", "\uffff", "\U00010000", "\U0010ffff", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\x80", "\xe2\x82", "\xf0\x9f\x98", "\xe2\x82\xac", "e\u0301", "\u200b", "\u3000", "\u00a0", "\u2028", "\u0085"}
			p("lengths", "expr", litLadder(thorough))
			p("lengths in let", "file", eng.Wrap("let x = %s", litLadder(thorough)))
			p("lengths, followed", "file", eng.Wrap("echo %s y", litLadder(false)))
			p("one byte", "expr", fills(tokenHoles, one))
			p("one byte in echo", "file", eng.Wrap("echo %s x", fills(tokenHoles, one)))
			p("runes", "expr", fills(tokenHoles, eng.Seq(runes, "", 1, 2)))
			p("runes in echo", "file", eng.Wrap("let x = %s", fills(tokenHoles, eng.Seq(runes, "", 1, 2))))
			p("two bytes", "expr", fills(tokenHoles, eng.Seq(allBytes(), "", 2, 2)))
			n := 0
			if thorough {
				n = 1
			}
			p("numbers", "expr", eng.Seq(words("0 1 9 . e E + - x X b z f A"), "", 1, 5+n))
			p("numbers, spaced", "file", eng.Wrap("echo %s", eng.Seq(append(words("0 1 8 . e - x b z F g ,"), " "), "", 1, 5)))
			p("strings", "expr", eng.Seq([]string{"'", "\"", "\\", "a", "é", "\xff", " ", "|", "n", "\x00"}, "", 1, 6+n))
			p("strings in commands", "file", eng.Wrap("echo %s", eng.Seq([]string{"'", "\"", "\\", "a", "é", "|", "\n", "."}, "", 1, 6)))
			p("names", "expr", eng.Seq([]string{"a", "Z", "_", "0", ":", "#", ".", "s:", "g:", "{", "}", "<SID>", "<sid>", "é", "-", "k"}, "", 1, 4+n))
			p("names in let", "file", eng.Wrap("let %s = 1", eng.Seq([]string{"a", "Z", "_", "0", ":", "#", ".", "s:", "{", "}", "<SID>", "<sid>", "é", "[", "]"}, "", 1, 4+n)))
			p("options", "expr", eng.Seq([]string{"&", "g", "l", ":", "o", "_", "0", "1", " ", "&&", "$", "@", "\"", "'", "é", "w:"}, "", 1, 5+n))
			p("keywords", "expr", eng.Seq([]string{"is", "isnot", "?", "#", " ", "a", "x", "1", ":", "not", "Is", ".", "_"}, "", 1, 5))
			p("dict keys", "expr", eng.Wrap("#{%s", eng.Seq([]string{"a", "1", "-", "_", ":", " ", "}", ",", "é", "'", "0z1", "[", "is"}, "", 1, 5)))
			p("neighbours", "expr", eng.Cross(eng.Lits(atoms), eng.Cross(one, eng.Lits(atoms), func(a, b string) string { return a + b }), func(a, b string) string { return a + b }))
			if thorough {
				p("two bytes in echo", "file", eng.Wrap("echo %s x", fills(tokenHoles, eng.Seq(allBytes(), "", 2, 2))))
				p("three bytes", "expr", fills([]string{"%s", "'%s'", "\"%s\"", "a%s", "1%s", "&%s", "@%s", "$%s"}, eng.Seq(append(allBytes()[9:127], "\x00", "\x80", "\xc3", "\xa9", "\xff"), "", 3, 3)))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        structure(),
		Assumptions: []string{"texts longer than 100000 bytes are not examined"},
	})
}
