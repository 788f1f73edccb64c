package main

import (
	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C07: command names.

// named compares which command each statement is.
func named(c eng.Case) eng.Out {
	if c.Mode != "both" {
		o := conformCase(c, model.MTable, errKind)
		if o.Bad == "" && o.NonTrivial {
			r := runImpl(c)
			t, _ := runModel(c)
			if why := bangs(r.Tree, t); why != "" {
				o.Bad = why
			}
			for _, x := range impl.Audit(r.Raw, "") {
				if x.Cat == "cmd" {
					o.Bad = x.Msg
				}
			}
		}
		return o
	}
	// Both modes in turns: neither may change the other.
	var o eng.Out
	for _, m := range []string{"neo", "file", "neo", "file"} {
		o = named(eng.Case{Mode: m, Text: c.Text})
		if o.Bad != "" {
			return o
		}
	}
	return o
}

// bangs compares the ! of all commands.
func bangs(a, b *model.Node) string {
	if a == nil || b == nil {
		return ""
	}
	if a.EA != nil && b.EA != nil && a.EA.Forceit != b.EA.Forceit {
		return "! is not recorded as it should be:\n" + model.Dump(a, model.MEA)
	}
	for i := range a.C {
		for j := range a.C[i].N {
			if w := bangs(a.C[i].N[j], b.C[i].N[j]); w != "" {
				return w
			}
		}
	}
	return ""
}

// allNames is every command name of either mode.
func allNames() []string {
	var out []string
	seen := map[string]bool{}
	for _, l := range [][]model.Cmd{model.Builtin, model.NeovimAdded, model.NeovimRemoved} {
		for _, c := range l {
			if !seen[c.Name] {
				seen[c.Name] = true
				out = append(out, c.Name)
			}
		}
	}
	return out
}

// prefixes of all names, and the names with one more letter.
func prefixes() eng.Lits {
	seen := map[string]bool{}
	var out eng.Lits
	put := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for _, n := range allNames() {
		for k := 1; k <= len(n); k++ {
			put(n[:k])
		}
		for _, x := range []string{"x", "s", "e", "1", "X", "_", "p", "l"} {
			put(n + x)
		}
	}
	return out
}

func letters(lo, hi byte) []string {
	var out []string
	for b := lo; b <= hi; b++ {
		out = append(out, string([]byte{b}))
	}
	return out
}

func init() {
	add(&eng.Check{
		ID:   "C07",
		Rule: "command names: every prefix of every name, and every short word, with every kind of text behind, in both modes; non-trivial: the script is accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			both := func(name string, s eng.Space) {
				ps = append(ps, eng.Part{Name: name, Mode: "file", S: s}, eng.Part{Name: name, Mode: "neo", S: s})
			}
			pre := prefixes()
			low := letters('a', 'z')
			alpha := append(append([]string{}, low...), letters('A', 'Z')...)
			// one character behind a name
			one := append(allBytes()[1:128], "é", "\xff", "", "! x", "!!", "! ", " !", "!x", " x", "|x", " | ec", "\" c", " \" c", "!|", "! \" c", "/a/b/", " /a/", "=1", "(1)", " (1)", " x = 1", "! x y", " 3", "\n", "! F() | endf", " F() | endf", "#x", ":x", "{x}", ".x")
			both("all names", fills([]string{"%s", "  :%s x", "1,2%s", "silent %s", "if a | %s | endif", "%s x\n%s y", "echo 1\n%s", "function F()\n%s\nendfunction"}, pre))
			both("behind names", eng.Cross(pre, eng.Lits(one), func(a, b string) string { return a + b }))
			both("short words", eng.Union(eng.Seq(alpha, "", 1, 3), eng.Map(eng.Seq(low, "", 1, 3), func(s string) string { return s + "!" }), eng.Map(eng.Seq(low, "", 1, 3), func(s string) string { return s + " x" })))
			both("four letters", eng.Seq(low, "", 4, 4))
			both("s, k, d, py", eng.Cross(eng.Lits{"s", "k", "d", "de", "del", "py", "pyt", "dele", "delet", "delete", "py3", "pyx", "sm", "sn", "c", "a", "g", "G", "&", "&&", "~", "@", "*", "#", "<", ">", "=", "!"},
				eng.Seq([]string{"g", "c", "e", "i", "r", "n", "l", "p", "I", "s", "m", "3", "x", "/a/b/", " ", "!", "|", "\"", "#", "&", "_", "é"}, "", 0, 3), func(a, b string) string { return a + b }))
			user := []string{"Foo", "Foo1", "Fo", "FooBar", "Foo_x", "F", "X", "Next", "Print", "P", "N", "Ne", "Pri", "Printx", "X1", "Foo!", "Foo1!x", "foo", "Foo1 x", "F1", "Foo12", "Éx", "K", "S", "Py", "Delete", "Foo#", "Foo-1"}
			both("user commands", eng.Seq(user, "\n", 1, 3))
			both("user commands, one line", eng.Seq(user, " | ", 2, 3))
			ps = append(ps, eng.Part{Name: "both modes in turns", Mode: "both", S: fills([]string{"%s", "%s!", "%s x"}, pre)})
			some := model.Builtin
			if !thorough {
				some = nil
				for i := 0; i < len(model.Builtin); i += 7 {
					some = append(some, model.Builtin[i])
				}
			}
			var a eng.Lits
			for _, c := range some {
				a = append(a, c.Name)
			}
			both("one command after another", eng.Cross(a, eng.Lits(allNames()), func(x, y string) string { return x + "\n" + y[:(len(y)+1)/2] + "\n" + y + "\n" + x }))
			if thorough {
				both("four letters with !", eng.Map(eng.Seq(low, "", 4, 4), func(s string) string { return s + "!" }))
				both("two characters behind names", eng.Cross(pre, eng.Seq(append(append([]string{}, low...), "1", "!", " ", "|", "X", "/", "_"), "", 2, 2), func(a, b string) string { return a + b }))
				both("five letters", eng.Cross(eng.Lits{"s", "k", "d", "p", "e", "w", "c", "l", "t"}, eng.Seq(low, "", 4, 4), func(a, b string) string { return a + b }))
				both("user commands", eng.Seq(user, "\n", 4, 4))
			}
			both("corpus with one edit", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        named,
		Assumptions: []string{"the table of commands and their attributes is that of vim-vimlparser at the pinned commit"},
	})
}
