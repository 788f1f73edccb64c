package main

import (
	"fmt"
	"regexp"
	"strings"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C06: continuation lines.

var contRE = regexp.MustCompile(`\r?\n[ \t]*\\`)

var oddRE = regexp.MustCompile(`\r\r\n[ \t]*\\`)

// unsplit joins continuation lines.
func unsplit(s string) string {
	u := contRE.ReplaceAllLiteralString(s, "")
	if u == "" || strings.HasSuffix(u, "\n") && !strings.HasSuffix(s, "\n") {
		u += "\n" // the last line has become empty, but is one
	}
	return u
}

func continuation(c eng.Case) eng.Out {
	o := eng.Out{Steps: 1, Compared: true}
	if contRE.MatchString(unsplit(c.Text)) || oddRE.MatchString(c.Text) {
		// A backslash which becomes the start of a line, or a carriage return
		// which becomes the end of one, make another text.
		return eng.Out{}
	}
	r := runImpl(c)
	u := runImpl(eng.Case{Mode: c.Mode, Text: unsplit(c.Text)})
	if r.Kind() != u.Kind() {
		o.Bad = fmt.Sprintf("split: %s (%v %v %v)\nnot split: %s (%v %v %v)", r.Kind(), r.Err, r.Other, r.Panic, u.Kind(), u.Err, u.Other, u.Panic)
		return o
	}
	const mask = model.MEA | model.MTable
	t, e := runModel(c)
	switch r.Kind() {
	case "tree":
		o.NonTrivial = true
		o.Outcome = model.Hash(u.Tree)
		o.Steps = model.Count(u.Tree)
		if !model.Equal(r.Tree, u.Tree, mask) {
			o.Bad = "split:\n" + model.Dump(r.Tree, mask) + "not split:\n" + model.Dump(u.Tree, mask)
		} else if e == nil && model.Equal(r.Tree, t, model.MStruct) && !model.Equal(r.Tree, t, model.MPos|model.MEAPos) {
			o.Bad = "got:\n" + model.Dump(r.Tree, model.MPos|model.MEAPos) + "expected:\n" + model.Dump(t, model.MPos|model.MEAPos)
		}
	case "error":
		o.Outcome = model.HashError(u.Err)
		if r.Err.Msg != u.Err.Msg {
			o.Bad = fmt.Sprintf("split: %v\nnot split: %v", r.Err, u.Err)
		} else if e != nil && e.Msg == r.Err.Msg && *e != *r.Err {
			o.Bad = fmt.Sprintf("got error %v\nexpected  %v", r.Err, e)
		}
	}
	return o
}

// everywhere puts the break between all characters.
func everywhere(br string) func(string) string {
	return func(t string) string {
		var b strings.Builder
		for _, r := range impl.Chars(t) {
			b.WriteString(br)
			b.WriteString(r)
		}
		return b.String() + br
	}
}

func init() {
	add(&eng.Check{
		ID:   "C06",
		Rule: "every text of the spaces with line breaks put in is compared with the text without them on the real parser, and its positions with the reference; non-trivial: accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			all := append(append([]string{}, scripts...), broken...)
			p("one break", "file", continued(all, "\n\\", "\n  \\", "\n\t\\", "\r\n\\", "\n\\\n\\", "\n \t \\\n\\\r\n\t\\"))
			p("one break", "neo", continued(all, "\n\\"))
			p("breaks everywhere", "file", eng.Union(eng.Map(eng.Lits(all), everywhere("\n\\")), eng.Map(eng.Lits(all), everywhere("\n \t\\")), eng.Map(eng.Lits(all), everywhere("\r\n\\")), eng.Map(eng.Lits(all), everywhere("\n\\\n\\"))))
			max := 14
			if thorough {
				max = 60
			}
			p("two breaks", "file", continuedTwice(all, max, "\n\\", "\n \\"))
			var in []string
			for _, l := range []string{"if é | %s", "  %s\necho 1", "echo 1\n%s\n\necho 2", "function F()\n%s\nendfunction", "silent! %s", "\"é\n\t%s", "%s\n\"\n\\\n\\x"} {
				for _, t := range all {
					in = append(in, strings.Replace(l, "%s", t, 1))
				}
			}
			p("one break in surroundings", "file", continued(in, "\n\\"))
			// what is a continuation line and what is not
			p("line starts", "file", fills([]string{"echo 1%s2", "echo 'a%sb'", "let x = y%s + z", "set a%sb", "\" c%s c", "map x y%sz", "s/a%sb/c/", "append\na%sb\n.\necho", "let x =<< E\na%sb\nE\necho", "if a%sendif", "foo%sbar", "echo (%s)", "call f(%s)", "lua << E%sE", "finish%sx", "%secho 1", "echo 1%s"},
				eng.Seq([]string{"\n", "\\", " ", "\t", "\r", "\v", "\f", "\u00a0", "\u3000", "é", "\x00", "\xff"}, "", 1, 4)))
			n := ladder(func(n int) string { return "echo a" + eng.Repeat("\n\\", "", n) + " + b" }, counts(1, 300, 1000, 4096, 20000)...)
			p("many lines", "file", eng.Union(n, ladder(func(n int) string { return "echo [" + eng.Repeat("\n  \\ a,", "", n) + "\n  \\ b]\necho (" }, counts(1, 300, 1000, 3000)...),
				ladder(func(n int) string { return "echo a" + "\n" + strings.Repeat(" ", n) + "\\ + b" }, counts(1, 300, 1000, 4096, 20000)...),
				ladder(func(n int) string {
					return "echo '" + strings.Repeat("x", n) + "\n\\" + strings.Repeat("é", n) + "' . b | foo"
				}, counts(1, 300, 1000, 4096, 20000)...)))
			if thorough {
				p("two breaks", "file", continuedTwice(in, 40, "\n\\"))
			}
			return ps
		},
		Eval: continuation,
		Assumptions: []string{
			"lines of heredocs and other bodies which start with a backslash are joined as well, as Vim does when it reads a script",
		},
	})
}
