package main

import (
	"strings"

	"mc/eng"
)

// C04: nesting of blocks.

var blockOps = []string{"if a", "elseif b", "else", "endif", "while c", "endwhile", "for x in y", "endfor", "try", "catch", "catch /p/", "finally", "endtry", "function F()", "endfunction", "break", "continue", "return", "return 1", "echo 1", "\" c"}

var shortOps = []string{"if a", "el", "elsei b", "en", "wh c", "endw", "for x in y", "endfo", "try", "cat", "fina", "endt", "fu F()", "endf", "brea", "con", "retu", "ec"}

// Frames of the stack of open blocks and the lines that lead there.
var frames = []struct{ enter, leave string }{
	{"if a\n", "endif\n"},
	{"if a\necho 'then'\nelseif b\n", "endif\n"},
	{"if a\nelseif b\nelse\n", "endif\n"},
	{"while c\n", "endwhile\n"},
	{"for x in y\n", "endfor\n"},
	{"try\n", "endtry\n"},
	{"try\necho 'try'\ncatch /p/\n", "endtry\n"},
	{"try\ncatch\ncatch /q/\n", "endtry\n"},
	{"try\ncatch /p/\nfinally\n", "endtry\n"},
	{"function F()\n", "endfunction\n"},
}

// inAll is every configuration of exactly depth open blocks, with every
// sequence of n commands arriving there, and the blocks closed again.
func inAll(depth, n int, ops []string, sep string) eng.Space {
	seqs := eng.Seq(ops, sep, n, n)
	confs := 1
	for i := 0; i < depth; i++ {
		confs *= len(frames)
	}
	return eng.Func(confs*seqs.Len(), func(i int) string {
		s := seqs.At(i % seqs.Len())
		i /= seqs.Len()
		pre, post := "", ""
		for k := 0; k < depth; k++ {
			f := frames[i%len(frames)]
			i /= len(frames)
			pre += f.enter
			post = f.leave + post
		}
		return pre + s + "\n" + post + "echo 'end'"
	})
}

func blockLadders(thorough bool) eng.Space {
	ns := counts(0, 60, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300)
	if thorough {
		ns = append(ns, 400, 511, 512, 513, 700, 1000)
	}
	var u []eng.Space
	for _, f := range frames {
		enter, leave := f.enter, f.leave
		u = append(u, ladder(nested(enter, "\n"+leave), ns...))
		u = append(u, ladder(func(n int) string { return strings.Repeat(enter, n) + "echo 1\n" + strings.Repeat(leave, n+1) }, ns...))
		u = append(u, ladder(func(n int) string { return strings.Repeat(enter, n+1) + "echo 1\n" + strings.Repeat(leave, n) }, ns...))
		u = append(u, ladder(func(n int) string { return strings.Repeat(enter+leave, n) }, ns...))
		u = append(u, ladder(func(n int) string { return enter + numbered("echo #\n", "", n) + leave + "echo 'x'" }, ns...))
		u = append(u, ladder(func(n int) string { return numbered("echo #\n", "", n) + enter + leave + numbered("echo #\n", "", n) }, ns...))
	}
	num := func(pre, f, post string) {
		u = append(u, ladder(func(n int) string { return pre + numbered(f, "", n) + post }, ns...))
	}
	// jumps out of n blocks, or out of nothing
	js := counts(0, 33, 64, 100, 129)
	if thorough {
		js = ns
	}
	for _, j := range []string{"break", "continue", "return", "endfunction", "endwhile", "endfor", "elseif b", "catch", "finally", "endif", "endtry"} {
		for _, o := range append(frames[:len(frames):len(frames)], struct{ enter, leave string }{}) {
			for _, f := range frames {
				pre, post, enter, leave, j := o.enter, o.leave, f.enter, f.leave, j
				u = append(u, ladder(func(n int) string { return pre + strings.Repeat(enter, n) + j + "\n" + strings.Repeat(leave, n) + post }, js...))
				u = append(u, ladder(func(n int) string {
					return strings.Repeat(enter, n/2) + pre + strings.Repeat(enter, n-n/2) + j + "\n" + strings.Repeat(leave, n-n/2) + post + strings.Repeat(leave, n/2)
				}, js...))
			}
		}
	}
	num("if a\n", "elseif b#\necho #\n", "else\necho 'e'\nendif")
	num("if a\n", "elseif b#\n", "endif")
	num("try\n", "catch /p#/\necho #\n", "finally\necho 'f'\nendtry")
	num("try\n", "catch\n", "endtry")
	num("if a | ", "elseif b# | echo # | ", "endif")
	num("", "function F#()\nreturn #\nendfunction\n", "")
	num("while 1\n", "if #\nbreak\nendif\n", "endwhile")
	return eng.Union(u...)
}

func init() {
	add(&eng.Check{
		ID:   "C04",
		Rule: "every configuration of the stack of open blocks up to a depth, with every command sequence of a length arriving in it, and all command sequences up to a length; compared with the reference block automaton. Non-trivial: the script is accepted",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			p("depth, width and branch ladders", "file", blockLadders(thorough))
			p("command sequences", "file", eng.Seq(blockOps, "\n", 0, 4))
			p("command sequences with bars", "file", eng.Seq(blockOps[:20], " | ", 1, 4))
			p("abbreviated command sequences", "neo", eng.Seq(shortOps, "\n", 1, 4))
			p("1 open block", "file", inAll(1, 3, blockOps, "\n"))
			p("2 open blocks", "file", inAll(2, 2, blockOps, "\n"))
			p("3 open blocks", "file", inAll(3, 2, blockOps, "\n"))
			p("4 open blocks", "file", inAll(4, 1, blockOps, "\n"))
			core := []string{"if a", "elseif b", "else", "endif", "while c", "endwhile", "try", "catch", "finally", "endtry", "function F()", "endfunction", "echo 1", "break"}
			p("long command sequences", "file", eng.Seq(core[:13], "\n", 5, 5))
			p("if and while", "file", eng.Seq([]string{"if a", "elseif b", "else", "endif", "while c", "endwhile", "echo 1"}, "\n", 5, 7))
			p("try", "file", eng.Seq([]string{"try", "catch", "catch /p/", "finally", "endtry", "echo 1"}, "\n", 5, 8))
			p("functions and loops", "file", eng.Seq([]string{"function F()", "endfunction", "return", "for x in y", "endfor", "break"}, "\n", 5, 7))
			p("3 open blocks, bars", "file", eng.Map(inAll(3, 1, blockOps[:20], "\n"), func(s string) string { return strings.Replace(s, "\n", "|", -1) }))
			p("decorated", "file", eng.Cross(eng.Lits([]string{"  %s", "silent %s", ":%s", "%s \" c", "%s |", "%s!", "1%s"}), inAll(1, 1, blockOps, "\n"), func(t, s string) string {
				l := strings.Split(s, "\n")
				for i := range l {
					l[i] = strings.Replace(t, "%s", l[i], 1)
				}
				return strings.Join(l, "\n")
			}))
			if thorough {
				p("5 open blocks", "file", inAll(5, 1, blockOps, "\n"))
				p("3 open blocks, 3 commands", "file", inAll(3, 3, blockOps, "\n"))
				p("2 open blocks, 4 commands", "file", inAll(2, 4, core, "\n"))
				p("longer command sequences", "file", eng.Seq(blockOps, "\n", 5, 5))
				p("very long command sequences", "file", eng.Seq(core, "\n", 6, 6))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        structure(),
		Assumptions: []string{"conditions and arguments are fixed; other checks vary them"},
	})
}
