package main

import (
	"fmt"
	"hash/fnv"
	"strings"

	"mc/eng"
	"mc/impl"
)

// C01: tree xor located error, complete, for any bytes.

const someFile = "dir/na me.vim"

func totality(c eng.Case) eng.Out {
	o := eng.Out{Steps: 1, Compared: true}
	name := ""
	var r *impl.Result
	if c.Mode == "expr" {
		r = impl.ParseExpr(c.Text)
	} else {
		name = someFile
		r = impl.ParseReader(strings.NewReader(c.Text), name, c.Mode == "neo")
	}
	h := fnv.New64a()
	switch r.Kind() {
	case "tree":
		o.NonTrivial = true
		if r.Both {
			o.Bad = "both a tree and an error"
			return o
		}
		for _, x := range impl.Audit(r.Raw, name) {
			if x.Cat == "nil" {
				o.Bad = "incomplete tree: " + x.Msg
				return o
			}
		}
		fmt.Fprintf(h, "%T", r.Raw)
		if r.Tree != nil {
			for _, n := range r.Tree.Kids("body") {
				h.Write([]byte(n.Kind))
			}
		}
	case "error":
		if r.Both {
			o.Bad = "both a tree and an error"
			return o
		}
		if r.File != name {
			o.Bad = fmt.Sprintf("error with file name %q instead of %q", r.File, name)
			return o
		}
		if bad := outside(c.Text, r.Err.Pos.Line, r.Err.Pos.Col, r.Err.Pos.Off); bad != "" {
			o.Bad = fmt.Sprintf("error %v: %s", r.Err, bad)
			return o
		}
		if r.Err.Msg == "" {
			o.Bad = "error without a message"
			return o
		}
		h.Write([]byte(r.Err.Msg))
	default:
		o.Bad = fmt.Sprintf("%s: %v %v", r.Kind(), r.Panic, r.Other)
	}
	o.Outcome = h.Sum64()
	return o
}

// outside reports a position which is not in the text nor just behind it.
func outside(text string, line, col, off int) string {
	lines := strings.Split(text, "\n")
	n := len(lines)
	if lines[n-1] == "" {
		n--
	}
	switch {
	case line < 1 || line > n+1:
		return fmt.Sprintf("line %d of %d", line, n)
	case line <= n && (col < 1 || col > len(lines[line-1])+1):
		return fmt.Sprintf("column %d of %d", col, len(lines[line-1]))
	case off < 0 || off > len(text)+1:
		return fmt.Sprintf("offset %d of %d", off, len(text))
	}
	return ""
}

// damaged is every way to cut a text short, to drop a byte and to put another
// byte in place of one or between two.
func damaged(texts []string, bytes string) eng.Space {
	var out eng.Lits
	for _, t := range texts {
		for i := 0; i <= len(t); i++ {
			out = append(out, t[:i], t[i:])
			if i < len(t) {
				out = append(out, t[:i]+t[i+1:])
			}
			for _, b := range []byte(bytes) {
				out = append(out, t[:i]+string([]byte{b})+t[i:])
				if i < len(t) {
					out = append(out, t[:i]+string([]byte{b})+t[i+1:])
				}
			}
		}
	}
	return out
}

func allBytes() []string {
	var out []string
	for b := 0; b < 256; b++ {
		out = append(out, string([]byte{byte(b)}))
	}
	return out
}

// Words of scripts, for raw sequences.
var soup = append(words(`if a endif while for x in endfor try catch /p/ finally endtry function F() endfunction let = echo call f() return
	( ) [ ] { } , : 'a' "b" 1 + . -> ! | \ @ =<< E < é `), " ", "\n", "\t", "\n\\", "\xff", "\r\n", "silent ", "append\n", "\x16")

func ladder(f func(n int) string, ns ...int) eng.Space {
	var l eng.Lits
	for _, n := range ns {
		l = append(l, f(n))
	}
	return l
}

func nested(a, b string) func(int) string {
	return func(n int) string { return strings.Repeat(a, n) + "x" + strings.Repeat(b, n) }
}

func repeated(a, x, sep, b string) func(int) string {
	return func(n int) string { return a + eng.Repeat(x, sep, n) + b }
}

func deep() eng.Space {
	sizes := []int{1, 2, 3, 5, 10, 30, 100, 300, 1000, 2000}
	var u []eng.Space
	for _, p := range [][2]string{{"(", ")"}, {"[", "]"}, {"f(", ")"}, {"{'a': ", "}"}, {"!", ""}, {"-", ""}, {"a ? ", " : b"}, {"a ? b : ", ""}, {"x[", "]"}, {"x[", ":]"}, {"{-> ", "}"}, {"#{a: ", "}"}, {"", "()"}, {"", "[0]"}, {"", ".k"}, {"", "->f()"}, {"(", ""}, {"[", ""}, {"", ")"}, {"", " + 1"}, {"", " . 'a'"}, {"a || ", ""}} {
		u = append(u, ladder(func(n int) string { return "echo " + nested(p[0], p[1])(n) }, sizes...))
	}
	for _, p := range [][2]string{{"if a\n", "\nendif"}, {"while a\n", "\nendwhile"}, {"for a in b\n", "\nendfor"}, {"try\n", "\nendtry"}, {"function F()\n", "\nendfunction"}, {"if a\n", ""}, {"", "\nendif"}, {"if a\nelse\n", "\nendif"}} {
		u = append(u, ladder(nested(p[0], p[1]), sizes...))
	}
	for _, p := range [][2]string{{"silent ", ""}, {"1,", ""}, {":", ""}, {"", "|x"}, {"\n", ""}, {"++bin ", ""}, {"x{", "}"}} {
		ns := sizes
		if p[0] == "x{" {
			ns = []int{1, 2, 3, 4, 8, 12}
		}
		u = append(u, ladder(nested(p[0], p[1]), ns...))
	}
	return eng.Union(u...)
}

func init() {
	add(&eng.Check{
		ID:   "C01",
		Rule: "every text of the spaces is parsed as Vim script, Neovim script or expression; non-trivial: a tree results. States are classes of outcomes (root kinds of the statements, or the message)",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			modes := []string{"file", "expr", "neo"}
			all := func(name string, s eng.Space) {
				for _, m := range modes {
					ps = append(ps, eng.Part{Name: name, Mode: m, S: s})
				}
			}
			all("corpus", eng.Lits(corpus))
			all("nesting", deep())
			all("two bytes", eng.Seq(allBytes(), "", 0, 2))
			all("damaged corpus", damaged(corpus, "\n\\|\"'()[]{} \t\r!=,:;.x0\xc3\x00"))
			ascii := allBytes()[32:127]
			if thorough {
				ascii = append(allBytes()[:127], "\x80", "\xc3", "\xff", "é")
			}
			all("three bytes", eng.Seq(ascii, "", 3, 3))
			all("words", eng.Seq(soup, "", 1, 3))
			for _, n := range append(append([]string{}, "echo ", "let ", "let x ", "let x = ", "call ", "for ", "for x in", "function ", "function F(", "catch ", "try\ncatch ", "execute ", "unlet ", "lockvar ", "set ", "edit ", "write ", "s", "syntax ", "wincmd ", "vimgrep ", "if ", "map ", "'", "1", "silent", "++", "e ++", "e +"), "") {
				ps = append(ps, eng.Part{Name: "words behind " + n, Mode: "file", S: eng.Wrap(n+"%s", eng.Seq(soup, "", 1, 3))})
			}
			if thorough {
				ps = append(ps, eng.Part{Name: "words", Mode: "file", S: eng.Seq(soup, "", 4, 4)})
				ps = append(ps, eng.Part{Name: "words", Mode: "expr", S: eng.Seq(soup, "", 4, 4)})
				ps = append(ps, eng.Part{Name: "words behind if", Mode: "file", S: eng.Wrap("if a\n%s\nendif", eng.Seq(soup, "", 1, 4))})
			}
			all("corpus with one edit", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval: totality,
		Assumptions: []string{
			"an input which takes longer than 30 s or 6 GB is taken for one that never ends",
			"inputs outside the enumerated spaces are not examined",
		},
	})
}
