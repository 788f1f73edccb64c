package main

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C11: the compiler.

var indents = []string{"  ", "", "\t", "    ", "%d é", ")\n"}

// shortWriter takes n bytes, then fails, with or without an error.
type shortWriter struct {
	n      int
	silent bool
}

var errFull = errors.New("full")

func (w *shortWriter) Write(p []byte) (int, error) {
	if len(p) <= w.n {
		w.n -= len(p)
		return len(p), nil
	}
	n := w.n
	w.n = 0
	if w.silent {
		return n, nil
	}
	return n, errFull
}

// subNodes lists all nodes of a tree, found by reflection.
func subNodes(n ast.Node) []ast.Node {
	var out []ast.Node
	impl.Each(n, func(x ast.Node) { out = append(out, x) })
	return out
}

func compiled(c eng.Case) (o eng.Out) {
	o.Steps = 1
	defer func() {
		if p := recover(); p != nil {
			o.Bad = fmt.Sprintf("panic: %v", p)
		}
	}()
	deep := c.Mode == "deep"
	m := c.Mode
	if deep {
		m = "file"
	}
	r := runImpl(eng.Case{Mode: m, Text: c.Text})
	if r.Kind() != "tree" {
		return o
	}
	o.Compared, o.NonTrivial = true, true
	o.Outcome = model.Hash(r.Tree)
	o.Steps = model.Count(r.Tree)
	var b bytes.Buffer
	if err := compiler.Compile(&b, r.Raw); err != nil {
		o.Bad = err.Error()
		return o
	}
	if got, want := b.String(), model.Sexpr(r.Tree, "  "); got != want {
		o.Bad = "got:\n" + got + "expected:\n" + want
		return o
	}
	if !deep {
		return o
	}
	// every indent, every statement and expression as root, with one compiler
	for _, ind := range indents {
		cc := &compiler.Compiler{Config: compiler.Config{Indent: ind}}
		for _, n := range subNodes(r.Raw) {
			t := impl.Conv(n)
			_, isExpr := n.(ast.Expr)
			if t.Kind != "File" && !model.IsStatement(t) && !isExpr {
				continue
			}
			want := model.Sexpr(t, ind)
			for i := 0; i < 2; i++ {
				before := *cc
				b.Reset()
				if err := cc.Compile(&b, n); err != nil {
					o.Bad = fmt.Sprintf("%s: %v", t.Kind, err)
					return o
				}
				o.Steps++
				if got := b.String(); got != want {
					o.Bad = fmt.Sprintf("root %s, indent %q, time %d: got:\n%sexpected:\n%s", t.Kind, ind, i, got, want)
					return o
				}
				if cc.Config != before.Config {
					o.Bad = "the configuration of the compiler has changed"
					return o
				}
				if i == 0 && ind == "  " && t.Kind != "File" {
					for k := 0; k < len(want); k += 1 + len(want)/4 {
						if err := cc.Compile(&shortWriter{n: k}, n); err == nil {
							o.Bad = fmt.Sprintf("no error although writing fails after %d bytes", k)
							return o
						}
					}
				}
			}
		}
	}
	want := model.Sexpr(r.Tree, "  ")
	cc := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	for k := 0; k < len(want); k++ {
		for _, silent := range []bool{false, true} {
			o.Steps++
			err := cc.Compile(&shortWriter{k, silent}, r.Raw)
			if err == nil || !silent && !errors.Is(err, errFull) {
				o.Bad = fmt.Sprintf("error %v although writing fails after %d bytes", err, k)
				return o
			}
		}
	}
	b.Reset()
	if err := cc.Compile(&b, r.Raw); err != nil || b.String() != want {
		o.Bad = fmt.Sprintf("after failed writes: error %v, got:\n%sexpected:\n%s", err, b.String(), want)
		return o
	}
	// the tree is what it was
	if again := runImpl(eng.Case{Mode: m, Text: c.Text}); !reflect.DeepEqual(again.Raw, r.Raw) {
		o.Bad = "compiling changes the tree:\n" + model.Dump(impl.Conv(r.Raw), model.MAll) + "it was:\n" + model.Dump(again.Tree, model.MAll)
	}
	return o
}

func init() {
	add(&eng.Check{
		ID:   "C11",
		Rule: "every tree the parser returns for the texts of the spaces is compiled and compared with the reference rendering; in mode deep also every node as root, every indent, every failing writer, twice, and the tree afterwards. Non-trivial: there is a tree",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			ok := eng.Lits(scripts)
			p("corpus", "deep", ok)
			p("corpus behind and within everything", "deep", fills(leads[33:], eng.Lits(scripts[:120])))
			p("corpus behind and within everything", "file", fills(leads, ok))
			p("contexts 1 in commands", "deep", eng.Wraps(places, eng.Union(eng.Lits(atoms), nest(1, atoms[:4], holes))))
			p("contexts 2 in commands", "file", eng.Wraps(places, nest(2, atoms[:2], holes)))
			p("contexts 2", "expr", nest(2, atoms, holes))
			p("contexts 3", "expr", nest(3, []string{"a", "1.5"}, holes))
			p("operators", "expr", matrix(infix, operands, operands[:6], operands[:3], spaced))
			p("blocks", "file", eng.Union(inAll(1, 2, blockOps, "\n"), inAll(2, 2, []string{"echo 1", "\" c", "if x\nendif", "function G(a, b = 2, ...)\nreturn\nendfunction", "try\nbreak\ncatch /é/\nendtry", "let x =<< E\n\ta\nE", "lua << E\nx\nE", "for [a, b; c] in d\nendfor", "return", "while 1\nwhile 2\nendwhile\nendwhile", "else", "elseif c", "catch", "catch /%s\\/\"/", "finally"}, "\n"), inAll(3, 1, blockOps, "\n"), inAll(4, 1, []string{"echo 1", "\" c", "else", "finally", "catch"}, "\n")))
			p("blocks", "deep", inAll(2, 1, []string{"echo 1", "\" c", "else", "function G(a, b = 2, ...)\nreturn\nendfunction"}, "\n"))
			p("headers", "file", eng.Map(eng.Seq(paramWords, "", 0, 4), func(s string) string { return "function! s:f(" + s + ") abort\necho 1\nendfunction" }))
			txt := eng.Seq([]string{"a", "\"", "\\", "%s", "%", "\t", "é", "\xff", "'", "(", ")", ";", " ", "\r"}, "", 0, 4)
			p("texts", "file", fills([]string{"normal %s", "\"%s", "echo '%s'", "echo \"%s\"", "let x =<< E\n%s\nE", "Foo %s x", "try\ncatch /%s/\nendtry", "!%s"}, txt))
			p("text in bodies", "file", fills([]string{"if a\nlua << E\n%s\nE\nendif", "function F()\nappend\n%s\n.\nendfunction", "echohl %s", "while 1\nlet x =<< trim E\n  %s\n  E\nendwhile"}, txt))
			p("statements", "file", eng.Union(eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "let " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "if 1\nfor " + s + "\necho 2\nendfor\nendif" }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "echo 0\nexecute " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "unlet! " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "unlockvar " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "const " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "lockvar 12 " + s })))
			p("lengths", "file", eng.Union(eng.Wrap("let x = %s", lengths(thorough)), blockLadders(thorough)))
			ends := eng.Union(eng.Lits(everyByte), eng.Seq([]string{" ", "\t", "\r", ")", "(", "a", ";", "\\n", "\x0b", "\u00a0", "é"}, "", 2, 3))
			p("ends of blocks", "file", fills([]string{"if a\n\"b%s\nendif", "if a\n\"b%s\nelse\n\"c%s\nendif", "if a\nset x%s\nelseif b\nmap a%s\nendif\necho 1", "while a\n\"b%s\nendwhile\n\" c", "function F()\n\"b%s\nendfunction", "try\n\"b%s\ncatch\n\"c%s\nfinally\n\"d%s\nendtry", "for x in y\nif a\n\"b%s\nendif\nendfor", "\"b%s", "set x%s", "\"%s\n\n\"%s"}, ends))
			p("command sequences", "file", eng.Seq([]string{"if a", "else", "endif", "try", "catch", "endtry", "function F()", "endfunction", "echo 1", "\" c"}, "\n", 1, 5))
			if thorough {
				p("contexts 2 in commands", "file", eng.Wraps(places, nest(2, atoms[2:], holes)))
				p("contexts 2 in commands", "deep", eng.Wraps(places, nest(2, atoms[:1], holes)))
				p("contexts 3", "expr", nest(3, atoms[2:8], holes))
				p("pairs", "file", eng.Cross(ok, ok, func(a, b string) string { return a + "\n" + b }))
			}
			p("corpus with one edit", "file", edited(corpus, editPieces(thorough)))
			return ps
		},
		Eval:        compiled,
		Assumptions: []string{"the conversion of trees in mc/impl is faithful; the other checks compare it with the reference parser"},
	})
}
