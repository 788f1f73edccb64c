package main

import (
	"fmt"
	"strings"

	"mc/eng"
	"mc/model"
)

// Composition: a text with a hole, and what is put into it.  The tree of the
// whole must be the tree of the text around, with a placeholder, in which the
// placeholder's node is replaced with the nodes of the part parsed by itself,
// all positions moved.  The law is judged on the real parser alone; the model
// only decides for which pairs the law can be expected, by satisfying it.

const (
	sepr     = "\x1e"
	phStmt   = "echo QQQ"
	phExpr   = "QQQ"
	holeMark = "%s"
)

type parsed struct {
	t *model.Node
	e *model.Error
}

type parseFn func(mode, text string) (parsed, string)

func implParse(mode, text string) (parsed, string) {
	r := runImpl(eng.Case{Mode: mode, Text: text})
	switch r.Kind() {
	case "tree":
		return parsed{t: r.Tree}, ""
	case "error":
		return parsed{e: r.Err}, ""
	}
	return parsed{}, fmt.Sprintf("%s: %v %v", r.Kind(), r.Panic, r.Other)
}

func modelParse(mode, text string) (parsed, string) {
	t, e := runModel(eng.Case{Mode: mode, Text: text})
	return parsed{t, e}, ""
}

// split takes a case apart: the text with the hole, and the part.
func splitHole(c eng.Case) (pre, post, part string) {
	i := strings.LastIndex(c.Text, sepr)
	t, b := c.Text[:i], c.Text[i+1:]
	k := strings.Index(t, holeMark)
	return t[:k], t[k+2:], b
}

func lineOf(s string) int { return strings.Count(s, "\n") }

// moved copies a tree with f applied to all positions.
func moved(n *model.Node, f func(model.Pos) model.Pos) *model.Node {
	if n == nil {
		return nil
	}
	m := *n
	if n.Kind != "Entry" {
		m.Pos = f(n.Pos)
	}
	if n.EA != nil {
		e := *n.EA
		for _, p := range []**model.Pos{&e.Line, &e.Cmd, &e.Arg} {
			if *p != nil {
				q := f(**p)
				*p = &q
			}
		}
		m.EA = &e
	}
	m.C = make([]model.Child, len(n.C))
	for i, c := range n.C {
		m.C[i].K = c.K
		for _, x := range c.N {
			m.C[i].N = append(m.C[i].N, moved(x, f))
		}
	}
	return &m
}

// spliced replaces the placeholder; it reports how many it found.
func spliced(n *model.Node, is func(*model.Node) bool, by []*model.Node) int {
	found := 0
	for i := range n.C {
		c := &n.C[i]
		var out []*model.Node
		for _, x := range c.N {
			if is(x) {
				out = append(out, by...)
				found++
				continue
			}
			found += spliced(x, is, by)
			out = append(out, x)
		}
		c.N = out
	}
	return found
}

func isPhStmt(n *model.Node) bool {
	if n.Kind != "Echo" {
		return false
	}
	x := n.Kid("exprs")
	return x != nil && x.Kind == "Ident" && x.Get("name") == "QQQ"
}

func isPhExpr(n *model.Node) bool { return n.Kind == "Ident" && n.Get("name") == "QQQ" }

// expected composes the parts.
func expected(parse parseFn, c eng.Case) (want, got parsed, ok bool, bad string) {
	pre, post, part := splitHole(c)
	mode, ph, pmode := c.Mode, phStmt, c.Mode
	is := isPhStmt
	if c.Mode == "place" {
		mode, ph, pmode, is = "file", phExpr, "expr", isPhExpr
	}
	if c.Mode == "inner" {
		mode, ph, pmode, is = "expr", phExpr, "expr", isPhExpr
	}
	got, bad = parse(mode, pre+part+post)
	if bad != "" {
		return
	}
	around, bad := parse(mode, pre+ph+post)
	if bad != "" {
		return parsed{}, got, false, bad
	}
	in, bad := parse(pmode, part)
	if bad != "" {
		return parsed{}, got, false, bad
	}
	line0, off0 := lineOf(pre), len(pre)
	col0 := len(pre) - strings.LastIndex(pre, "\n") - 1
	inside := func(p model.Pos) model.Pos {
		if p.Line == 1 {
			p.Col += col0
		}
		p.Line += line0
		p.Off += off0
		return p
	}
	endCol := col0 + len(part)
	if i := strings.LastIndex(part, "\n"); i >= 0 {
		endCol = len(part) - i - 1
	}
	behind := func(p model.Pos) model.Pos {
		if p.Off < off0+len(ph) {
			return p
		}
		if p.Line == line0+1 {
			p.Col += endCol - col0 - len(ph)
		}
		p.Line += lineOf(part)
		p.Off += len(part) - len(ph)
		return p
	}
	moveErr := func(e *model.Error, f func(model.Pos) model.Pos) *model.Error {
		return &model.Error{Pos: f(e.Pos), Msg: e.Msg}
	}
	switch {
	case around.e != nil && around.e.Pos.Off < off0:
		want.e = around.e
	case in.e != nil:
		want.e = moveErr(in.e, inside)
	case around.e != nil:
		want.e = moveErr(around.e, behind)
	default:
		by := []*model.Node{moved(in.t, inside)}
		if is := c.Mode == "file" || c.Mode == "neo"; is {
			by = by[0].Kids("body")
		}
		root := &model.Node{Kind: "root", C: []model.Child{{K: "root", N: []*model.Node{moved(around.t, behind)}}}}
		if spliced(root, is, by) != 1 || len(root.C[0].N) != 1 {
			return parsed{}, got, false, ""
		}
		want.t = root.C[0].N[0]
	}
	return want, got, true, ""
}

func same(a, b parsed) bool {
	if a.e != nil || b.e != nil {
		return a.e != nil && b.e != nil && *a.e == *b.e
	}
	return model.Equal(a.t, b.t, model.MAll)
}

func show(p parsed) string {
	if p.e != nil {
		return "error " + p.e.Error() + "\n"
	}
	return model.Dump(p.t, model.MAll)
}

// composed judges the law.
func composed(c eng.Case) eng.Out {
	o := eng.Out{Steps: 1}
	want, got, ok, _ := expected(modelParse, c)
	if !ok || !same(want, got) {
		return o // no law here
	}
	o.Compared = true
	if got.t != nil {
		o.NonTrivial = true
		o.Outcome = model.Hash(got.t)
		o.Steps = model.Count(got.t)
	} else {
		o.Outcome = model.HashError(got.e)
	}
	want, got, ok, bad := expected(implParse, c)
	switch {
	case bad != "":
		o.Bad = bad
	case !ok:
		o.Bad = "the statement or expression in the place is lost"
	case !same(want, got):
		o.Bad = "got:\n" + show(got) + "composed of the parts:\n" + show(want)
	}
	return o
}

// holed combines texts with a hole and parts.
func holed(texts, parts eng.Space) eng.Space {
	return eng.Cross(texts, parts, func(t, b string) string { return t + sepr + b })
}
