package main

import (
	"fmt"
	"sort"
	"strings"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// How a text is used: the mode of a case.
//
//	file  script, Vim        neo  script, Neovim        expr  expression
func runImpl(c eng.Case) *impl.Result {
	switch c.Mode {
	case "expr":
		return impl.ParseExpr(c.Text)
	case "neo":
		return impl.Parse(c.Text, true)
	}
	return impl.Parse(c.Text, false)
}

func runModel(c eng.Case) (*model.Node, *model.Error) {
	switch c.Mode {
	case "expr":
		return model.ParseExpr(c.Text)
	case "neo":
		return model.Parse(c.Text, true)
	}
	return model.Parse(c.Text, false)
}

type errRule int

const (
	errKind    errRule = iota // an error must be an error
	errMessage                // ... with the same message
	errIgnore                 // judge only if both accept
)

// conform compares the real code with the model.
func conform(mask model.Mask, rule errRule) func(eng.Case) eng.Out {
	return func(c eng.Case) eng.Out { return conformCase(c, mask, rule) }
}

func conformCase(c eng.Case, mask model.Mask, rule errRule) eng.Out {
	r := runImpl(c)
	t, e := runModel(c)
	o := eng.Out{Compared: true, Steps: 1}
	if e != nil {
		o.Outcome = model.HashError(e)
	} else {
		o.Outcome = model.Hash(t)
		o.Steps = model.Count(t)
		o.NonTrivial = true
	}
	switch r.Kind() {
	case "tree":
		if e != nil {
			if rule != errIgnore {
				o.Bad = fmt.Sprintf("accepted:\n%sexpected error %v", model.Dump(r.Tree, mask), e)
			}
		} else if rule == errIgnore && !model.Equal(r.Tree, t, model.MStruct) {
			o.Compared = false
		} else if !model.Equal(r.Tree, t, mask) {
			o.Bad = "got:\n" + model.Dump(r.Tree, mask) + "expected:\n" + model.Dump(t, mask)
		}
	case "error":
		if e == nil {
			if rule != errIgnore {
				o.Bad = fmt.Sprintf("rejected: %v\nexpected:\n%s", r.Err, model.Dump(t, mask))
			}
		} else if rule == errMessage && *e != *r.Err {
			o.Bad = fmt.Sprintf("got error %v\nexpected  %v", r.Err, e)
		}
	default:
		o.Bad = fmt.Sprintf("%s: %v %v", r.Kind(), r.Panic, r.Other)
	}
	return o
}

func words(s string) []string { return strings.Fields(s) }

// Infix operators as spelled in scripts.
var infix = func() []string {
	out := []string{"||", "&&", "+", "-", ".", "..", "*", "/", "%"}
	for _, o := range []string{"==", "!=", ">", ">=", "<", "<=", "=~", "!~", "is", "isnot"} {
		out = append(out, o, o+"?", o+"#")
	}
	return out
}()

// One-hole expression contexts.
var holes = []string{
	"(%s)", "!%s", "-%s", "+%s",
	"%s + b", "a + %s", "%s * b", "a * %s", "%s - b", "a - %s", "%s . b", "a . %s", "%s.b", "a.%s", "a..%s", "%s .. b",
	"%s == b", "a == %s", "%s is b", "a isnot# %s", "%s =~? b", "a >=# %s", "%s && b", "a && %s", "%s || b", "a || %s",
	"%s ? b : c", "a ? %s : c", "a ? b : %s", "%s?b:c", "a?%s:c",
	"%s[0]", "a[%s]", "%s[:]", "a[%s:]", "a[:%s]", "a[%s : b]", "a[b : %s]", "%s[1:2]", "%s.k",
	"%s()", "f(%s)", "f(%s, b)", "f(a, %s)", "f(a, %s,)", "%s(a)", "%s->f()", "a->f(%s)", "a->%s()", "a->f(b, %s)",
	"[%s]", "[a, %s]", "[%s, b]", "[%s,]",
	"{%s: 1}", "{'k': %s}", "{'k': 1, 'j': %s}", "{'k': %s,}", "#{k: %s}", "#{k: 1, j-1: %s}", "#{k: %s,}",
	"{-> %s}", "{x -> %s}", "{x, y -> %s}", "{x, ... -> %s}", "{x->%s}",
	"{%s}", "a{%s}", "{%s}b", "a{%s}b{c}", "a{b}{%s}", "%s{b}", "<SID>{%s}",
}

// Atoms of expressions.
var atoms = []string{
	"a", "1", "'s'", `"d"`, "[]", "{}", "x:y", "&o", "$E", "@r", "f()", "0x1F", "1.5", "0z01", "#{}", "s:v", "a:000", "&l:o", "<SID>f", "g#h", "''", `"\""`,
	"{-> 1}", "{x -> x}", "is", "v", "a.b", "a[1]", "é", "0", "1.5e3", "@\"", "a:", "&g:o", "a{b}c",
}

// nest applies every sequence of exactly n one-hole contexts to every atom.
func nest(n int, atoms, holes []string) eng.Space {
	na := len(atoms)
	nh := len(holes)
	total := na
	for i := 0; i < n; i++ {
		total *= nh
	}
	return eng.Func(total, func(i int) string {
		x := atoms[i%na]
		i /= na
		for k := 0; k < n; k++ {
			x = strings.Replace(holes[i%nh], "%s", x, 1)
			i /= nh
		}
		return x
	})
}

// asStmt embeds an expression in a script.
var places = []string{
	"echo %s", "echo a %s b", "echon %s", "echomsg %s", "echoerr %s", "execute %s", "execute %s 'x'", "let x = %s", "let x += %s", "let [a, b] = %s",
	"let x[%s] = 1", "let x{%s} = 1", "const c = %s", "call f(%s)", "call f(a, %s)", "eval %s", "throw %s",
	"if %s\nendif", "if a\nelseif %s\nendif", "while %s\nendwhile", "for i in %s\nendfor",
	"function F()\nreturn %s\nendfunction", "function F(a = %s)\nendfunction", "function F(a, b = %s, ...)\nendfunction",
	"unlet x[%s]", "lockvar x[%s]", "delfunction x{%s}", "edit `=%s`", "let x .= %s | echo 1", "echo %s \" comment",
	"silent! 1,2echo %s", "if 1 | echo %s | endif",
}

// also is the parts of other checks with at most max cases, to be judged by
// the rule of the check which asks for them.
func also(thorough bool, max int, ids ...string) []eng.Part {
	var ps []eng.Part
	for _, id := range ids {
		for _, c := range checks {
			if c.ID != id {
				continue
			}
			for _, p := range c.Parts(thorough) {
				if p.S.Len() <= max && (p.Mode == "file" || p.Mode == "neo" || p.Mode == "expr") {
					p.Name = id + ": " + p.Name
					ps = append(ps, p)
				}
			}
		}
	}
	return ps
}

// everyByte is every byte a line can hold, and a rune of two.
var everyByte = func() (out []string) {
	for b := 0; b < 256; b++ {
		if b != '\n' {
			out = append(out, string([]byte{byte(b)}))
		}
	}
	return append(out, "é")
}()

// edited is every text with one edit: at every place every piece put in, and
// every byte taken out or replaced by every piece.
func edited(texts, pieces []string) eng.Space {
	var starts []int
	n := 0
	k := 2*len(pieces) + 1
	for _, t := range texts {
		starts = append(starts, n)
		n += len(t)*k + len(pieces)
	}
	return eng.Func(n, func(i int) string {
		x := sort.Search(len(starts), func(j int) bool { return starts[j] > i }) - 1
		t := texts[x]
		i -= starts[x]
		if i >= len(t)*k {
			return t + pieces[i-len(t)*k]
		}
		at, e := i/k, i%k
		switch {
		case e == 0:
			return t[:at] + t[at+1:]
		case e <= len(pieces):
			return t[:at] + pieces[e-1] + t[at:]
		}
		return t[:at] + pieces[e-1-len(pieces)] + t[at+1:]
	})
}

// editPieces are the bytes for edits: in quick runs those that mean something
// and some that do not.
func editPieces(thorough bool) []string {
	if thorough {
		return append([]string{"\n", "\r\n", "\n\\"}, everyByte...)
	}
	out := []string{"\n", "a", "Z", "_", "0", "9", "\t", "\r", "\x00", "\x0b", "\x0c", "\x16", "\x7f", "\x80", "\xff", "é", "x", "g", "s:"}
	for b := byte(' '); b < 0x7f; b++ {
		if c := string([]byte{b}); strings.IndexByte("0123456789", b) < 0 && !(b >= 'a' && b <= 'z') && !(b >= 'A' && b <= 'Z') && b != '_' {
			out = append(out, c)
		}
	}
	return out
}
