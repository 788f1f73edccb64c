package model

import (
	"fmt"
	"strings"
)

// The S-expression form of a tree, as documented by vim-vimlparser's Compiler.

func esc(s, chars string) string {
	names := map[byte]string{'\n': `\n`, '\t': `\t`, '\r': `\r`}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch c := s[i]; {
		case strings.IndexByte(chars, c) < 0:
			b.WriteByte(c)
		case names[c] != "":
			b.WriteString(names[c])
		default:
			b.WriteByte('\\')
			b.WriteByte(c)
		}
	}
	return b.String()
}

func form(parts ...string) string { return "(" + strings.Join(parts, " ") + ")" }

func sexprs(l []*Node) []string {
	var out []string
	for _, x := range l {
		out = append(out, SexprExpr(x))
	}
	return out
}

// SexprExpr renders an expression.
func SexprExpr(n *Node) string {
	if n == nil {
		return "nil"
	}
	sub := func(k string) string { return SexprExpr(n.Kid(k)) }
	all := func(head, k string) string { return form(append([]string{head}, sexprs(n.Kids(k))...)...) }
	switch n.Kind {
	case "Ident":
		return n.Get("name")
	case "Lit", "CurlyNameLit":
		return n.Get("value")
	case "Paren":
		return sub("x")
	case "CurlyName":
		return strings.Join(sexprs(n.Kids("parts")), "")
	case "CurlyNameExpr":
		return "{" + sub("value") + "}"
	case "Ternary":
		return form("?:", sub("cond"), sub("left"), sub("right"))
	case "Binary":
		op := n.Get("op")
		if op == "." || op == ".." {
			op = "concat"
		}
		return form(op, sub("left"), sub("right"))
	case "Unary":
		return form(n.Get("op"), sub("x"))
	case "Subscript":
		return form("subscript", sub("left"), sub("right"))
	case "Slice":
		return form("slice", sub("x"), sub("low"), sub("high"))
	case "Dot":
		return form("dot", sub("left"), sub("right"))
	case "Method":
		return form("method", sub("left"), all(sub("method"), "args"))
	case "Call":
		return all(sub("fun"), "args")
	case "List":
		return all("list", "values")
	case "Dict":
		out := []string{"dict"}
		for _, e := range n.Kids("entries") {
			out = append(out, form(SexprExpr(e.Kid("key")), SexprExpr(e.Kid("value"))))
		}
		return form(out...)
	case "Lambda":
		return form("lambda", form(sexprs(n.Kids("params"))...), sub("expr"))
	case "Heredoc":
		quote := func(k string) string {
			out := []string{"list"}
			for _, s := range sexprs(n.Kids(k)) {
				out = append(out, `"`+esc(s, "\n\t\r")+`"`)
			}
			return form(out...)
		}
		return form("heredoc", quote("flags"), `"`+n.Get("marker")+`"`, quote("body"))
	}
	return "?" + n.Kind
}

// sexprLines renders a statement as its lines, without indent of its own.
func sexprLines(n *Node, indent string) []string {
	sub := func(k string) string { return SexprExpr(n.Kid(k)) }
	name := ""
	if n.EA != nil {
		name = n.EA.Name
	}
	list := func(k string) string { return strings.Join(sexprs(n.Kids(k)), " ") }
	lhs := func() string {
		if l := n.Kid("left"); l != nil {
			return SexprExpr(l)
		}
		s := list("list")
		if n.Kid("rest") != nil {
			s += " . " + sub("rest")
		}
		return "(" + s + ")"
	}
	var out []string
	body := func(b *Node) {
		for _, s := range b.Kids("body") {
			for _, l := range sexprLines(s, indent) {
				out = append(out, indent+l)
			}
		}
	}
	closed := func() []string {
		out[len(out)-1] += ")"
		return out
	}
	switch n.Kind {
	case "Comment":
		return []string{";" + n.Get("text")}
	case "Excmd":
		return []string{`(excmd "` + esc(n.Get("text"), `\"`) + `")`}
	case "Function":
		head := []string{sub("name")}
		ps, ds := n.Kids("params"), n.Kids("defaults")
		rest := len(ps) > 0 && ps[len(ps)-1].Get("name") == "..."
		if rest {
			ps = ps[:len(ps)-1]
		}
		for i, p := range ps {
			s := SexprExpr(p)
			if k := i - (len(ps) - len(ds)); k >= 0 {
				s = form(s, SexprExpr(ds[k]))
			}
			head = append(head, s)
		}
		if rest {
			head = append(head, ".", "...")
		}
		out = []string{"(function " + form(head...)}
		body(n)
		return closed()
	case "DelFunction":
		return []string{form(name, sub("name"))}
	case "Return":
		if n.Kid("result") == nil {
			return []string{form(name)}
		}
		return []string{form(name, sub("result"))}
	case "ExCall":
		return []string{form(name, sub("call"))}
	case "Let":
		return []string{form(name, n.Get("op"), lhs(), sub("right"))}
	case "UnLet":
		return []string{form(name, list("list"))}
	case "LockVar", "UnLockVar":
		if d := n.Get("depth"); d != "0" {
			return []string{form(name, d, list("list"))}
		}
		return []string{form(name, list("list"))}
	case "If":
		out = []string{"(" + name + " " + sub("cond")}
		body(n)
		for _, e := range n.Kids("ElseIf") {
			out = append(out, " "+e.EA.Name+" "+SexprExpr(e.Kid("cond")))
			body(e)
		}
		if e := n.Kid("Else"); e != nil {
			out = append(out, " "+e.EA.Name)
			body(e)
		}
		return closed()
	case "While":
		out = []string{"(" + name + " " + sub("cond")}
		body(n)
		return closed()
	case "For":
		out = []string{"(" + name + " " + lhs() + " " + sub("right")}
		body(n)
		return closed()
	case "Continue", "Break":
		return []string{form(name)}
	case "Try":
		out = []string{"(" + name}
		body(n)
		for _, c := range n.Kids("Catch") {
			s := " " + c.EA.Name
			if p := c.Get("pattern"); p != "" {
				s += " /" + p + "/"
			}
			out = append(out, s)
			body(c)
		}
		if f := n.Kid("Finally"); f != nil {
			out = append(out, " "+f.EA.Name)
			body(f)
		}
		return closed()
	case "Throw", "Eval":
		return []string{form(name, sub("expr"))}
	case "Echo", "Execute":
		return []string{form(name, list("exprs"))}
	case "Echohl":
		return []string{form(name, `"`+esc(n.Get("name"), `\"`)+`"`)}
	}
	return nil
}

// Statements with a form of their own.
var sexprKinds = map[string]bool{}

func init() {
	for _, k := range strings.Fields("Comment Excmd Function DelFunction Return ExCall Let UnLet LockVar UnLockVar If While For Continue Break Try Throw Eval Echo Execute Echohl") {
		sexprKinds[k] = true
	}
}

// IsStatement reports a statement with a form of its own.
func IsStatement(n *Node) bool { return sexprKinds[n.Kind] }

// Sexpr renders a tree: a file, a statement or an expression.
func Sexpr(n *Node, indent string) string {
	switch {
	case n.Kind == "File":
		var b strings.Builder
		for _, s := range n.Kids("body") {
			b.WriteString(Sexpr(s, indent))
		}
		return b.String()
	case sexprKinds[n.Kind]:
		return fmt.Sprintln(strings.Join(sexprLines(n, indent), "\n"))
	}
	return SexprExpr(n)
}
