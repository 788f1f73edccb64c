// Package impl runs the real go-vimlparser and converts what it returns to
// the model's neutral tree, using exported API only.
package impl

import (
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strings"
	"unicode/utf8"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"

	"mc/model"
)

// Result is the outcome of one call.
type Result struct {
	Tree  *model.Node
	Raw   ast.Node
	Err   *model.Error // located parse error
	Other error        // any other error
	Panic interface{}
	File  string // file name carried by the error
	Text  string // Error() of the located error
	Msg   string // its message as it is
	Both  bool   // a tree came with an error
}

// Kind classifies the outcome.
func (r *Result) Kind() string {
	switch {
	case r.Panic != nil:
		return "panic"
	case r.Err != nil:
		return "error"
	case r.Other != nil:
		return "plain-error"
	case r.Tree == nil:
		return "nothing"
	}
	return "tree"
}

var tokType = regexp.MustCompile(`^(unexpected token: (?s:.*)), type: \d+$`)

// NormMsg removes internal token numbers from a message.
func NormMsg(m string) string { return tokType.ReplaceAllString(m, "$1") }

func finish(r *Result, n ast.Node, err error) {
	if err != nil {
		r.Both = !isNil(n)
		if e, ok := err.(*vimlparser.ErrVimlParser); ok {
			r.Err = &model.Error{Pos: model.Pos{Line: e.Line, Col: e.Column, Off: e.Offset}, Msg: NormMsg(e.Msg)}
			r.File = e.Filename
			r.Text, r.Msg = e.Error(), e.Msg
		} else {
			r.Other = err
		}
		return
	}
	if isNil(n) {
		return
	}
	r.Raw = n
	r.Tree = Conv(n)
}

// ParseReader parses a script from a reader.
func ParseReader(rd io.Reader, name string, neovim bool) (r *Result) {
	r = &Result{}
	defer func() {
		if p := recover(); p != nil {
			r.Panic = p
		}
	}()
	var opt *vimlparser.ParseOption
	if neovim {
		opt = &vimlparser.ParseOption{Neovim: true}
	}
	f, err := vimlparser.ParseFile(rd, name, opt)
	if f == nil {
		finish(r, nil, err)
	} else {
		finish(r, f, err)
	}
	return r
}

// Parse parses a script.
func Parse(text string, neovim bool) *Result {
	return ParseReader(strings.NewReader(text), "", neovim)
}

// ParseExpr parses an expression.
func ParseExpr(text string) *Result { return ParseExprReader(strings.NewReader(text)) }

// ParseExprReader parses an expression from a reader.
func ParseExprReader(rd io.Reader) (r *Result) {
	r = &Result{}
	defer func() {
		if p := recover(); p != nil {
			r.Panic = p
		}
	}()
	x, err := vimlparser.ParseExpr(rd)
	if x == nil {
		finish(r, nil, err)
	} else {
		finish(r, x, err)
	}
	return r
}

func isNil(n interface{}) bool {
	if n == nil {
		return true
	}
	v := reflect.ValueOf(n)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

func pos(p ast.Pos) model.Pos { return model.Pos{Line: p.Line, Col: p.Column, Off: p.Offset} }

func ppos(p *ast.Pos) *model.Pos {
	if p == nil {
		return nil
	}
	q := pos(*p)
	return &q
}

func ea(e *ast.ExArg) *model.ExArg {
	m := &model.ExArg{
		Forceit: e.Forceit, Usefilter: e.Usefilter,
		Append: e.Append, Amount: e.Amount, ForceBin: e.ForceBin, ReadEdit: e.ReadEdit,
		EcmdCmd: e.DoEcmdCmd, FF: e.ForceFf, Enc: e.ForceEnc, Bad: e.BadChar,
		Line: ppos(e.Linepos), Cmd: ppos(e.Cmdpos), Arg: ppos(e.Argpos),
	}
	if e.Cmd != nil {
		m.Name, m.Flags, m.Minlen = e.Cmd.Name, e.Cmd.Flags, e.Cmd.Minlen
	}
	for _, x := range e.Modifiers {
		m.Mods = append(m.Mods, mod(x))
	}
	for _, x := range e.Range {
		m.Range = append(m.Range, fmt.Sprint(x))
	}
	return m
}

func mod(x interface{}) string {
	m, ok := x.(map[string]interface{})
	if !ok {
		return fmt.Sprintf("?%v", x)
	}
	s := fmt.Sprint(m["name"])
	n := 1
	if b, ok := m["bang"]; ok {
		n++
		switch fmt.Sprint(b) {
		case "1":
			s += "!"
		case "0":
		default:
			s += fmt.Sprintf("?bang=%v", b)
		}
	}
	if c, ok := m["count"]; ok {
		n++
		s += fmt.Sprintf("=%v", c)
	}
	if n != len(m) {
		s += fmt.Sprintf("?%v", m)
	}
	return s
}

func one(k string, n ast.Node) model.Child { return model.One(k, Conv(n)) }

func exprs(k string, l []ast.Expr) model.Child {
	c := model.Child{K: k}
	for _, x := range l {
		c.N = append(c.N, must(x))
	}
	return c
}

func must(x ast.Node) *model.Node {
	n := Conv(x)
	if n == nil {
		n = &model.Node{Kind: "nil"}
	}
	return n
}

func idents(k string, l []*ast.Ident) model.Child {
	c := model.Child{K: k}
	for _, x := range l {
		c.N = append(c.N, must(x))
	}
	return c
}

func stmts(l []ast.Statement) model.Child {
	c := model.Child{K: "body"}
	for _, x := range l {
		c.N = append(c.N, must(x))
	}
	return c
}

// Conv converts a tree.
func Conv(n ast.Node) *model.Node {
	if isNil(n) {
		return nil
	}
	mk := func(kind string, c ...model.Child) *model.Node {
		return &model.Node{Kind: kind, Pos: pos(n.Pos()), C: c}
	}
	at := func(m *model.Node, kv ...string) *model.Node {
		for i := 0; i < len(kv); i += 2 {
			m.A = append(m.A, model.Attr{K: kv[i], V: kv[i+1]})
		}
		return m
	}
	st := func(e *ast.ExArg, kind string, c ...model.Child) *model.Node {
		m := mk(kind, c...)
		m.EA = ea(e)
		return m
	}
	yes := func(b bool) string {
		if b {
			return "yes"
		}
		return ""
	}
	switch n := n.(type) {
	case *ast.File:
		return mk("File", stmts(n.Body))
	case *ast.Comment:
		return at(mk("Comment"), "text", n.Text)
	case *ast.Excmd:
		return at(st(&n.ExArg, "Excmd"), "text", n.Command)
	case *ast.Function:
		return at(st(&n.ExArg, "Function", one("name", n.Name), idents("params", n.Params),
			exprs("defaults", n.DefaultArgs), stmts(n.Body), one("end", n.EndFunction)),
			"range", yes(n.Attr.Range), "abort", yes(n.Attr.Abort), "dict", yes(n.Attr.Dict), "closure", yes(n.Attr.Closure))
	case *ast.EndFunction:
		return st(&n.ExArg, "EndFunction")
	case *ast.DelFunction:
		return st(&n.ExArg, "DelFunction", one("name", n.Name))
	case *ast.Return:
		return st(&n.ExArg, "Return", one("result", n.Result))
	case *ast.ExCall:
		return st(&n.ExArg, "ExCall", one("call", n.FuncCall))
	case *ast.Let:
		return at(st(&n.ExArg, "Let", one("left", n.Left), exprs("list", n.List), one("rest", n.Rest), one("right", n.Right)), "op", n.Op)
	case *ast.UnLet:
		return st(&n.ExArg, "UnLet", exprs("list", n.List))
	case *ast.LockVar:
		return at(st(&n.ExArg, "LockVar", exprs("list", n.List)), "depth", fmt.Sprint(n.Depth))
	case *ast.UnLockVar:
		return at(st(&n.ExArg, "UnLockVar", exprs("list", n.List)), "depth", fmt.Sprint(n.Depth))
	case *ast.If:
		ei := model.Child{K: "ElseIf"}
		for _, x := range n.ElseIf {
			ei.N = append(ei.N, must(x))
		}
		return st(&n.ExArg, "If", one("cond", n.Condition), stmts(n.Body), one("end", n.EndIf), ei, one("Else", n.Else))
	case *ast.ElseIf:
		return st(&n.ExArg, "ElseIf", one("cond", n.Condition), stmts(n.Body))
	case *ast.Else:
		return st(&n.ExArg, "Else", stmts(n.Body))
	case *ast.EndIf:
		return st(&n.ExArg, "EndIf")
	case *ast.While:
		return st(&n.ExArg, "While", one("cond", n.Condition), stmts(n.Body), one("end", n.EndWhile))
	case *ast.EndWhile:
		return st(&n.ExArg, "EndWhile")
	case *ast.For:
		return st(&n.ExArg, "For", one("left", n.Left), exprs("list", n.List), one("rest", n.Rest), one("right", n.Right), stmts(n.Body), one("end", n.EndFor))
	case *ast.EndFor:
		return st(&n.ExArg, "EndFor")
	case *ast.Continue:
		return st(&n.ExArg, "Continue")
	case *ast.Break:
		return st(&n.ExArg, "Break")
	case *ast.Try:
		ca := model.Child{K: "Catch"}
		for _, x := range n.Catch {
			ca.N = append(ca.N, must(x))
		}
		return st(&n.ExArg, "Try", stmts(n.Body), one("end", n.EndTry), ca, one("Finally", n.Finally))
	case *ast.Catch:
		return at(st(&n.ExArg, "Catch", stmts(n.Body)), "pattern", n.Pattern)
	case *ast.Finally:
		return st(&n.ExArg, "Finally", stmts(n.Body))
	case *ast.EndTry:
		return st(&n.ExArg, "EndTry")
	case *ast.Throw:
		return st(&n.ExArg, "Throw", one("expr", n.Expr))
	case *ast.Eval:
		return st(&n.ExArg, "Eval", one("expr", n.Expr))
	case *ast.EchoCmd:
		return at(st(&n.ExArg, "Echo", exprs("exprs", n.Exprs)), "cmd", n.CmdName)
	case *ast.Echohl:
		return at(st(&n.ExArg, "Echohl"), "name", n.Name)
	case *ast.Execute:
		return st(&n.ExArg, "Execute", exprs("exprs", n.Exprs))
	case *ast.TernaryExpr:
		return mk("Ternary", one("cond", n.Condition), one("left", n.Left), one("right", n.Right))
	case *ast.BinaryExpr:
		return at(mk("Binary", one("left", n.Left), one("right", n.Right)), "op", n.Op.String())
	case *ast.UnaryExpr:
		return at(mk("Unary", one("x", n.X)), "op", n.Op.String())
	case *ast.SubscriptExpr:
		return mk("Subscript", one("left", n.Left), one("right", n.Right))
	case *ast.SliceExpr:
		return mk("Slice", one("x", n.X), one("low", n.Low), one("high", n.High))
	case *ast.MethodExpr:
		return mk("Method", one("left", n.Left), one("method", n.Method), exprs("args", n.Args))
	case *ast.CallExpr:
		return mk("Call", one("fun", n.Fun), exprs("args", n.Args))
	case *ast.DotExpr:
		return mk("Dot", one("left", n.Left), one("right", n.Right))
	case *ast.BasicLit:
		return at(mk("Lit"), "kind", litKind(n.Kind.String()), "value", n.Value)
	case *ast.List:
		return mk("List", exprs("values", n.Values))
	case *ast.Dict:
		es := model.Child{K: "entries"}
		for _, e := range n.Entries {
			es.N = append(es.N, &model.Node{Kind: "Entry", C: []model.Child{one("key", e.Key), one("value", e.Value)}})
		}
		return mk("Dict", es)
	case *ast.CurlyName:
		ps := model.Child{K: "parts"}
		for _, x := range n.Parts {
			ps.N = append(ps.N, must(x))
		}
		return mk("CurlyName", ps)
	case *ast.CurlyNameLit:
		return at(mk("CurlyNameLit"), "value", n.Value)
	case *ast.CurlyNameExpr:
		return mk("CurlyNameExpr", one("value", n.Value))
	case *ast.Ident:
		return at(mk("Ident"), "name", n.Name)
	case *ast.LambdaExpr:
		return mk("Lambda", idents("params", n.Params), one("expr", n.Expr))
	case *ast.ParenExpr:
		return mk("Paren", one("x", n.X))
	case *ast.HeredocExpr:
		return at(mk("Heredoc", exprs("flags", n.Flags), exprs("body", n.Body)), "marker", n.EndMarker)
	}
	return &model.Node{Kind: fmt.Sprintf("?%T", n)}
}

func litKind(k string) string { return strings.Trim(k, "<>&$@") }

// Chars splits a text into characters; bytes which are not UTF-8 stand alone.
func Chars(s string) []string {
	var out []string
	for len(s) > 0 {
		_, n := utf8.DecodeRuneInString(s)
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}
