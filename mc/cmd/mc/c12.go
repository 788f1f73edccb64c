package main

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/vim-jp/go-vimlparser/ast"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C12: Walk and Inspect.

// childFields is the documented order of the children of each kind of node.
var childFields = map[string][]string{
	"File": {"Body"}, "Function": {"Name", "Params", "DefaultArgs", "Body", "EndFunction"}, "DelFunction": {"Name"},
	"Return": {"Result"}, "ExCall": {"FuncCall"}, "Let": {"Left", "List", "Rest", "Right"},
	"UnLet": {"List"}, "LockVar": {"List"}, "UnLockVar": {"List"},
	"If": {"Condition", "Body", "ElseIf", "Else", "EndIf"}, "ElseIf": {"Condition", "Body"}, "Else": {"Body"},
	"While": {"Condition", "Body", "EndWhile"}, "For": {"Left", "List", "Rest", "Right", "Body", "EndFor"},
	"Try": {"Body", "Catch", "Finally", "EndTry"}, "Catch": {"Body"}, "Finally": {"Body"},
	"Throw": {"Expr"}, "Eval": {"Expr"}, "EchoCmd": {"Exprs"}, "Execute": {"Exprs"},
	"TernaryExpr": {"Condition", "Left", "Right"}, "BinaryExpr": {"Left", "Right"}, "UnaryExpr": {"X"},
	"SubscriptExpr": {"Left", "Right"}, "SliceExpr": {"X", "Low", "High"}, "MethodExpr": {"Left", "Method", "Args"},
	"CallExpr": {"Fun", "Args"}, "DotExpr": {"Left", "Right"}, "List": {"Values"}, "Dict": {"Entries"},
	"KeyValue": {"Key", "Value"}, "CurlyName": {"Parts"}, "CurlyNameExpr": {"Value"},
	"LambdaExpr": {"Params", "Expr"}, "ParenExpr": {"X"}, "HeredocExpr": {"Flags", "Body"},
	"Comment": {}, "Excmd": {}, "EndFunction": {}, "EndIf": {}, "EndWhile": {}, "EndFor": {}, "EndTry": {}, "Continue": {},
	"Break": {}, "Echohl": {}, "BasicLit": {}, "Ident": {}, "CurlyNameLit": {},
}

// kidsOf lists the children of a node in the documented order.
func kidsOf(n ast.Node) []ast.Node { return kids(reflect.ValueOf(n).Elem(), nil) }

func kids(v reflect.Value, out []ast.Node) []ast.Node {
	for _, name := range childFields[v.Type().Name()] {
		out = values(v.FieldByName(name), out)
	}
	return out
}

func values(v reflect.Value, out []ast.Node) []ast.Node {
	switch v.Kind() {
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			out = values(v.Index(i), out)
		}
	case reflect.Struct:
		out = kids(v, out)
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			out = append(out, v.Interface().(ast.Node))
		}
	}
	return out
}

type event struct {
	by int // the visitor: index of the event which returned it, plus 1
	n  ast.Node
}

// walkModel yields the events of a walk in which the nodes of cut are pruned.
func walkModel(n ast.Node, by int, cut map[ast.Node]bool, out []event) []event {
	out = append(out, event{by, n})
	me := len(out)
	if cut[n] {
		return out
	}
	for _, k := range kidsOf(n) {
		out = walkModel(k, me, cut, out)
	}
	return append(out, event{me, nil})
}

type recorder struct {
	got []event
	cut map[ast.Node]bool
	max int
}

// Two kinds of visitors, used in turn.
type visitorA struct {
	r  *recorder
	id int
}
type visitorB visitorA

func (r *recorder) visit(id int, n ast.Node) ast.Visitor {
	r.got = append(r.got, event{id, n})
	if len(r.got) > r.max {
		panic("the walk does not end")
	}
	if n != nil && r.cut[n] {
		return nil
	}
	if id%2 == 0 {
		return &visitorA{r, len(r.got)}
	}
	return visitorB{r, len(r.got)}
}

func (v *visitorA) Visit(n ast.Node) ast.Visitor { return v.r.visit(v.id, n) }
func (v visitorB) Visit(n ast.Node) ast.Visitor  { return v.r.visit(v.id, n) }

func nodeName(n ast.Node) string {
	if n == nil {
		return "nil"
	}
	if reflect.ValueOf(n).IsNil() {
		return fmt.Sprintf("%T(nil)", n)
	}
	p := n.Pos()
	return fmt.Sprintf("%s@%d:%d", strings.TrimPrefix(fmt.Sprintf("%T", n), "*ast."), p.Line, p.Column)
}

func eventList(es []event) string {
	var b strings.Builder
	for i, e := range es {
		fmt.Fprintf(&b, " %d<%d>%s", i+1, e.by, nodeName(e.n))
	}
	return b.String()
}

// walkOnce compares one walk and one inspection with the model.
func walkOnce(root ast.Node, cut map[ast.Node]bool, what string) (steps int, bad string) {
	want := walkModel(root, 0, cut, nil)
	steps = len(want)
	defer func() {
		if p := recover(); p != nil {
			bad = fmt.Sprintf("%s, root %s: panic: %v\nexpected events:%s", what, nodeName(root), p, eventList(want))
		}
	}()
	r := &recorder{cut: cut, max: len(want) + 10}
	ast.Walk(&visitorA{r, 0}, root)
	same := len(r.got) == len(want)
	for i := 0; same && i < len(want); i++ {
		same = r.got[i] == want[i]
	}
	if !same {
		return steps, fmt.Sprintf("Walk, %s, root %s:\nevents: %s\nexpected:%s", what, nodeName(root), eventList(r.got), eventList(want))
	}
	i := 0
	same = true
	ast.Inspect(root, func(n ast.Node) bool {
		if i >= len(want) || want[i].n != n {
			same = false
			if i > len(want)+10 {
				panic("the inspection does not end")
			}
		}
		i++
		return n != nil && !cut[n]
	})
	if !same || i != len(want) {
		return steps, fmt.Sprintf("Inspect, %s, root %s: differs at or before event %d of %d; expected:%s", what, nodeName(root), i, len(want), eventList(want))
	}
	return steps, ""
}

// cutSets counts the ways to prune a tree, up to max.
func cutSets(n ast.Node, max int) int {
	p := 1
	for _, k := range kidsOf(n) {
		p *= cutSets(k, max)
		if p > max {
			return max + 1
		}
	}
	return p + 1
}

// eachCut calls f with every effective way to prune the trees.
func eachCut(todo []ast.Node, cut map[ast.Node]bool, f func() bool) bool {
	if len(todo) == 0 {
		return f()
	}
	n := todo[0]
	cut[n] = true
	if !eachCut(todo[1:], cut, f) {
		return false
	}
	delete(cut, n)
	return eachCut(append(kidsOf(n), todo[1:]...), cut, f)
}

func walked(c eng.Case) (o eng.Out) {
	o.Steps = 1
	deep := strings.HasPrefix(c.Mode, "deep")
	m := strings.TrimPrefix(c.Mode, "deep ")
	r := runImpl(eng.Case{Mode: m, Text: c.Text})
	if r.Kind() != "tree" {
		return o
	}
	o.Compared = true
	o.Outcome = model.Hash(r.Tree)
	all := 0
	impl.Each(r.Raw, func(ast.Node) { all++ })
	nodes := []ast.Node{}
	var list func(n ast.Node)
	list = func(n ast.Node) {
		nodes = append(nodes, n)
		for _, k := range kidsOf(n) {
			list(k)
		}
	}
	list(r.Raw)
	if all != len(nodes) {
		panic("the table of children does not fit the nodes")
	}
	o.NonTrivial = all > 1
	run := func(root ast.Node, cut map[ast.Node]bool, what string) bool {
		n, bad := walkOnce(root, cut, what)
		o.Steps += n
		o.Bad = bad
		return bad == ""
	}
	if !run(r.Raw, nil, "nothing pruned") {
		return o
	}
	max := 48
	if deep {
		max = 3000
	}
	if cutSets(r.Raw, max) <= max {
		cut := map[ast.Node]bool{}
		if !eachCut([]ast.Node{r.Raw}, cut, func() bool { return run(r.Raw, cut, "some pruned") }) {
			return o
		}
	} else if deep || len(nodes) <= 30 {
		for i, n := range nodes {
			if !run(r.Raw, map[ast.Node]bool{n: true}, "one pruned") {
				return o
			}
			for _, k := range nodes[i+1:] {
				if !deep || len(nodes) > 60 {
					break
				}
				if !run(r.Raw, map[ast.Node]bool{n: true, k: true}, "two pruned") {
					return o
				}
			}
		}
	}
	if deep {
		for _, n := range nodes {
			if !run(n, nil, "a part of a tree") || !absent(n, func(what string) bool { return run(n, nil, what) && run(r.Raw, nil, what) }) {
				return o
			}
		}
		ast.Walk(&visitorA{&recorder{}, 0}, nil)
	}
	if again := runImpl(eng.Case{Mode: m, Text: c.Text}); !reflect.DeepEqual(again.Raw, r.Raw) {
		o.Bad = "walking changes the tree:\n" + model.Dump(impl.Conv(r.Raw), model.MAll) + "it was:\n" + model.Dump(again.Tree, model.MAll)
	}
	return o
}

// absent calls f with every set of children of a node removed, and with an
// absent element added at every place of every list.
func absent(n ast.Node, f func(string) bool) bool {
	v := reflect.ValueOf(n).Elem()
	var fs []reflect.Value
	var names []string
	for _, name := range childFields[v.Type().Name()] {
		fs, names = append(fs, v.FieldByName(name)), append(names, name)
	}
	for set := 1; set < 1<<uint(len(fs)); set++ {
		var saved []reflect.Value
		what := "without"
		for i, x := range fs {
			old := reflect.New(x.Type()).Elem()
			old.Set(x)
			saved = append(saved, old)
			if set>>uint(i)&1 == 1 {
				x.Set(reflect.Zero(x.Type()))
				what += " " + names[i]
			}
		}
		ok := f(what)
		for i, x := range fs {
			x.Set(saved[i])
		}
		if !ok {
			return false
		}
	}
	for i, x := range fs {
		if x.Kind() != reflect.Slice || x.Type().Elem().Kind() == reflect.Struct {
			continue
		}
		old := reflect.New(x.Type()).Elem()
		old.Set(x)
		for at := 0; at <= old.Len(); at++ {
			l := reflect.AppendSlice(reflect.MakeSlice(x.Type(), 0, old.Len()+1), old.Slice(0, at))
			l = reflect.Append(l, reflect.Zero(x.Type().Elem()))
			x.Set(reflect.AppendSlice(l, old.Slice(at, old.Len())))
			ok := f(fmt.Sprintf("absent element %d in %s", at, names[i]))
			x.Set(old)
			if !ok {
				return false
			}
		}
	}
	return true
}

func init() {
	add(&eng.Check{
		ID:   "C12",
		Rule: "every tree the parser returns for the texts of the spaces is walked and inspected with every effective set of pruned nodes (larger trees: every node, and in mode deep every pair), every node of it as root, every set of its children absent; all events and which visitor they reach are compared with a reflection-based model. Non-trivial: the tree has children",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			ok := eng.Lits(scripts)
			p("corpus", "deep file", ok)
			p("corpus in Neovim mode", "neo", ok)
			p("pairs", "file", eng.Cross(ok[:120], ok, func(a, b string) string { return a + "\n" + b }))
			p("corpus behind and within everything", "file", fills(leads, ok))
			p("corpus within everything", "deep file", fills(leads[33:], ok[:60]))
			p("contexts 1", "deep expr", nest(1, atoms, holes))
			p("contexts 1 in commands", "deep file", eng.Wraps(places, nest(1, atoms[:4], holes)))
			p("contexts 2", "deep expr", nest(2, atoms[:2], holes))
			p("contexts 2", "expr", nest(2, atoms, holes))
			p("contexts 2 in commands", "file", eng.Wraps(places, nest(2, atoms[:1], holes)))
			p("contexts 3", "expr", nest(3, atoms[:1], holes))
			p("blocks", "deep file", eng.Union(inAll(1, 2, blockOps, "\n"), inAll(2, 1, blockOps, "\n"), inAll(3, 1, blockOps[:1], "\n")))
			p("blocks", "file", eng.Union(inAll(2, 2, []string{"echo 1", "\" c", "if x\nendif", "function G(a, b = 2, ...)\nreturn\nendfunction", "try\nbreak\ncatch /é/\nendtry", "let x =<< trim E\n\ta\nE", "for [a, b; c] in d\nendfor", "while 1\nwhile 2\nendwhile\nendwhile", "else", "elseif c", "catch", "finally"}, "\n"), inAll(3, 1, blockOps, "\n")))
			p("headers", "file", eng.Map(eng.Seq(paramWords, "", 0, 4), func(s string) string { return "function! s:f(" + s + ") abort\necho 1\nendfunction" }))
			p("statements", "file", eng.Union(eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "let " + s }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "if 1\nfor " + s + "\necho 2\nendfor\nendif" }), eng.Map(eng.Seq(stmtWords, "", 1, 3), func(s string) string { return "echo 0\nexecute " + s })))
			p("lengths", "file", eng.Union(eng.Wrap("let x = %s", lengths(thorough)), blockLadders(thorough)))
			p("command sequences", "file", eng.Seq([]string{"if a", "else", "endif", "try", "catch", "endtry", "function F()", "endfunction", "echo 1", "\" c"}, "\n", 1, 5))
			if thorough {
				p("pairs", "deep file", eng.Cross(ok, ok[:100], func(a, b string) string { return a + "\n" + b }))
				p("contexts 2", "deep expr", nest(2, atoms[2:], holes))
				p("contexts 3", "expr", nest(3, atoms[1:5], holes))
				p("contexts 2 in commands", "deep file", eng.Wraps(places, nest(2, atoms[:2], holes)))
				p("blocks", "deep file", eng.Union(inAll(2, 2, blockOps, "\n"), inAll(3, 1, blockOps, "\n")))
			}
			return ps
		},
		Eval: walked,
	})
}
