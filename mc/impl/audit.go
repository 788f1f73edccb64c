package impl

import (
	"fmt"
	"reflect"

	"github.com/vim-jp/go-vimlparser/ast"
)

// Oddity is something no tree may show, whatever the input.
type Oddity struct{ Cat, Msg string } // Cat: nil, file, pos, cmd

var optional = map[string]bool{
	"Return.Result": true, "Let.Left": true, "Let.Rest": true, "For.Left": true, "For.Rest": true,
	"If.Else": true, "Try.Finally": true, "SliceExpr.Low": true, "SliceExpr.High": true,
}

var nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
var posT = reflect.TypeOf(ast.Pos{})
var eaT = reflect.TypeOf(ast.ExArg{})

// Audit checks completeness and consistency of a tree, by reflection over the
// node types, so that new fields are covered too.
func Audit(n ast.Node, filename string) []Oddity {
	a := &auditor{file: filename}
	a.node(reflect.ValueOf(n), "root")
	return a.out
}

type auditor struct {
	file string
	out  []Oddity
}

func (a *auditor) bad(cat, f string, args ...interface{}) {
	if len(a.out) < 10 {
		a.out = append(a.out, Oddity{cat, fmt.Sprintf(f, args...)})
	}
}

func (a *auditor) node(v reflect.Value, path string) {
	for v.Kind() == reflect.Interface {
		if v.IsNil() {
			a.bad("nil", "%s is nil", path)
			return
		}
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr {
		if v.IsNil() {
			a.bad("nil", "%s is nil", path)
			return
		}
	}
	n, _ := v.Interface().(ast.Node)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() != reflect.Struct {
		return
	}
	t := v.Type()
	name := t.Name()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		ft := t.Field(i)
		if ft.PkgPath != "" || ft.Anonymous {
			continue
		}
		key := name + "." + ft.Name
		switch {
		case ft.Type == posT:
			p := f.Interface().(ast.Pos)
			if p.Filename != a.file {
				a.bad("file", "%s has file name %q", key, p.Filename)
			}
			if n != nil && n.Pos() != p {
				a.bad("pos", "%s is %v but Pos() is %v", key, p, n.Pos())
			}
		case ft.Type == eaT:
			a.exArg(n, f.Addr().Interface().(*ast.ExArg), name)
		case ft.Type.Implements(nodeT):
			if f.IsNil() && optional[key] {
				continue
			}
			a.node(f, key)
		case ft.Type.Kind() == reflect.Slice:
			for j := 0; j < f.Len(); j++ {
				a.node(f.Index(j), fmt.Sprintf("%s[%d]", key, j))
			}
		}
	}
	switch n := n.(type) {
	case *ast.Let:
		a.target(name, n.Left, n.List, n.Rest)
	case *ast.For:
		a.target(name, n.Left, n.List, n.Rest)
	case *ast.CurlyNameLit:
		if n.IsCurlyExpr() {
			a.bad("nil", "CurlyNameLit.IsCurlyExpr")
		}
	case *ast.CurlyNameExpr:
		if !n.IsCurlyExpr() {
			a.bad("nil", "!CurlyNameExpr.IsCurlyExpr")
		}
	}
}

func (a *auditor) target(name string, left ast.Expr, list []ast.Expr, rest ast.Expr) {
	if (left == nil) == (len(list) == 0) || rest != nil && len(list) == 0 {
		a.bad("nil", "%s: Left %v, %d in List, Rest %v", name, left != nil, len(list), rest != nil)
	}
}

func (a *auditor) exArg(n ast.Node, e *ast.ExArg, name string) {
	for _, p := range []*ast.Pos{e.Linepos, e.Cmdpos, e.Argpos} {
		if p != nil && p.Filename != a.file {
			a.bad("file", "%s: ExArg position has file name %q", name, p.Filename)
		}
	}
	if e.Linepos == nil || e.Cmdpos == nil || e.Cmd != nil && e.Argpos == nil {
		a.bad("nil", "%s: ExArg without positions", name)
	}
	if e.Cmd == nil && (name != "Excmd" || len(e.Modifiers)+len(e.Range) == 0) {
		a.bad("nil", "%s: ExArg.Cmd is nil", name)
	}
	if x, ok := n.(ast.ExCommand); ok {
		want := ast.Cmd{}
		if e.Cmd != nil {
			want = *e.Cmd
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					a.bad("cmd", "%s: Cmd() panics: %v", name, p)
				}
			}()
			if got := x.Cmd(); got != want {
				a.bad("cmd", "%s: Cmd() is %v, ExArg.Cmd %v", name, got, want)
			}
		}()
	}
}
