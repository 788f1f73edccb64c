// Package instr puts scheduling points into Go sources.
package instr

import (
	"encoding/json"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const sched = "github.com/vim-jp/go-vimlparser/verifsched"

// Overlay writes copies of the sources of the module at repo with scheduling
// points into dir, and an overlay file for the go command, which it returns.
// fine: at every statement, otherwise at the start of each function and before
// statements that mention a package variable that can change.
func Overlay(repo, dir string, schedSrc []byte, fine bool) (overlay string, points int, err error) {
	replace := map[string]string{}
	put := func(orig string, src []byte) error {
		p := filepath.Join(dir, "f"+strconv.Itoa(len(replace))+".go")
		replace[orig] = p
		return os.WriteFile(p, src, 0666)
	}
	if err := os.MkdirAll(dir, 0777); err != nil {
		return "", 0, err
	}
	var dirs []string
	err = filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if n := fi.Name(); p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		return "", 0, err
	}
	type file struct {
		path string
		src  []byte
		f    *ast.File
		dir  string
	}
	fset := token.NewFileSet()
	var files []file
	for _, d := range dirs {
		names, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, p := range names {
			if ok, _ := build.Default.MatchFile(d, filepath.Base(p)); !ok || strings.HasSuffix(p, "_test.go") {
				continue
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return "", 0, err
			}
			f, err := parser.ParseFile(fset, p, src, 0)
			if err != nil {
				return "", 0, err
			}
			if f.Name.Name == "main" {
				continue
			}
			files = append(files, file{p, src, f, d})
		}
	}
	// The variables, and which of them never change: no composite values and
	// nothing assigned anywhere.
	vars := map[string]bool{}
	for _, f := range files {
		for _, d := range f.f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i, n := range v.Names {
					fixed := false
					if i < len(v.Values) {
						fixed = basic(v.Values[i])
					}
					vars[n.Name] = vars[n.Name] || !fixed
				}
			}
		}
	}
	root := func(e ast.Expr) string {
		for {
			switch x := e.(type) {
			case *ast.Ident:
				return x.Name
			case *ast.SelectorExpr:
				if id, ok := x.X.(*ast.Ident); ok && id.Obj == nil {
					return x.Sel.Name // perhaps a variable of a package
				}
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.ParenExpr:
				e = x.X
			default:
				return ""
			}
		}
	}
	for _, f := range files {
		ast.Inspect(f.f, func(n ast.Node) bool {
			set := func(e ast.Expr) {
				if r := root(e); r != "" {
					if _, ok := vars[r]; ok {
						vars[r] = true
					}
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					for _, l := range n.Lhs {
						set(l)
					}
				}
			case *ast.IncDecStmt:
				set(n.X)
			case *ast.UnaryExpr:
				if n.Op == token.AND {
					set(n.X)
				}
			}
			return true
		})
	}
	mentions := func(n ast.Node) bool {
		found := false
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.FuncLit:
				return false
			case *ast.Ident:
				if vars[n.Name] {
					found = true
				}
			}
			return !found
		})
		return found
	}
	// head is the part of a statement that runs before its blocks.
	head := func(s ast.Stmt) bool {
		found := false
		ast.Inspect(s, func(n ast.Node) bool {
			if _, ok := n.(*ast.BlockStmt); ok || found {
				return false
			}
			if e, ok := n.(ast.Expr); ok {
				found = mentions(e)
				return false
			}
			return true
		})
		return found
	}
	for _, f := range files {
		var at []int
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		list := func(l []ast.Stmt) {
			for _, s := range l {
				switch s.(type) {
				case *ast.LabeledStmt, *ast.EmptyStmt:
					continue
				}
				if fine || head(s) {
					at = append(at, off(s.Pos()))
				}
			}
		}
		for _, d := range f.f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.FuncDecl:
					at = append(at, off(n.Body.Lbrace)+1)
				case *ast.FuncLit:
					at = append(at, off(n.Body.Lbrace)+1)
				case *ast.BlockStmt:
					list(n.List)
				case *ast.CaseClause:
					list(n.Body)
				case *ast.CommClause:
					list(n.Body)
				}
				return true
			})
		}
		// The clauses of a switch are the statements of its block.
		clause := map[int]bool{}
		ast.Inspect(f.f, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CaseClause, *ast.CommClause:
				clause[off(n.Pos())] = true
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		pkg := off(f.f.Name.End())
		b.Write(f.src[:pkg])
		b.WriteString("; import verifsched \"" + sched + "\"")
		last, n := pkg, 0
		for i, p := range at {
			if clause[p] || i > 0 && at[i-1] == p {
				continue
			}
			b.Write(f.src[last:p])
			b.WriteString(" verifsched.Point(); ")
			last = p
			n++
		}
		b.Write(f.src[last:])
		points += n
		if n == 0 {
			continue
		}
		if err := put(f.path, []byte(b.String())); err != nil {
			return "", 0, err
		}
	}
	if err := put(filepath.Join(repo, "verifsched", "sched.go"), schedSrc); err != nil {
		return "", 0, err
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	overlay = filepath.Join(dir, "overlay.json")
	return overlay, points, os.WriteFile(overlay, j, 0666)
}

func basic(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.BasicLit:
		return true
	case *ast.Ident:
		return e.Name == "true" || e.Name == "false"
	case *ast.UnaryExpr:
		return e.Op != token.AND && basic(e.X)
	case *ast.BinaryExpr:
		return basic(e.X) && basic(e.Y)
	case *ast.ParenExpr:
		return basic(e.X)
	}
	return false
}
