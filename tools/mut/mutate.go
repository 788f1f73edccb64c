// mutate FILE list prints the mutants of a Go file, one per line; mutate FILE K
// prints the file with mutant K.  With MUTGUARD=1 a mutant turns a condition of
// the parser around, but only where something rare holds (see guards).
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
	line     int
}

// guards are conditions on r, a *StringReader.
var guards = []string{
	"r.i < len(r.pos) && r.pos[r.i].col > 35",
	"r.i < len(r.pos) && r.pos[r.i].lnum > 8",
	"r.i > 0 && r.i <= len(r.buf) && len(r.buf[r.i-1]) > 1",
	"r.i > 0 && r.i < len(r.buf) && r.buf[r.i-1] != \"<EOL>\" && r.pos[r.i].lnum > r.pos[r.i-1].lnum",
	"r.i < len(r.buf) && r.buf[r.i] == \"\\t\"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] == \")\"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] >= \"0\" && r.buf[r.i-1] <= \"9\"",
	"r.i < len(r.buf) && r.buf[r.i] >= \"A\" && r.buf[r.i] <= \"Z\"",
	"r.i < len(r.buf) && r.buf[r.i] == \"\\r\"",
	"r.i > 1 && r.i <= len(r.buf) && r.buf[r.i-1] == \" \" && r.buf[r.i-2] == \" \"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] == \"\\\\\"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] == \"]\"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] == \"}\"",
	"r.i < len(r.buf) && r.buf[r.i] == \"#\"",
	"r.i > 0 && r.i <= len(r.buf) && r.buf[r.i-1] == \"!\"",
	"r.i < len(r.buf) && r.buf[r.i] == \"|\"",
	"r.i < len(r.buf) && r.buf[r.i] == \"\\\"\"",
	"r.i < len(r.buf) && r.buf[r.i] == \"<EOL>\"",
	"r.i == len(r.buf)",
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, 0)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	add := func(a, b token.Pos, text string) {
		es = append(es, edit{off(a), off(b), text, fs.Position(a).Line})
	}
	str := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token]string{token.EQL: "!=", token.NEQ: "==", token.LAND: "||", token.LOR: "&&", token.LSS: "<=", token.GTR: ">=", token.LEQ: "<", token.GEQ: ">", token.ADD: "-", token.SUB: "+"}
	dead := func(d *ast.FuncDecl) bool {
		return d.Recv != nil && strings.Contains(str(d.Recv.List[0].Type), "RegexpParser")
	}
	for _, d := range f.Decls {
		d, ok := d.(*ast.FuncDecl)
		if !ok || d.Body == nil || dead(d) {
			continue
		}
		reader := ""
		if d.Recv != nil && len(d.Recv.List[0].Names) == 1 {
			switch str(d.Recv.List[0].Type) {
			case "*VimLParser", "*ExprTokenizer", "*ExprParser", "*LvalueParser":
				reader = "self.reader"
			case "*StringReader":
				reader = "self"
			}
		}
		if os.Getenv("MUTGUARD") != "" {
			cond := func(c ast.Expr) {
				if c != nil && reader != "" {
					for i := range guards {
						add(c.Pos(), c.End(), fmt.Sprintf("(%s) != mutG%d(%s)", str(c), i, reader))
					}
				}
			}
			ast.Inspect(d.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.IfStmt:
					cond(n.Cond)
				case *ast.ForStmt:
					cond(n.Cond)
				}
				return true
			})
			continue
		}
		ast.Inspect(d.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BinaryExpr:
				if s := swap[n.Op]; s != "" {
					add(n.OpPos, n.OpPos+token.Pos(len(n.Op.String())), s)
				}
				if n.Op == token.LAND || n.Op == token.LOR {
					add(n.Pos(), n.End(), str(n.X))
					add(n.Pos(), n.End(), str(n.Y))
				}
			case *ast.IfStmt:
				add(n.Cond.Pos(), n.Cond.End(), "!("+str(n.Cond)+")")
				add(n.Cond.Pos(), n.Cond.End(), "("+str(n.Cond)+") && false")
			case *ast.UnaryExpr:
				if n.Op == token.NOT {
					add(n.Pos(), n.End(), str(n.X))
				}
			case *ast.BasicLit:
				switch n.Kind {
				case token.INT:
					if v, err := strconv.ParseInt(n.Value, 0, 64); err == nil {
						add(n.Pos(), n.End(), strconv.FormatInt(v+1, 10))
						if v > 0 {
							add(n.Pos(), n.End(), strconv.FormatInt(v-1, 10))
						}
					}
				case token.STRING:
					if s, err := strconv.Unquote(n.Value); err == nil && s != "" {
						add(n.Pos(), n.End(), strconv.Quote(s[:len(s)-1]))
						if len(s) > 1 {
							add(n.Pos(), n.End(), strconv.Quote(s[1:]))
						}
					}
				}
			case *ast.ExprStmt:
				add(n.Pos(), n.End(), "")
			case *ast.AssignStmt:
				if n.Tok != token.DEFINE {
					add(n.Pos(), n.End(), "")
				}
			case *ast.IncDecStmt:
				add(n.Pos(), n.End(), "")
			case *ast.BranchStmt:
				add(n.Pos(), n.End(), "")
			case *ast.Ident:
				if n.Name == "true" {
					add(n.Pos(), n.End(), "false")
				} else if n.Name == "false" {
					add(n.Pos(), n.End(), "true")
				}
			}
			return true
		})
	}
	if os.Args[2] == "list" {
		for i, e := range es {
			fmt.Printf("%d\t%d\t%q\t%q\n", i, e.line, src[e.from:e.to], e.text)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	e := es[k]
	var b bytes.Buffer
	b.Write(src[:e.from])
	b.WriteString(e.text)
	b.Write(src[e.to:])
	if os.Getenv("MUTGUARD") != "" {
		for i, g := range guards {
			fmt.Fprintf(&b, "\nfunc mutG%d(r *StringReader) bool { return %s }\n", i, g)
		}
	}
	os.Stdout.Write(b.Bytes())
}
