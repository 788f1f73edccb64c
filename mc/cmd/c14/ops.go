package main

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strconv"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/compiler"
	"github.com/vim-jp/go-vimlparser/printer"
)

// hook is called from every callback of an op.
var hook func()

func callback() {
	if hook != nil {
		hook()
	}
}

// source is a reader which can fail, and whose buffer is wiped afterwards.
type source struct {
	b    []byte
	at   int
	step int
	fail int // after this many bytes, or -1
}

var errSource = errors.New("source")

func (s *source) Read(p []byte) (int, error) {
	callback()
	if s.fail >= 0 && s.at >= s.fail {
		return 0, errSource
	}
	if s.at >= len(s.b) {
		return 0, io.EOF
	}
	if s.step > 0 && len(p) > s.step {
		p = p[:s.step]
	}
	n := copy(p, s.b[s.at:])
	if s.fail >= 0 && s.at+n > s.fail {
		n = s.fail - s.at
	}
	s.at += n
	return n, nil
}

// sink is a writer which can fail.
type sink struct {
	b    []byte
	fail int
}

func (s *sink) Write(p []byte) (int, error) {
	callback()
	if s.fail >= 0 && len(s.b)+len(p) > s.fail {
		n := s.fail - len(s.b)
		s.b = append(s.b, p[:n]...)
		return n, errSource
	}
	s.b = append(s.b, p...)
	return len(p), nil
}

// held is a result that is kept.
type held struct {
	node ast.Node
	err  error
	pan  interface{}
	now  string
	comp *compiler.Compiler // one that has been used before, or nil
}

func run(op Op) (h *held) {
	h = &held{}
	src := &source{b: []byte(op.Text), fail: -1}
	func() {
		defer func() { h.pan = recover() }()
		switch op.Kind {
		case "vim", "neo", "vim1", "vimfail", "named", "zero":
			name := ""
			var opt *vimlparser.ParseOption
			switch op.Kind {
			case "neo":
				opt = &vimlparser.ParseOption{Neovim: true}
			case "zero":
				opt = &vimlparser.ParseOption{}
			case "vim1":
				src.step = 1
			case "vimfail":
				src.fail = len(op.Text) / 2
			case "named":
				name = "a b%d.vim"
			}
			f, err := vimlparser.ParseFile(src, name, opt)
			if f != nil {
				h.node = f
			}
			h.err = err
			if opt != nil {
				opt.Neovim = !opt.Neovim
			}
		case "expr", "expr1", "exprfail":
			switch op.Kind {
			case "expr1":
				src.step = 1
			case "exprfail":
				src.fail = len(op.Text) / 2
			}
			h.node, h.err = vimlparser.ParseExpr(src)
		default:
			panic("no kind " + op.Kind)
		}
	}()
	for i := range src.b {
		src.b[i] = '?'
	}
	h.now = h.again()
	return h
}

// again dumps the result.
func (h *held) again() string {
	d := &dumper{}
	if h.pan != nil {
		return "panic " + fmt.Sprint(h.pan)
	}
	if h.err != nil {
		d.b = append(d.b, fmt.Sprintf("%T %s ", h.err, h.err)...)
		if e, ok := h.err.(*vimlparser.ErrVimlParser); ok {
			d.b = append(d.b, fmt.Sprintf("%+v", *e)...)
		}
	}
	if h.node != nil {
		d.dump(reflect.ValueOf(h.node))
	}
	return string(d.b)
}

type visitor struct {
	d     *dumper
	depth int
}

func (v visitor) Visit(n ast.Node) ast.Visitor {
	callback()
	if n == nil {
		v.d.b = append(v.d.b, " nil"...)
		return nil
	}
	v.d.b = append(v.d.b, ' ')
	v.d.b = strconv.AppendInt(v.d.b, int64(v.depth), 10)
	v.d.b = append(v.d.b, reflect.TypeOf(n).String()...)
	return visitor{v.d, v.depth + 1}
}

// late does everything that can be done with a tree.
func (h *held) late() (res string) {
	if h.node == nil {
		return ""
	}
	d := &dumper{}
	step := func(what string, f func()) {
		d.b = append(d.b, "\n# "...)
		d.b = append(d.b, what...)
		d.b = append(d.b, '\n')
		defer func() {
			if p := recover(); p != nil {
				d.b = append(d.b, fmt.Sprint("panic ", p)...)
			}
		}()
		f()
	}
	compile := func(c *compiler.Compiler, fail int) func() {
		return func() {
			w := &sink{fail: fail}
			var err error
			if c == nil {
				err = compiler.Compile(w, h.node)
			} else {
				err = c.Compile(w, h.node)
			}
			d.b = append(d.b, w.b...)
			d.b = append(d.b, fmt.Sprint(err)...)
		}
	}
	step("compile", compile(nil, -1))
	c := h.comp
	if c == nil {
		c = &compiler.Compiler{Config: compiler.Config{Indent: "\t"}}
	}
	step("compile with the compiler of all", compile(c, -1))
	step("compile to a full writer", compile(c, 3))
	step("compile with the same compiler", compile(c, -1))
	step("compile to a full writer, left so", compile(c, 2))
	step("walk", func() { ast.Walk(visitor{d, 0}, h.node) })
	var exprs []ast.Node
	step("inspect", func() {
		ast.Inspect(h.node, func(n ast.Node) bool {
			callback()
			if n != nil {
				p := n.Pos()
				d.b = append(d.b, p.String()...)
				d.b = append(d.b, ' ')
				if _, ok := n.(ast.Expr); ok && len(exprs) < 20 {
					exprs = append(exprs, n)
				}
			}
			return true
		})
	})
	step("print", func() {
		w := &sink{fail: -1}
		d.b = append(d.b, fmt.Sprint(printer.Fprint(w, h.node, nil))...)
		d.b = append(d.b, w.b...)
	})
	for _, e := range exprs {
		step("expr", func() {
			w := &sink{fail: -1}
			d.b = append(d.b, fmt.Sprint(printer.Fprint(w, e, &printer.Config{}))...)
			d.b = append(d.b, w.b...)
		})
	}
	return string(d.b)
}

// dumper writes everything that can be reached from a value.
type dumper struct{ b []byte }

func (d *dumper) s(s string) { d.b = append(d.b, s...) }

func (d *dumper) dump(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.s("nil")
	case reflect.Ptr:
		if v.IsNil() {
			d.s("nil")
			return
		}
		d.s("&")
		d.dump(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.s("nil")
			return
		}
		d.s(v.Elem().Type().String())
		d.s(":")
		d.dump(v.Elem())
	case reflect.Struct:
		t := v.Type()
		d.s(t.Name())
		d.s("{")
		for i := 0; i < v.NumField(); i++ {
			d.s(t.Field(i).Name)
			d.s("=")
			d.dump(v.Field(i))
			d.s(" ")
		}
		d.s("}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			d.s("[]nil")
			return
		}
		d.s("[")
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i))
			d.s(", ")
		}
		d.s("]")
	case reflect.Map:
		var keys []string
		at := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			e := &dumper{}
			e.dump(k)
			keys = append(keys, string(e.b))
			at[string(e.b)] = v.MapIndex(k)
		}
		sort.Strings(keys)
		d.s("map[")
		for _, k := range keys {
			d.s(k)
			d.s(":")
			d.dump(at[k])
			d.s(" ")
		}
		d.s("]")
	case reflect.String:
		d.b = strconv.AppendQuote(d.b, v.String())
	case reflect.Bool:
		d.b = strconv.AppendBool(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		d.b = strconv.AppendInt(d.b, v.Int(), 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		d.b = strconv.AppendUint(d.b, v.Uint(), 10)
	case reflect.Float32, reflect.Float64:
		d.b = strconv.AppendFloat(d.b, v.Float(), 'g', -1, 64)
	default:
		d.s(v.Type().String())
	}
}
