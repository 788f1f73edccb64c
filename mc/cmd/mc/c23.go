package main

import (
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"reflect"
	"sort"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"

	"mc/eng"
)

// C23: the committed parser against the one which the generator in /repo makes
// of the Vim script original.  gen.sh builds the checker with both.

// The regenerated parser, or nil if this build has none.
var genFile func(r io.Reader, name string, neovim bool) (interface{}, error)
var genExpr func(r io.Reader) (interface{}, error)

// dump writes everything a result holds, whatever package its types are from.
func dump(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		dump(b, v.Elem())
	case reflect.Struct:
		b.WriteString(v.Type().Name())
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			dump(b, v.Field(i))
			b.WriteByte(' ')
		}
		b.WriteByte('}')
	case reflect.Slice:
		b.WriteByte('[')
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i))
			b.WriteByte(' ')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			dump(&e, k)
			e.WriteByte(':')
			dump(&e, v.MapIndex(k))
			ks = append(ks, e.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map%q", ks)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Bool:
		fmt.Fprintf(b, "%t", v.Bool())
	default:
		fmt.Fprintf(b, "%s", v.Kind())
	}
}

func result(f func() (interface{}, error)) (s string) {
	defer func() {
		if x := recover(); x != nil {
			s = fmt.Sprintf("panic: %v", x)
		}
	}()
	n, err := f()
	var b strings.Builder
	if err != nil {
		b.WriteString("error ")
		dump(&b, reflect.ValueOf(err))
		return b.String()
	}
	dump(&b, reflect.ValueOf(n))
	return b.String()
}

func regenerated(c eng.Case) eng.Out {
	o := eng.Out{Steps: 2}
	if genFile == nil {
		o.Bad = "this checker was built without the regenerated parser: use gen.sh"
		return o
	}
	if len(c.Text) > 50000 {
		return o // two parsers with quadratic string building at once
	}
	o.Compared = true
	var a, b string
	if c.Mode == "expr" {
		a = result(func() (interface{}, error) { return vimlparser.ParseExpr(strings.NewReader(c.Text)) })
		b = result(func() (interface{}, error) { return genExpr(strings.NewReader(c.Text)) })
	} else {
		a = result(func() (interface{}, error) {
			return vimlparser.ParseFile(strings.NewReader(c.Text), "f", &vimlparser.ParseOption{Neovim: c.Mode == "neo"})
		})
		b = result(func() (interface{}, error) { return genFile(strings.NewReader(c.Text), "f", c.Mode == "neo") })
	}
	h := fnv.New64a()
	io.WriteString(h, a)
	o.Outcome = h.Sum64()
	o.NonTrivial = !strings.HasPrefix(a, "error ")
	if a != b {
		o.Bad = fmt.Sprintf("the committed parser gives\n%s\nthe regenerated one\n%s", a, b)
	}
	return o
}

func init() {
	add(&eng.Check{
		ID:   "C23",
		Rule: "element: a text in a mode, given to the committed parser and to the one which go/generate.sh makes in a copy of the tree; compared: everything in the tree or the error; non-trivial: accepted by the committed one",
		Parts: func(thorough bool) []eng.Part {
			if genFile == nil {
				return nil
			}
			max := 60000
			if thorough {
				max = 1200000
			}
			return also(thorough, max, "C02", "C03", "C04", "C07", "C08", "C09", "C10", "C19", "C20")
		},
		Eval: regenerated,
		Extra: func(r *eng.Run) {
			if why := os.Getenv("MC_NOGEN"); why != "" {
				// A generator which does not understand the original any
				// more, or code which does not fit the rest, shows at once;
				// what this check decides is that no difference goes unseen.
				r.Set("not_regenerated", why)
				r.Cut("nothing was compared: " + why)
			}
		},
		Assumptions: []string{"the generator runs in Vim and its output, module path renamed, compiles with the rest of the tree; if it does not, nothing is compared and the evidence file says so"},
	})
}
