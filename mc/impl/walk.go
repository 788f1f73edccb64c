package impl

import (
	"reflect"

	"github.com/vim-jp/go-vimlparser/ast"
)

// Each calls f for every node reachable from n, found by reflection over the
// fields, parents first, in field order.
func Each(n ast.Node, f func(ast.Node)) { each(reflect.ValueOf(n), f) }

func each(v reflect.Value, f func(ast.Node)) {
	for v.Kind() == reflect.Interface && !v.IsNil() {
		v = v.Elem()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if n, ok := v.Interface().(ast.Node); ok {
			f(n)
		}
		v = v.Elem()
		if v.Kind() == reflect.Struct {
			fields(v, f)
		}
	case reflect.Struct:
		if n, ok := v.Interface().(ast.Node); ok {
			f(n)
		}
		fields(v, f)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			each(v.Index(i), f)
		}
	}
}

func fields(v reflect.Value, f func(ast.Node)) {
	t := v.Type()
	for i := 0; i < v.NumField(); i++ {
		if ft := t.Field(i); ft.PkgPath != "" || ft.Anonymous || ft.Type == posT || ft.Type == eaT {
			continue
		}
		switch k := v.Field(i).Kind(); k {
		case reflect.Ptr, reflect.Interface, reflect.Slice:
			each(v.Field(i), f)
		case reflect.Struct:
			each(v.Field(i), f)
		}
	}
}
