//go:build gen

package main

import (
	"io"

	gen "gen/vimlparser"
)

func init() {
	genFile = func(r io.Reader, name string, neovim bool) (interface{}, error) {
		n, err := gen.ParseFile(r, name, &gen.ParseOption{Neovim: neovim})
		if err != nil {
			return nil, err
		}
		return n, nil
	}
	genExpr = func(r io.Reader) (interface{}, error) {
		n, err := gen.ParseExpr(r)
		if err != nil {
			return nil, err
		}
		return n, nil
	}
}
