module mc

go 1.22

require github.com/vim-jp/go-vimlparser v0.0.0

replace github.com/vim-jp/go-vimlparser => /repo
