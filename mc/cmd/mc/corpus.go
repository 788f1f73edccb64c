package main

import (
	"strings"

	"mc/model"
)

// simple are complete one-line commands of every kind.
var simple = strings.Split(strings.TrimSpace(`
echo 1
echo a b
echo
echon 'x' . "y"
echomsg a, b
echoerr v:exception
echohl Error
echohl
execute 'a' b
execute
let x = 1
let x += 1
let x -= y
let x .= 'a'
let x ..= 'a'
let x *= 2
let x /= 2
let x %= 2
let g:x = {'a': 1, 'b': [1, 2]}
let [a, b] = [1, 2]
let [a; r] = l
let [a, b; r] += l
let d.k = 1
let d[k] = 1
let d[1:2] = l
let &o = 1
let &l:o .= 'x'
let $E = 'x'
let @r = "\<CR>"
let x{i}y = f(x)
let s:d.f.g[0] = a ? b : c
let x
let x y
let g:
let
const c = 1
const [a, b; r] = l
const c
unlet x
unlet! x y z[1]
lockvar x
lockvar 2 x y
lockvar! 3 d.k
unlockvar x
unlockvar 1 x y[0]
call f()
call f(1, 'a', x)
call s:f.g(a)(b)
call d[k]()
call <SID>f(1)
call! g#h()
eval x->f()
eval [1]->map({_, v -> v * 2})
throw 'E' . x
delfunction F
delfunction! s:f
delfunction d.f
function
function F
function /pat
function F(
set ts=4
set noic | set nu
setlocal sw=2 " comment
map <C-a> :echo 1<CR>
nnoremap <silent> x y|z
map x y " no comment
normal! dd | x
edit +3 file
edit ++enc=utf-8 ++ff=unix +/pat f\ g
edit ++bad=drop file
edit ++bin ++edit file
edit `+"`=x . 'y'`"+` z
write
write! file
write >> file
write !cmd | cmd
write ++ff=dos !cmd
read file
read !ls | sort
read! ls
update >>f
1,5write f
!ls | grep x
silent! 1,5!sort
g/pat/s/a/b/ | d
v/pat/p
global! /x/d
substitute/a/b/g
s/a/b/ | s/c/d/
s#a#b#
s
sno/a/b/
&&
~
k a
ka
ma b
dl
d x 3
dp
delete
>>>
<<
> 3
=
@r
@"
@:
*r
# comment?
5
.
$
%
'a,'b
/pat/
?pat?
1;5
.+3,$-2
/a/,/b/+1d
'<,'>s/a/b/
%s/a/b/
*d
\/d
\?d
\&d
1,2,3p
:echo 1
::: echo 1
silent echo 1
silent! echo 1
sil! verb 3 echo 1
3verbose echo 1
verbose echo 1
vert bel sp f
2tab split
tab split
keepj keepp %s/a//
noautocmd w
hide
hide edit x
hide | echo 1
botright copen
silent
5silent
sandbox 1,5d
aboveleft vnew
unsilent echo
keepmarks keepalt lockmarks leftabove rightbelow topleft browse confirm noswapfile new
vimgrep /a|b/gj **/*.c | copen
vimgrep a|b c
lvimgrepadd! /x/ f
redir @a
redir @">>
redir > f
redir END
command! -nargs=* Foo echo <args>
Foo bar | baz
Foo! bar
Foo
Bar2 "x"
command Foo
autocmd BufRead *.x set ft=x | echo 1
au! Group Event
augroup G
augroup END
syntax match X /a|b/ contained
syntax region X start="a" end='b|"' skip=/x/
syntax keyword X a b | echo 1
syn clear
syn match X "a" " comment
highlight X ctermfg=1
hi link X Y
wincmd w
wincmd gf
3wincmd _
wincmd l | echo 1
source f
runtime! plugin/*.vim
ru x.vim
colorscheme x
filetype plugin indent on
setfiletype x
scriptencoding utf-8
scriptversion 2
lua print(1)
lua print("|") | x
python import os
py3 x = 1
perl print 1
ruby p 1
tcl x
mzscheme (x)
pyx x
loadview 1
help x|y
helpgrep x
tag x
cs find x y
make x | y
grep x y | z
lgrep x
cexpr x | y
cgetexpr f()
exec "a" . b | echo 1
if 1 | echo 1 | endif
if 1 | elseif 2 | else | endif
while 1 | break | endwhile
for i in l | continue | endfor
for [a, b; c] in l | endfor
for d.k in {} | endfor
try | throw 1 | catch /a|b/ | finally | endtry
try | catch | endtry
try | catch 'x' | catch #y# | endtry
function F() | return | endfunction
en
" comment
" comment "with" | bar é
#!shebang | x
#!/bin/sh
x
X
normal
norm x"y|z
argdo echo 1 | echo 2
bufdo! s/a/b/ | w
tabdo x
windo x
folddo x
lcd /x\ y|pwd
e \| x
ab x y|z
iab x "y"
menu A.B :x|y<CR>
menut x y
sign define x text="a"
match X /a/
2match none
digraphs a: 1
marks a"b
registers "a
display
put a
put "
pu! =x
yank x
copy 3
m0
t.
join 2
j!
undo 3
redo
earlier 3f
sleep 1m
sort! /x/ n
retab! 4
left 3
ce
ri
noh
nohlsearch | echo 1
finish
fini | echo 1
stopinsert
startinsert!
qa!
q
wq
xa
x!
bd 3
b x
e #
e
view f
sp +x f
sview f
tabe f
tabm 3
tabnext
diffs f
diffthis
dig
profile start x
prof! func x
debug echo 1
breakadd func 3 x
def X()
terminal ls
packadd! x
ownsyntax x
doautocmd Event x | echo 1
star
compiler! x
z=
z3
z
`), "\n")

// multi are complete scripts of several lines.
var multi = []string{
	"if a\necho 1\nendif", "if a\necho 1\nelse\necho 2\nendif", "if a\nelseif b\necho 1\nelseif c\necho 2\nelse\nendif",
	"while a\nbreak\ncontinue\nendwhile", "for i in l\necho i\nendfor", "for [a, b] in l\nendfor", "for [a; b] in l\nif a\nbreak\nendif\nendfor",
	"try\nthrow 'x'\ncatch /x/\necho 1\ncatch\necho 2\nfinally\necho 3\nendtry", "try\nfinally\nendtry",
	"function F()\nendfunction", "function! s:f(a, b) abort\nreturn a:a\nendfunction", "function F(...) range dict\nreturn\nendfunction",
	"function F(a, b = 1, c = [2]) closure\nreturn a:b + a:c\nendfunction", "function g#h(x, ...) abort dict range\nif a:x\nreturn 1\nendif\nendfunction",
	"function d.f() dict\nreturn self.x\nendfunction", "function F{i}()\nfunction! s:g()\nreturn 2\nendfunction\nreturn 1\nendfunction",
	"function F()\nwhile 1\ntry\nreturn\ncatch\nbreak\nendtry\nendwhile\nendfunction | echo 1",
	"function <SID>f(a) abort\nlet x = a:a\nendfunction \" comment", "function F(a,)\nendfunction",
	"let x =<< END\na\n  b\nEND", "let x =<< trim END\n  a\n\n\tb\nEND\necho 1", "let [a, b] =<< E\nx|y\"z\n\\x\nE\n", "let x =<< trim eval E\nE",
	"let x =<< END \" comment\nEND\n", "let x =<< END | echo 1\nfoo\nEND",
	"append\nline 1\necho |\n.\necho 1", "1,2insert!\n  x\n .\n.\n", "append\nx", "a\n.\n", "i\n\n.\necho",
	"lua << EOF\nprint(1)\nif x\nEOF\necho 1", "python3 << END\nimport x\nEND", "perl <<\nx\n.\necho 1", "ruby << E\n\\x\nE\n", "tcl << X\nx", "mzscheme << X\nX", "py << EOS\nx = '|'\nEOS\n\n",
	"py3 << E\nE\necho 1",
	"loadkeymap\na b\nc d \" e", "scriptencoding utf-8\nloadkeymap\nx \u00e9", "loadk\n",
	"finish\nif foo\n(((", "if a\nfinish\nendif\necho 1", "fini | x\nlet [", "function F()\nfinish\nendfunction\necho 2",
	"echo 1\n\\ + 2\n\\", "let x = [\n\\ 1,\n\\ 2,\n\\ ]", "let d = {\n  \\ 'a': 1,\n\t\\ 'b': {'c': 2},\n  \\ }", "set a\n  \\ b\n\\c", "if a\n\\ && b\nendif", "\" comment\n  \\ more", "map x\n\\ y|z\n\\",
	"echo 'é' x", "let é = 1", "echo \"é\u4e16\U0001F600\" . x\necho 2", "\" é\necho 1 | echo 2", "set x=é | echo 1", "échec",
	"\xff", "echo '\xff' x", "\" \x80\necho 1",
	"", "\n", "\n\n", "  \n\t\n", "|", "||", " | ", ":", "::\n:", "|echo 1", "echo 1|", "echo 1||echo 2", "echo 1 | | echo 2",
	"echo 1\necho 2\necho 3", "let a = 1 | let b = 2 | unlet a b", "set x | \" c", "call f() \" c", "call f() | call g()", "return", "  echo 1  ", "\techo\t1\t",
	"if 1 | if 2 | endif | else | while 1 | endwhile | endif", "if a | echo 1\nelse | echo 2\nendif | echo 3",
	"try | echo 1\ncatch /E\\/\\[/\necho 2 | endtry", "try\ncatch /^Vim\\%((\\a\\+)\\)\\=:E123/\nendtry", "try\ncatch /[/]/ \" c\nendtry",
	"echo 1\r\necho 2\r\n", "let x =<< E\r\na\r\nE\r\n", "if a\r\n\\ + b\r\nendif\r\n", "set x\r\n\" c\r\n", "echo 'a\rb'", "\r\n\r\necho 1",
	"echo 1 \x16| x", "map a \x16|b | c", "set a\\|b|echo", "!a \\| b", "com Foo\nFoo1\nFoo", "Foo1\nFoo\nFooBar",
}

// bad are scripts with an error.
var bad = []string{
	"echo (", "echo )", "echo 1 +", "echo [1", "echo [1 2]", "echo {'a'}", "echo {'a': 1", "echo {'a' 1}", "echo #{a}", "echo #{a: 1", "echo #{: 1}", "echo f(", "echo f(1 2)", "echo a[", "echo a[1:2", "echo a ? b", "echo a ? b :",
	"echo 'a", "echo \"a", "echo \"a\\", "echo 0z1", "echo 0z123", "echo {a -> ", "echo {a, a -> 1}", "echo {a:b -> 1}", "echo {a , b -> 1}", "echo {..., a -> 1}", "echo a->b", "echo a->", "echo é", "echo ;", "echo =", "echo a{b", "echo \\x",
	"echo f(1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21)", "echo a == b == c", "echo 1 )", "echo 1 }",
	"let a:b:c = 1", "let 1 = 2", "let [a = 1", "let [] = 1", "let [a b] = 1", "let [a;] = 1", "let [a; b, c] = 1", "let a = ", "let f() = 1", "let (a) = 1", "let foo:bar = 1", "let x =<< END", "let x =<<", "let x =<< trim", "let x =<< END x\nEND", "let x = 1 2",
	"const a.b = 1", "const &o = 1", "const $E = 1", "const @r = 1", "const a[0] = 1", "const [a, b.c] = l",
	"unlet", "unlet 1 2", "lockvar", "lockvar 2", "unlockvar )", "call", "call x", "call f", "call 1", "call f() g()", "call x->f()", "eval", "throw", "delfunction", "delfunction 1", "delfunction a[1:2]", "echo 1 x)",
	"function f()\nendfunction", "function 1()", "function F(1)", "function F(a a)", "function F(a, a)", "function F(a:b)", "function F(firstline)", "function F(a , b)", "function F(..., a)", "function F(a = 1, b)", "function F(a,,b)", "function F() foo", "function F()", "function F() abort foo", "function F(a = )",
	"if", "if a", "if a\nelse", "if a\nelseif", "elseif a", "else", "endif", "if a\nelse\nelse\nendif", "if a\nelse\nelseif b\nendif", "while", "while a", "endwhile", "for", "for i", "for i in", "for i in l", "for [a in l", "for 1 in l\nendfor", "for i on l", "endfor", "try", "catch", "finally", "endtry", "try\nfinally\ncatch\nendtry", "try\nfinally\nfinally\nendtry",
	"endfunction", "return", "break", "continue", "if a\nendwhile", "while a\nendfor", "for i in l\nendwhile", "function F()\nif a\nendfunction", "try\nif a\nendtry", "if a\nfunction F()\nendif", "while 1\nfunction F()\nbreak",
	"foo", "foo bar", "FOO!!", "echo! 1", "set! x", "let! x = 1", "wincmd", "wincmd ww", "wincmd g", "write >f", "update >f", "edit ++foo", "edit ++ff=foo x", "edit ++enc= x", "edit ++bad=xy x", "edit ++ff", "\\x", "\\", "e `=x", "e `=x + `", "e `=` y", "g\\", "catch /a\\", "try\ncatch /a\\\nendtry", "syn match X /a\\", "vimgrep /a\\",
	"if a\nendif x", "endif x", "try x\nendtry", "try\nendtry x", "while a\nendwhile x", "echohl a b", "echohl a \"b", "else x", "function F() \" c\nendfunction x",
	"1,2x:y", "10,é", "'", "/a", "?a", "echo 1 \" c\nfoo", "let x = 1\n\n\n  foo", "\"é\n\"\n  echo )", "if a\n\\ &&\n\\ )\nendif", "echo 'é' )", "\tfoo", "echo \"é\" . \n  \\ é", "append\nx\n.\nfoo", "let x =<< E\na\nE\nfoo", "lua << E\nx\nE\nfoo", "echo 1\r\necho )\r\n", "echo 1\r\n\\ + )\r\n", "silent! foo", "1,5 foo", "silent 3foo", "\xff\xfe", "echo '\xff' )", "$\xff", "tab foo",
}

// corpus is everything; scripts are those the model accepts, broken ones the
// others (a few of the lists above are on the wrong side, which is no harm).
var corpus = append(append(append([]string{}, simple...), multi...), bad...)

var scripts, broken = func() (ok, ko []string) {
	for _, s := range corpus {
		if _, e := model.Parse(s, false); e == nil {
			ok = append(ok, s)
		} else {
			ko = append(ko, s)
		}
	}
	return
}()
