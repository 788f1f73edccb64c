" Reads patterns, one JSON string per line, from $MC_IN and writes, one JSON
" object per line, to $MC_OUT: e, what Vim says against the pattern; x, what
" the RegexpParser of vimlparser.vim says against it; n, its tokens put
" together as a very nomagic pattern; w and g, the places in a buffer where
" the pattern and that of n match; b, what else is wrong.
set nocompatible encoding=utf-8 maxmempattern=20000 noswapfile nomore ignorecase& smartcase& magic& gdefault& undolevels=-1 cpo&vim
let s:p = vimlparser#import()

let s:lines = ['', 'a', 'aa', 'ab', 'aab', 'abab', 'A', 'ba1', "b\ta b", 'Q', 'xQa', '[a]', '[a-b]', '^a$', 'a*', "\e\r", 'é', "e\u0301", 'a.b~', '-', ']', '\a', 'a{2}', '(a|b)&', 'a?+=', '%[a]', '/a#', 'd97', 'ac c', 'alpha: =.', '', 'bb', '_', 'x1', 'n', 'aaa']
call setline(1, 'xyz')
silent s/xyz/Q/
call setline(1, s:lines)
let s:end = line('$')
call setpos("'m", [0, 4, 2, 0])
call cursor(5, 1)
execute "normal! vjl\<Esc>"

function! s:found() abort
  call add(s:list, line('.') . ':' . col('.') . ':' . submatch(0) . '<' . submatch(1) . '<' . submatch(2))
  return ''
endfunction

function! s:matches(pat) abort
  let s:list = []
  call cursor(5, 2)
  let @/ = a:pat
  %s//\=s:found()/gen
  return s:list
endfunction

function! s:parse(text, cmd, delim) abort
  let r = s:p.StringReader.new([a:text])
  return [s:p.RegexpParser.new(r, a:cmd, a:delim).parse_regexp(), r.tell()]
endfunction

" The tokens as one pattern.  The mode switches mean nothing any more.  Between
" tokens \V is a switch without effect, but not inside of what should be one
" token; it cannot stand in front of a multi.
function! s:join(tokens) abort
  let t = filter(copy(a:tokens), 'index(["\\m", "\\M", "\\v", "\\V"], v:val) < 0')
  let e = len(t) && t[0] =~# '^\\%#=' ? remove(t, 0) : ''
  return e . '\V' . join(map(t, '(v:val =~# "^\\\\[*+=?{@]" ? "" : "\\V") . v:val'), '')
endfunction

function! s:one(pat) abort
  let r = {}
  call setline(s:end + 1, [a:pat, substitute(a:pat, '\\', '', 'g'), 'x' . a:pat])
  try
    let r.w = s:matches(a:pat)
  catch /^Vim:Interrupt/
    qall!
  catch
    let r.e = v:exception
  endtry
  try
    let [t, n] = s:parse(a:pat, '/', '')
    let r.n = s:join(t)
    if n != strchars(a:pat)
      let r.b = 'stops at ' . n
    endif
  catch /^Vim:Interrupt/
    qall!
  catch
    let r.x = v:exception
    return r
  endtry
  if has_key(r, 'e')
    return r
  endif
  try
    let r.g = s:matches(r.n)
  catch
    let r.b = v:exception
    return r
  endtry
  try
    " The delimiter ends the pattern.
    if stridx(a:pat, '#') < 0 && a:pat !~# '\\$'
      let u = s:parse(a:pat . '#b', '/', '#')
      if u !=# [t, n]
        let r.b = 'in front of #: ' . string(u) . ', not ' . string([t, n])
      endif
    endif
    " \? is a question mark if it is the delimiter.
    if a:pat =~# '\\?' && a:pat !~# '\\v'
      let q = substitute(a:pat, '\\?', '', 'g')
      if stridx(q, '?') < 0 && stridx(q, '[') < 0
        silent! execute '?' . a:pat . '?'
        let p = @/
        let m = []
        try
          let m = s:matches(p)
        catch
          let p = ''
        endtry
        let u = s:join(s:parse(a:pat . '?', '?', '?')[0])
        if p !=# '' && m !=# s:matches(u)
          let r.b = 'with ?: ' . p . ' matches ' . string(m) . ', ' . u . ' does not'
        endif
      endif
    endif
  catch
    let r.b = v:exception
  endtry
  return r
endfunction

let s:out = []
for s:l in readfile($MC_IN)
  call add(s:out, json_encode(s:one(json_decode(s:l))))
endfor
call writefile(s:out, $MC_OUT)
qall!
