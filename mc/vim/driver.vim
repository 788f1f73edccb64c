" Reads cases, one JSON object per line, from $MC_IN and writes what the Vim
" script parser and compiler make of them, one JSON object per line, to
" $MC_OUT.
set nocompatible encoding=utf-8 maxfuncdepth=20000 maxmempattern=200000 noswapfile nomore ignorecase& cpo&vim
let s:p = vimlparser#import()

function! s:one(c) abort
  try
    let r = s:p.StringReader.new(a:c.l)
    let c = s:p.Compiler.new()
    if a:c.m ==# 'expr'
      return {'o': [c.compile(s:p.ExprParser.new(r).parse())]}
    endif
    return {'o': c.compile(s:p.VimLParser.new(a:c.m ==# 'neo').parse(r))}
  catch /^Vim:Interrupt/
    qall!
  catch
    return {'e': v:exception}
  endtry
endfunction

let s:out = []
for s:l in readfile($MC_IN)
  call add(s:out, json_encode(s:one(json_decode(s:l))))
endfor
call writefile(s:out, $MC_OUT)
qall!
