package model

// Cmd is an Ex command of Vim: full name, shortest abbreviation, attributes.
type Cmd struct {
	Name   string
	Minlen int
	Flags  string
}

// The command tables are specification data: Vim's ex_cmds.h as the project
// documents it, frozen here.  Order matters: the first match wins.

// NeovimAdded commands.
var NeovimAdded = []Cmd{
	{"rshada", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"wshada", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
}

// NeovimRemoved commands.
var NeovimRemoved = []Cmd{
	{"Print", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN"},
	{"fixdel", 3, "TRLBAR|CMDWIN"},
	{"helpfind", 5, "EXTRA|NOTRLCOM"},
	{"open", 1, "RANGE|BANG|EXTRA"},
	{"shell", 2, "TRLBAR|CMDWIN"},
	{"tearoff", 2, "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN"},
	{"gvim", 2, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN"},
}

// Builtin commands.
var Builtin = []Cmd{
	{"append", 1, "BANG|RANGE|ZEROR|TRLBAR|CMDWIN|MODIFY"},
	{"abbreviate", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"abclear", 3, "EXTRA|TRLBAR|CMDWIN"},
	{"aboveleft", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"all", 2, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"amenu", 2, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"anoremenu", 2, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"args", 2, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"argadd", 4, "BANG|NEEDARG|RANGE|NOTADR|ZEROR|FILES|TRLBAR"},
	{"argdelete", 4, "BANG|RANGE|NOTADR|FILES|TRLBAR"},
	{"argedit", 4, "BANG|NEEDARG|RANGE|NOTADR|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"argdo", 5, "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"argglobal", 4, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"arglocal", 4, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"argument", 4, "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR"},
	{"ascii", 2, "TRLBAR|SBOXOK|CMDWIN"},
	{"autocmd", 2, "BANG|EXTRA|NOTRLCOM|USECTRLV|CMDWIN"},
	{"augroup", 3, "BANG|WORD1|TRLBAR|CMDWIN"},
	{"aunmenu", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"buffer", 1, "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR"},
	{"bNext", 2, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"ball", 2, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"badd", 3, "NEEDARG|FILE1|EDITCMD|TRLBAR|CMDWIN"},
	{"bdelete", 2, "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR"},
	{"behave", 2, "NEEDARG|WORD1|TRLBAR|CMDWIN"},
	{"belowright", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"bfirst", 2, "BANG|RANGE|NOTADR|TRLBAR"},
	{"blast", 2, "BANG|RANGE|NOTADR|TRLBAR"},
	{"bmodified", 2, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"bnext", 2, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"botright", 2, "NEEDARG|EXTRA|NOTRLCOM"},
	{"bprevious", 2, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"brewind", 2, "BANG|RANGE|NOTADR|TRLBAR"},
	{"break", 4, "TRLBAR|SBOXOK|CMDWIN"},
	{"breakadd", 6, "EXTRA|TRLBAR|CMDWIN"},
	{"breakdel", 6, "EXTRA|TRLBAR|CMDWIN"},
	{"breaklist", 6, "EXTRA|TRLBAR|CMDWIN"},
	{"browse", 3, "NEEDARG|EXTRA|NOTRLCOM|CMDWIN"},
	{"bufdo", 5, "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"buffers", 7, "BANG|TRLBAR|CMDWIN"},
	{"bunload", 3, "BANG|RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR"},
	{"bwipeout", 2, "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR"},
	{"change", 1, "BANG|WHOLEFOLD|RANGE|COUNT|TRLBAR|CMDWIN|MODIFY"},
	{"cNext", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cNfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cabbrev", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cabclear", 4, "EXTRA|TRLBAR|CMDWIN"},
	{"caddbuffer", 3, "RANGE|NOTADR|WORD1|TRLBAR"},
	{"caddexpr", 5, "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"caddfile", 5, "TRLBAR|FILE1"},
	{"call", 3, "RANGE|NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"catch", 3, "EXTRA|SBOXOK|CMDWIN"},
	{"cbuffer", 2, "BANG|RANGE|NOTADR|WORD1|TRLBAR"},
	{"cc", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cclose", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"cd", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"center", 2, "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY"},
	{"cexpr", 3, "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG"},
	{"cfile", 2, "TRLBAR|FILE1|BANG"},
	{"cfirst", 4, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cgetbuffer", 5, "RANGE|NOTADR|WORD1|TRLBAR"},
	{"cgetexpr", 5, "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"cgetfile", 2, "TRLBAR|FILE1"},
	{"changes", 7, "TRLBAR|CMDWIN"},
	{"chdir", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"checkpath", 3, "TRLBAR|BANG|CMDWIN"},
	{"checktime", 6, "RANGE|NOTADR|BUFNAME|COUNT|EXTRA|TRLBAR"},
	{"clist", 2, "BANG|EXTRA|TRLBAR|CMDWIN"},
	{"clast", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"close", 3, "BANG|TRLBAR|CMDWIN"},
	{"cmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"cmenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cnext", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cnewer", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"cnfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cnoremap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cnoreabbrev", 6, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cnoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"copy", 2, "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY"},
	{"colder", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"colorscheme", 4, "WORD1|TRLBAR|CMDWIN"},
	{"command", 3, "EXTRA|BANG|NOTRLCOM|USECTRLV|CMDWIN"},
	{"comclear", 4, "TRLBAR|CMDWIN"},
	{"compiler", 4, "BANG|TRLBAR|WORD1|CMDWIN"},
	{"continue", 3, "TRLBAR|SBOXOK|CMDWIN"},
	{"confirm", 4, "NEEDARG|EXTRA|NOTRLCOM|CMDWIN"},
	{"copen", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"cprevious", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cpfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cquit", 2, "TRLBAR|BANG"},
	{"crewind", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"cscope", 2, "EXTRA|NOTRLCOM|XFILE"},
	{"cstag", 3, "BANG|TRLBAR|WORD1"},
	{"cunmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cunabbrev", 4, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cwindow", 2, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"delete", 1, "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN|MODIFY"},
	{"delmarks", 4, "BANG|EXTRA|TRLBAR|CMDWIN"},
	{"debug", 3, "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"debuggreedy", 6, "RANGE|NOTADR|ZEROR|TRLBAR|CMDWIN"},
	{"delcommand", 4, "NEEDARG|WORD1|TRLBAR|CMDWIN"},
	{"delfunction", 4, "BANG|NEEDARG|WORD1|CMDWIN"},
	{"diffupdate", 3, "BANG|TRLBAR"},
	{"diffget", 5, "RANGE|EXTRA|TRLBAR|MODIFY"},
	{"diffoff", 5, "BANG|TRLBAR"},
	{"diffpatch", 5, "EXTRA|FILE1|TRLBAR|MODIFY"},
	{"diffput", 6, "RANGE|EXTRA|TRLBAR"},
	{"diffsplit", 5, "EXTRA|FILE1|TRLBAR"},
	{"diffthis", 5, "TRLBAR"},
	{"digraphs", 3, "EXTRA|TRLBAR|CMDWIN"},
	{"display", 2, "EXTRA|NOTRLCOM|TRLBAR|SBOXOK|CMDWIN"},
	{"djump", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA"},
	{"dlist", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN"},
	{"doautocmd", 2, "EXTRA|TRLBAR|CMDWIN"},
	{"doautoall", 7, "EXTRA|TRLBAR|CMDWIN"},
	{"drop", 2, "FILES|EDITCMD|NEEDARG|ARGOPT|TRLBAR"},
	{"dsearch", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN"},
	{"dsplit", 3, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA"},
	{"edit", 1, "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"earlier", 2, "TRLBAR|EXTRA|NOSPC|CMDWIN"},
	{"echo", 2, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"echoerr", 5, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"echohl", 5, "EXTRA|TRLBAR|SBOXOK|CMDWIN"},
	{"echomsg", 5, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"echon", 5, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"else", 2, "TRLBAR|SBOXOK|CMDWIN"},
	{"elseif", 5, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"emenu", 2, "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|RANGE|NOTADR|CMDWIN"},
	{"endif", 2, "TRLBAR|SBOXOK|CMDWIN"},
	{"endfor", 5, "TRLBAR|SBOXOK|CMDWIN"},
	{"endfunction", 4, "TRLBAR|CMDWIN"},
	{"endtry", 4, "TRLBAR|SBOXOK|CMDWIN"},
	{"endwhile", 4, "TRLBAR|SBOXOK|CMDWIN"},
	{"enew", 3, "BANG|TRLBAR"},
	{"eval", 2, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"ex", 2, "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"execute", 3, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"exit", 3, "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN"},
	{"exusage", 3, "TRLBAR"},
	{"file", 1, "RANGE|NOTADR|ZEROR|BANG|FILE1|TRLBAR"},
	{"files", 5, "BANG|TRLBAR|CMDWIN"},
	{"filetype", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"find", 3, "RANGE|NOTADR|BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"finally", 4, "TRLBAR|SBOXOK|CMDWIN"},
	{"finish", 4, "TRLBAR|SBOXOK|CMDWIN"},
	{"first", 3, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"fixdel", 3, "TRLBAR|CMDWIN"},
	{"fold", 2, "RANGE|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN"},
	{"foldclose", 5, "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN"},
	{"folddoopen", 5, "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM"},
	{"folddoclosed", 7, "RANGE|DFLALL|NEEDARG|EXTRA|NOTRLCOM"},
	{"foldopen", 5, "RANGE|BANG|WHOLEFOLD|TRLBAR|SBOXOK|CMDWIN"},
	{"for", 3, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"function", 2, "EXTRA|BANG|CMDWIN"},
	{"global", 1, "RANGE|WHOLEFOLD|BANG|EXTRA|DFLALL|SBOXOK|CMDWIN"},
	{"goto", 2, "RANGE|NOTADR|COUNT|TRLBAR|SBOXOK|CMDWIN"},
	{"grep", 2, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"grepadd", 5, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"gui", 2, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN"},
	{"gvim", 2, "BANG|FILES|EDITCMD|ARGOPT|TRLBAR|CMDWIN"},
	{"hardcopy", 2, "RANGE|COUNT|EXTRA|TRLBAR|DFLALL|BANG"},
	{"help", 1, "BANG|EXTRA|NOTRLCOM"},
	{"helpfind", 5, "EXTRA|NOTRLCOM"},
	{"helpgrep", 5, "EXTRA|NOTRLCOM|NEEDARG"},
	{"helptags", 5, "NEEDARG|FILES|TRLBAR|CMDWIN"},
	{"highlight", 2, "BANG|EXTRA|TRLBAR|SBOXOK|CMDWIN"},
	{"hide", 3, "BANG|EXTRA|NOTRLCOM"},
	{"history", 3, "EXTRA|TRLBAR|CMDWIN"},
	{"insert", 1, "BANG|RANGE|TRLBAR|CMDWIN|MODIFY"},
	{"iabbrev", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"iabclear", 4, "EXTRA|TRLBAR|CMDWIN"},
	{"if", 2, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"ijump", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA"},
	{"ilist", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN"},
	{"imap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"imapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"imenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"inoremap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"inoreabbrev", 6, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"inoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"intro", 3, "TRLBAR|CMDWIN"},
	{"isearch", 2, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA|CMDWIN"},
	{"isplit", 3, "BANG|RANGE|DFLALL|WHOLEFOLD|EXTRA"},
	{"iunmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"iunabbrev", 4, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"iunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"join", 1, "BANG|RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY"},
	{"jumps", 2, "TRLBAR|CMDWIN"},
	{"k", 1, "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN"},
	{"keepalt", 5, "NEEDARG|EXTRA|NOTRLCOM"},
	{"keepmarks", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"keepjumps", 5, "NEEDARG|EXTRA|NOTRLCOM"},
	{"keeppatterns", 5, "NEEDARG|EXTRA|NOTRLCOM"},
	{"lNext", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lNfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"list", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN"},
	{"laddexpr", 3, "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"laddbuffer", 5, "RANGE|NOTADR|WORD1|TRLBAR"},
	{"laddfile", 5, "TRLBAR|FILE1"},
	{"last", 2, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"language", 3, "EXTRA|TRLBAR|CMDWIN"},
	{"later", 3, "TRLBAR|EXTRA|NOSPC|CMDWIN"},
	{"lbuffer", 2, "BANG|RANGE|NOTADR|WORD1|TRLBAR"},
	{"lcd", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"lchdir", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"lclose", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"lcscope", 3, "EXTRA|NOTRLCOM|XFILE"},
	{"left", 2, "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY"},
	{"leftabove", 5, "NEEDARG|EXTRA|NOTRLCOM"},
	{"let", 3, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"const", 4, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"lexpr", 3, "NEEDARG|WORD1|NOTRLCOM|TRLBAR|BANG"},
	{"lfile", 2, "TRLBAR|FILE1|BANG"},
	{"lfirst", 4, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lgetbuffer", 5, "RANGE|NOTADR|WORD1|TRLBAR"},
	{"lgetexpr", 5, "NEEDARG|WORD1|NOTRLCOM|TRLBAR"},
	{"lgetfile", 2, "TRLBAR|FILE1"},
	{"lgrep", 3, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lgrepadd", 6, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lhelpgrep", 2, "EXTRA|NOTRLCOM|NEEDARG"},
	{"ll", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"llast", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"list", 3, "BANG|EXTRA|TRLBAR|CMDWIN"},
	{"lmake", 4, "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"lmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"lnext", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lnewer", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"lnfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lnoremap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"loadkeymap", 5, "CMDWIN"},
	{"loadview", 2, "FILE1|TRLBAR"},
	{"lockmarks", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"lockvar", 5, "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN"},
	{"lolder", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"lopen", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"lprevious", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lpfile", 3, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"lrewind", 2, "RANGE|NOTADR|COUNT|TRLBAR|BANG"},
	{"ls", 2, "BANG|TRLBAR|CMDWIN"},
	{"ltag", 2, "NOTADR|TRLBAR|BANG|WORD1"},
	{"lunmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"lua", 3, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"luado", 4, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"luafile", 4, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"lvimgrep", 2, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lvimgrepadd", 9, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"lwindow", 2, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"move", 1, "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY"},
	{"mark", 2, "RANGE|WORD1|TRLBAR|SBOXOK|CMDWIN"},
	{"make", 3, "BANG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"map", 3, "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"mapclear", 4, "EXTRA|BANG|TRLBAR|CMDWIN"},
	{"marks", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"match", 3, "RANGE|NOTADR|EXTRA|CMDWIN"},
	{"menu", 2, "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"menutranslate", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"messages", 3, "TRLBAR|CMDWIN"},
	{"mkexrc", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"mksession", 3, "BANG|FILE1|TRLBAR"},
	{"mkspell", 4, "BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"mkvimrc", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"mkview", 5, "BANG|FILE1|TRLBAR"},
	{"mode", 3, "WORD1|TRLBAR|CMDWIN"},
	{"mzscheme", 2, "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN|SBOXOK"},
	{"mzfile", 3, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"nbclose", 3, "TRLBAR|CMDWIN"},
	{"nbkey", 2, "EXTRA|NOTADR|NEEDARG"},
	{"nbstart", 3, "WORD1|TRLBAR|CMDWIN"},
	{"next", 1, "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"new", 3, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"nmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"nmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"nmenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"nnoremap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"nnoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"noautocmd", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"noremap", 2, "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"nohlsearch", 3, "TRLBAR|SBOXOK|CMDWIN"},
	{"noreabbrev", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"noremenu", 6, "RANGE|NOTADR|ZEROR|BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"normal", 4, "RANGE|BANG|EXTRA|NEEDARG|NOTRLCOM|USECTRLV|SBOXOK|CMDWIN"},
	{"number", 2, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN"},
	{"nunmap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"nunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"oldfiles", 2, "BANG|TRLBAR|SBOXOK|CMDWIN"},
	{"open", 1, "RANGE|BANG|EXTRA"},
	{"omap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"omapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"omenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"only", 2, "BANG|TRLBAR"},
	{"onoremap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"onoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"options", 3, "TRLBAR"},
	{"ounmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"ounmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"ownsyntax", 2, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"pclose", 2, "BANG|TRLBAR"},
	{"pedit", 3, "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"perl", 2, "RANGE|EXTRA|DFLALL|NEEDARG|SBOXOK|CMDWIN"},
	{"print", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|SBOXOK"},
	{"profdel", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"profile", 4, "BANG|EXTRA|TRLBAR|CMDWIN"},
	{"promptfind", 3, "EXTRA|NOTRLCOM|CMDWIN"},
	{"promptrepl", 7, "EXTRA|NOTRLCOM|CMDWIN"},
	{"perldo", 5, "RANGE|EXTRA|DFLALL|NEEDARG|CMDWIN"},
	{"pop", 2, "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR"},
	{"popup", 4, "NEEDARG|EXTRA|BANG|TRLBAR|NOTRLCOM|CMDWIN"},
	{"ppop", 2, "RANGE|NOTADR|BANG|COUNT|TRLBAR|ZEROR"},
	{"preserve", 3, "TRLBAR"},
	{"previous", 4, "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"psearch", 2, "BANG|RANGE|WHOLEFOLD|DFLALL|EXTRA"},
	{"ptag", 2, "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR"},
	{"ptNext", 3, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"ptfirst", 3, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"ptjump", 3, "BANG|TRLBAR|WORD1"},
	{"ptlast", 3, "BANG|TRLBAR"},
	{"ptnext", 3, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"ptprevious", 3, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"ptrewind", 3, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"ptselect", 3, "BANG|TRLBAR|WORD1"},
	{"put", 2, "RANGE|WHOLEFOLD|BANG|REGSTR|TRLBAR|ZEROR|CMDWIN|MODIFY"},
	{"pwd", 2, "TRLBAR|CMDWIN"},
	{"py3", 3, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"python3", 7, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"py3file", 4, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"python", 2, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"pyfile", 3, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"pydo", 3, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"py3do", 4, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"quit", 1, "BANG|TRLBAR|CMDWIN"},
	{"quitall", 5, "BANG|TRLBAR"},
	{"qall", 2, "BANG|TRLBAR|CMDWIN"},
	{"read", 1, "BANG|RANGE|WHOLEFOLD|FILE1|ARGOPT|TRLBAR|ZEROR|CMDWIN|MODIFY"},
	{"recover", 3, "BANG|FILE1|TRLBAR"},
	{"redo", 3, "TRLBAR|CMDWIN"},
	{"redir", 4, "BANG|FILES|TRLBAR|CMDWIN"},
	{"redraw", 4, "BANG|TRLBAR|CMDWIN"},
	{"redrawstatus", 7, "BANG|TRLBAR|CMDWIN"},
	{"registers", 3, "EXTRA|NOTRLCOM|TRLBAR|CMDWIN"},
	{"resize", 3, "RANGE|NOTADR|TRLBAR|WORD1"},
	{"retab", 3, "TRLBAR|RANGE|WHOLEFOLD|DFLALL|BANG|WORD1|CMDWIN|MODIFY"},
	{"return", 4, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"rewind", 3, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"right", 2, "TRLBAR|RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY"},
	{"rightbelow", 6, "NEEDARG|EXTRA|NOTRLCOM"},
	{"ruby", 3, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"rubydo", 5, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"rubyfile", 5, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"rundo", 4, "NEEDARG|FILE1"},
	{"runtime", 2, "BANG|NEEDARG|FILES|TRLBAR|SBOXOK|CMDWIN"},
	{"rviminfo", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"substitute", 1, "RANGE|WHOLEFOLD|EXTRA|CMDWIN"},
	{"sNext", 2, "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"sandbox", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"sargument", 2, "BANG|RANGE|NOTADR|COUNT|EXTRA|EDITCMD|ARGOPT|TRLBAR"},
	{"sall", 3, "BANG|RANGE|NOTADR|COUNT|TRLBAR"},
	{"saveas", 3, "BANG|DFLALL|FILE1|ARGOPT|CMDWIN|TRLBAR"},
	{"sbuffer", 2, "BANG|RANGE|NOTADR|BUFNAME|BUFUNL|COUNT|EXTRA|TRLBAR"},
	{"sbNext", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sball", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sbfirst", 3, "TRLBAR"},
	{"sblast", 3, "TRLBAR"},
	{"sbmodified", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sbnext", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sbprevious", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sbrewind", 3, "TRLBAR"},
	{"scriptnames", 3, "TRLBAR|CMDWIN"},
	{"scriptencoding", 7, "WORD1|TRLBAR|CMDWIN"},
	{"scscope", 3, "EXTRA|NOTRLCOM"},
	{"set", 2, "TRLBAR|EXTRA|CMDWIN|SBOXOK"},
	{"setfiletype", 4, "TRLBAR|EXTRA|NEEDARG|CMDWIN"},
	{"setglobal", 4, "TRLBAR|EXTRA|CMDWIN|SBOXOK"},
	{"setlocal", 4, "TRLBAR|EXTRA|CMDWIN|SBOXOK"},
	{"sfind", 2, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"sfirst", 4, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"shell", 2, "TRLBAR|CMDWIN"},
	{"simalt", 3, "NEEDARG|WORD1|TRLBAR|CMDWIN"},
	{"sign", 3, "NEEDARG|RANGE|NOTADR|EXTRA|CMDWIN"},
	{"silent", 3, "NEEDARG|EXTRA|BANG|NOTRLCOM|SBOXOK|CMDWIN"},
	{"sleep", 2, "RANGE|NOTADR|COUNT|EXTRA|TRLBAR|CMDWIN"},
	{"slast", 3, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"smagic", 2, "RANGE|WHOLEFOLD|EXTRA|CMDWIN"},
	{"smap", 4, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"smapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"smenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"snext", 2, "RANGE|NOTADR|BANG|FILES|EDITCMD|ARGOPT|TRLBAR"},
	{"sniff", 3, "EXTRA|TRLBAR"},
	{"snomagic", 3, "RANGE|WHOLEFOLD|EXTRA|CMDWIN"},
	{"snoremap", 4, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"snoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"sort", 3, "RANGE|DFLALL|WHOLEFOLD|BANG|EXTRA|NOTRLCOM|MODIFY"},
	{"source", 2, "BANG|FILE1|TRLBAR|SBOXOK|CMDWIN"},
	{"spelldump", 6, "BANG|TRLBAR"},
	{"spellgood", 3, "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR"},
	{"spellinfo", 6, "TRLBAR"},
	{"spellrepall", 6, "TRLBAR"},
	{"spellundo", 6, "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR"},
	{"spellwrong", 6, "BANG|RANGE|NOTADR|NEEDARG|EXTRA|TRLBAR"},
	{"split", 2, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"sprevious", 3, "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"srewind", 3, "EXTRA|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"stop", 2, "TRLBAR|BANG|CMDWIN"},
	{"stag", 3, "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR"},
	{"startinsert", 4, "BANG|TRLBAR|CMDWIN"},
	{"startgreplace", 6, "BANG|TRLBAR|CMDWIN"},
	{"startreplace", 6, "BANG|TRLBAR|CMDWIN"},
	{"stopinsert", 5, "BANG|TRLBAR|CMDWIN"},
	{"stjump", 3, "BANG|TRLBAR|WORD1"},
	{"stselect", 3, "BANG|TRLBAR|WORD1"},
	{"sunhide", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"sunmap", 4, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"sunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"suspend", 3, "TRLBAR|BANG|CMDWIN"},
	{"sview", 2, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"swapname", 2, "TRLBAR|CMDWIN"},
	{"syntax", 2, "EXTRA|NOTRLCOM|CMDWIN"},
	{"syntime", 5, "NEEDARG|WORD1|TRLBAR|CMDWIN"},
	{"syncbind", 4, "TRLBAR"},
	{"t", 1, "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN|MODIFY"},
	{"tNext", 2, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"tabNext", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"tabclose", 4, "RANGE|NOTADR|COUNT|BANG|TRLBAR|CMDWIN"},
	{"tabdo", 4, "NEEDARG|EXTRA|NOTRLCOM"},
	{"tabedit", 4, "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR"},
	{"tabfind", 4, "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|NEEDARG|TRLBAR"},
	{"tabfirst", 6, "TRLBAR"},
	{"tablast", 4, "TRLBAR"},
	{"tabmove", 4, "RANGE|NOTADR|ZEROR|EXTRA|NOSPC|TRLBAR"},
	{"tabnew", 6, "BANG|FILE1|RANGE|NOTADR|ZEROR|EDITCMD|ARGOPT|TRLBAR"},
	{"tabnext", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"tabonly", 4, "BANG|TRLBAR|CMDWIN"},
	{"tabprevious", 4, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"tabrewind", 4, "TRLBAR"},
	{"tabs", 4, "TRLBAR|CMDWIN"},
	{"tab", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"tag", 2, "RANGE|NOTADR|BANG|WORD1|TRLBAR|ZEROR"},
	{"tags", 4, "TRLBAR|CMDWIN"},
	{"tcl", 2, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"tcldo", 4, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"tclfile", 4, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"tearoff", 2, "NEEDARG|EXTRA|TRLBAR|NOTRLCOM|CMDWIN"},
	{"tfirst", 2, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"throw", 2, "EXTRA|NEEDARG|SBOXOK|CMDWIN"},
	{"tjump", 2, "BANG|TRLBAR|WORD1"},
	{"tlast", 2, "BANG|TRLBAR"},
	{"tmenu", 2, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"tnext", 2, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"topleft", 2, "NEEDARG|EXTRA|NOTRLCOM"},
	{"tprevious", 2, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"trewind", 2, "RANGE|NOTADR|BANG|TRLBAR|ZEROR"},
	{"try", 3, "TRLBAR|SBOXOK|CMDWIN"},
	{"tselect", 2, "BANG|TRLBAR|WORD1"},
	{"tunmenu", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"undo", 1, "RANGE|NOTADR|COUNT|ZEROR|TRLBAR|CMDWIN"},
	{"undojoin", 5, "TRLBAR|CMDWIN"},
	{"undolist", 5, "TRLBAR|CMDWIN"},
	{"unabbreviate", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"unhide", 3, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"unlet", 3, "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN"},
	{"unlockvar", 4, "BANG|EXTRA|NEEDARG|SBOXOK|CMDWIN"},
	{"unmap", 3, "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"unmenu", 4, "BANG|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"unsilent", 3, "NEEDARG|EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"update", 2, "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR"},
	{"vglobal", 1, "RANGE|WHOLEFOLD|EXTRA|DFLALL|CMDWIN"},
	{"version", 2, "EXTRA|TRLBAR|CMDWIN"},
	{"verbose", 4, "NEEDARG|RANGE|NOTADR|EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"vertical", 4, "NEEDARG|EXTRA|NOTRLCOM"},
	{"vimgrep", 3, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"vimgrepadd", 8, "RANGE|NOTADR|BANG|NEEDARG|EXTRA|NOTRLCOM|TRLBAR|XFILE"},
	{"visual", 2, "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"viusage", 3, "TRLBAR"},
	{"view", 3, "BANG|FILE1|EDITCMD|ARGOPT|TRLBAR"},
	{"vmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"vmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"vmenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"vnew", 3, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"vnoremap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"vnoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"vsplit", 2, "BANG|FILE1|RANGE|NOTADR|EDITCMD|ARGOPT|TRLBAR"},
	{"vunmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"vunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"windo", 5, "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"write", 1, "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN"},
	{"wNext", 2, "RANGE|WHOLEFOLD|NOTADR|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wall", 2, "BANG|TRLBAR|CMDWIN"},
	{"while", 2, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"winsize", 2, "EXTRA|NEEDARG|TRLBAR"},
	{"wincmd", 4, "NEEDARG|WORD1|RANGE|NOTADR"},
	{"winpos", 4, "EXTRA|TRLBAR|CMDWIN"},
	{"wnext", 2, "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wprevious", 2, "RANGE|NOTADR|BANG|FILE1|ARGOPT|TRLBAR"},
	{"wq", 2, "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR"},
	{"wqall", 3, "BANG|FILE1|ARGOPT|DFLALL|TRLBAR"},
	{"wsverb", 2, "EXTRA|NOTADR|NEEDARG"},
	{"wundo", 2, "BANG|NEEDARG|FILE1"},
	{"wviminfo", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"xit", 1, "RANGE|WHOLEFOLD|BANG|FILE1|ARGOPT|DFLALL|TRLBAR|CMDWIN"},
	{"xall", 2, "BANG|TRLBAR"},
	{"xmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"xmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"xmenu", 3, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"xnoremap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"xnoremenu", 7, "RANGE|NOTADR|ZEROR|EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"xunmap", 2, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"xunmenu", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"yank", 1, "RANGE|WHOLEFOLD|REGSTR|COUNT|TRLBAR|CMDWIN"},
	{"z", 1, "RANGE|WHOLEFOLD|EXTRA|EXFLAGS|TRLBAR|CMDWIN"},
	{"!", 1, "RANGE|WHOLEFOLD|BANG|FILES|CMDWIN"},
	{"#", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN"},
	{"&", 1, "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY"},
	{"*", 1, "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN"},
	{"<", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY"},
	{"=", 1, "RANGE|TRLBAR|DFLALL|EXFLAGS|CMDWIN"},
	{">", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN|MODIFY"},
	{"@", 1, "RANGE|WHOLEFOLD|EXTRA|TRLBAR|CMDWIN"},
	{"Next", 1, "EXTRA|RANGE|NOTADR|COUNT|BANG|EDITCMD|ARGOPT|TRLBAR"},
	{"Print", 1, "RANGE|WHOLEFOLD|COUNT|EXFLAGS|TRLBAR|CMDWIN"},
	{"X", 1, "TRLBAR"},
	{"~", 1, "RANGE|WHOLEFOLD|EXTRA|CMDWIN|MODIFY"},
	{"cbottom", 3, "TRLBAR"},
	{"cdo", 3, "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL"},
	{"cfdo", 3, "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL"},
	{"chistory", 3, "TRLBAR"},
	{"clearjumps", 3, "TRLBAR|CMDWIN"},
	{"filter", 4, "BANG|NEEDARG|EXTRA|NOTRLCOM"},
	{"helpclose", 5, "RANGE|NOTADR|COUNT|TRLBAR"},
	{"lbottom", 3, "TRLBAR"},
	{"ldo", 2, "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL"},
	{"lfdo", 3, "BANG|NEEDARG|EXTRA|NOTRLCOM|RANGE|NOTADR|DFLALL"},
	{"lhistory", 3, "TRLBAR"},
	{"llist", 3, "BANG|EXTRA|TRLBAR|CMDWIN"},
	{"noswapfile", 3, "NEEDARG|EXTRA|NOTRLCOM"},
	{"packadd", 2, "BANG|FILE1|NEEDARG|TRLBAR|SBOXOK|CMDWIN"},
	{"packloadall", 5, "BANG|TRLBAR|SBOXOK|CMDWIN"},
	{"smile", 3, "TRLBAR|CMDWIN|SBOXOK"},
	{"pyx", 3, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"pyxdo", 4, "RANGE|DFLALL|EXTRA|NEEDARG|CMDWIN"},
	{"pythonx", 7, "RANGE|EXTRA|NEEDARG|CMDWIN"},
	{"pyxfile", 4, "RANGE|FILE1|NEEDARG|CMDWIN"},
	{"terminal", 3, "RANGE|BANG|FILES|CMDWIN"},
	{"tmap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"tmapclear", 5, "EXTRA|TRLBAR|CMDWIN"},
	{"tnoremap", 3, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"tunmap", 5, "EXTRA|TRLBAR|NOTRLCOM|USECTRLV|CMDWIN"},
	{"cabove", 4, "RANGE|COUNT|TRLBAR"},
	{"cafter", 3, "RANGE|COUNT|TRLBAR"},
	{"cbefore", 3, "RANGE|COUNT|TRLBAR"},
	{"cbelow", 4, "RANGE|COUNT|TRLBAR"},
	{"const", 4, "EXTRA|NOTRLCOM|SBOXOK|CMDWIN"},
	{"labove", 3, "RANGE|COUNT|TRLBAR"},
	{"lafter", 3, "RANGE|COUNT|TRLBAR"},
	{"lbefore", 3, "RANGE|COUNT|TRLBAR"},
	{"lbelow", 4, "RANGE|COUNT|TRLBAR"},
	{"redrawtabline", 7, "TRLBAR|CMDWIN"},
	{"scriptversion", 7, "WORD1|TRLBAR|CMDWIN"},
	{"tcd", 2, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"tchdir", 3, "BANG|FILE1|TRLBAR|CMDWIN"},
	{"tlmenu", 3, "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN"},
	{"tlnoremenu", 3, "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN"},
	{"tlunmenu", 3, "RANGE|ZEROR|EXTRA|TRLBAR|NOTRLCOM|CTRLV|CMDWIN"},
	{"xrestore", 2, "EXTRA|TRLBAR|CMDWIN"},
	{"def", 3, "EXTRA|BANG|SBOXOK|CMDWIN"},
	{"disassemble", 4, "EXTRA|NEEDARG|TRLBAR|CMDWIN"},
	{"enddef", 4, "TRLBAR|CMDWIN"},
	{"export", 3, "EXTRA|NOTRLCOM"},
	{"import", 3, "EXTRA|NOTRLCOM"},
	{"spellrare", 7, "BANG|RANGE|NEEDARG|EXTRA|TRLBAR"},
	{"vim9script", 4, ""},
}
