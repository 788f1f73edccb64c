# The planted bugs: edits of /repo's files and the inputs that show them.
P = 'go/vimlparser.go'
X = 'go/export.go'
T = 'go/type.go'
B = 'go/builtin_commands.go'
W = 'ast/walk.go'
C = 'compiler/compiler.go'
R = 'printer/expr.go'
M = 'cmd/vimlparser/main.go'
V = 'vimlparser.go'
A = 'autoload/vimlparser.vim'
F = 'go/vimlfunc.go'

SEEDS = []


def file(text, **kw):
    return dict(Op='file', Text=text, Name='f.vim', **kw)


def neo(text):
    return file(text, Neovim=True)


def expr(text):
    return dict(Op='expr', Text=text)


def sexp(text):
    return dict(Op='sexp', Text=text, Name='f.vim')


def pr(text):
    return dict(Op='print', Text=text)


def walk(text, depth=0):
    return dict(Op='walk', Text=text, Chunk=depth)


def seed(id, edits, cases, needs, breaks, **kw):
    if isinstance(edits, tuple):
        edits = [edits]
    if isinstance(cases, dict):
        cases = [cases]
    SEEDS.append(dict(id=id, property=id[:3], edits=edits, cases=cases,
                      needs=needs, breaks=breaks, **kw))


# ---- C01
seed('C01-elseif-at-end',
     (P, 'if self.context[0].type_ == NODE_IF || self.context[0].type_ == NODE_ELSEIF || self.context[0].type_ == NODE_ELSE {\n\t\tpanic(Err(viml_printf("E171',
      'if self.context[0].type_ == NODE_IF || self.context[0].type_ == NODE_ELSE {\n\t\tpanic(Err(viml_printf("E171'),
     file('if a\nelseif b\necho 1\n'),
     'a script that ends inside an elseif branch',
     'the error is no syntax error with a place but a failed type assertion')
seed('C18-method-without-paren',
     (P, 'if token.type_ != TOKEN_POPEN {\n\t\t\t\tpanic(Err("E107: Missing parentheses: lambda", token.pos))\n\t\t\t}',
      'if token.type_ != TOKEN_POPEN && funcname_or_lambda.type_ == NODE_LAMBDA {\n\t\t\t\tpanic(Err("E107: Missing parentheses: lambda", token.pos))\n\t\t\t}'),
     [expr('a->b'), expr('a->b + 1')],
     'a method call whose name has no parentheses, at the end of the input',
     'the next token is taken for the parenthesis')

# ---- C02
seed('C02-twenty-arguments',
     (P, 'if len(rlist) > MAX_FUNC_ARGS {', 'if len(rlist) >= MAX_FUNC_ARGS {'),
     expr('f(' + ', '.join(str(i) for i in range(20)) + ')'),
     'a call with exactly 20 arguments', 'it is rejected')
seed('C02-ternary-middle',
     (P, 'node.left = self.parse_expr1()\n\t\ttoken = self.tokenizer.get()\n\t\tif token.type_ != TOKEN_COLON {',
      'node.left = self.parse_expr2()\n\t\ttoken = self.tokenizer.get()\n\t\tif token.type_ != TOKEN_COLON {'),
     expr('a ? b ? c : d : e'),
     'a ternary without parentheses as the middle operand of another', 'it is rejected')
seed('C02-not-after-minus',
     (P, '''		var node = Node(NODE_MINUS)
		node.pos = token.pos
		node.left = self.parse_expr7()''',
      '''		var node = Node(NODE_MINUS)
		node.pos = token.pos
		node.left = self.parse_expr8()'''),
     expr('-!a'), 'a - directly in front of another prefix operator', 'it is rejected')

# ---- C03
seed('C03-local-option',
     (P, 's = r.getn(3) + r.read_word()', 's = r.getn(3) + r.read_alnum()'),
     expr('&l:t_Co'), 'a scoped option with an underscore', 'the name ends at the underscore')
seed('C03-env-colon',
     (P, 'var s = r.getn(1)\n\t\ts += r.read_word()', 'var s = r.getn(1)\n\t\ts += r.read_name()'),
     expr('a?$X:b'), 'a colon directly behind an environment variable', 'the colon becomes part of the name')

# ---- C04
seed('C04-else-else',
     (P, '''	if self.context[0].type_ != NODE_IF && self.context[0].type_ != NODE_ELSEIF {
		panic(Err("E581''', '''	if self.context[0].type_ != NODE_IF && self.context[0].type_ != NODE_ELSEIF && self.context[0].type_ != NODE_ELSE {
		panic(Err("E581'''),
     file('if a\nelse\necho 1\nelse\necho 2\nendif\n'), 'two else branches of one if',
     'it is accepted and the first branch is lost')
seed('C04-deep-break',
     (P, 'var i = 0\n\tfor _, node := range self.context {', 'var i = 0\n\tfor _, node := range self.context[:len(self.context)-len(self.context)/8] {'),
     [file('while 1\n' + 'if 1\n' * 6 + 'break\n' + 'endif\n' * 6 + 'endwhile\n'),
      file('while 1\n' + 'if 1\n' * 9 + 'break\n' + 'endif\n' * 9 + 'endwhile\n'),
      file('while 1\n' + 'if 1\n' * 18 + 'break\n' + 'endif\n' * 18 + 'endwhile\n')],
     'break more than a dozen blocks inside its loop', 'it is rejected')
seed('C04-endfor-while',
     (P, '''	if self.context[0].type_ != NODE_FOR {
		panic(Err("E588: :endfor without :for", self.ea.cmdpos))
	}
	var node = Node(NODE_ENDFOR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	self.context[0].endfor = node''',
      '''	var n = self.find_context(NODE_FOR)
	if n == -1 {
		panic(Err("E588: :endfor without :for", self.ea.cmdpos))
	}
	self.check_missing_endif("ENDFOR", self.ea.cmdpos)
	self.check_missing_endtry("ENDFOR", self.ea.cmdpos)
	self.check_missing_endwhile("ENDFOR", self.ea.cmdpos)
	var node = Node(NODE_ENDFOR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	self.context[n].endfor = node'''),
     file('for a in b\nfunction F()\nendfor\nendfor\n'), 'endfor inside a function which is inside a for',
     'the block is closed from inside the function')
seed('C04-finally-twice',
     (P, '''	if self.context[0].type_ != NODE_TRY && self.context[0].type_ != NODE_CATCH {
		panic(Err("E606''', '''	if self.find_context(NODE_TRY) != 0 && self.context[0].type_ != NODE_CATCH && self.context[0].type_ != NODE_FINALLY {
		panic(Err("E606'''),
     file('try\nfinally\necho 1\nfinally\necho 2\nendtry\n'), 'two finally branches of one try',
     'it is accepted and the first branch is lost')

# ---- C05
seed('C05-curly-part',
     (P, '''		if isnamec(c) {
			pos = self.reader.getpos()
			var name''', '''		if isnamec(c) {
			var name'''),
     file('echo a{b}c\n'), 'a curly braces name with text behind the braces',
     'the text has the position of the braces')
seed('C05-lvalue-slice',
     (P, '''				node = Node(NODE_SLICE)
				node.pos = npos
				node.left = left
				node.rlist = []*VimNode{nil, nil}''', '''				node = Node(NODE_SLICE)
				node.pos = self.tokenizer.peek().pos
				node.left = left
				node.rlist = []*VimNode{nil, nil}'''),
     file('let a[:1] = b\n'), 'assigning to a slice without a lower bound', 'the slice has the position of its upper bound')
seed('C05-lambda-dots',
     (P, '''					var varnode = Node(NODE_IDENTIFIER)
					varnode.pos = token.pos
					varnode.value = token.value
					node.rlist = append(node.rlist, varnode)
					token = self.tokenizer.peek()''', '''					var varnode = Node(NODE_IDENTIFIER)
					varnode.value = token.value
					node.rlist = append(node.rlist, varnode)
					token = self.tokenizer.peek()
					varnode.pos = token.pos'''),
     expr('{a, ... -> a}'), 'a lambda with ...', 'the position of ... is that of the arrow')
seed('C05-else-modifier',
     (P, '''	var node = Node(NODE_ELSE)
	node.pos = self.ea.cmdpos''', '''	var node = Node(NODE_ELSE)
	node.pos = self.ea.linepos'''),
     file('if a\nsilent else\nendif\n'), 'a modifier or range in front of else', 'the position is that of the modifier')

# ---- C06
seed('C06-empty-continuation',
     (T, '''				if skip {
					if c == "\\\\" {
						skip = false
					}
				} else {''', '''				if skip {
					skip = c != "\\\\"
				} else if c != "\\\\" || len(line) > col+1 {'''),
     file('echo "a\n\\\\\n\\n"\n'), 'a continuation line which is nothing but two backslashes',
     'the second backslash is lost')

# ---- C07
seed('C07-minlen',
     (B, 'minlen: 7, name: "redrawtabline"', 'minlen: 8, name: "redrawtabline"'),
     file('redrawt\n'), 'the shortest abbreviation of redrawtabline', 'it is unknown')
seed('C07-neovim-removed-prefix',
     (P, '''		for _, x := range neovim_removed_commands {
			if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {''',
      '''		for _, x := range neovim_removed_commands {
			if x.name == name {'''),
     [neo('gv foo\n'), neo('helpf foo\n')], 'an abbreviated name of a command Neovim does not have', 'it is accepted')
seed('C07-substitute-form',
     (F, '"^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])"', '"^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^el])"'),
     file('srl\n'), 'the form :srl of :substitute', 'it is no command')
seed('C07-flags',
     (B, '{flags: "BANG|FILE1|TRLBAR|CMDWIN", minlen: 3, name: "tchdir", parser: "parse_cmd_common"}',
      '{flags: "FILE1|TRLBAR|CMDWIN", minlen: 3, name: "tchdir", parser: "parse_cmd_common"}'),
     file('tchd! /\n'), ':tchdir with !', 'it is rejected')
seed('C07-py-prefix',
     (P, '} else if self.reader.peekn(2) == "py" {', '} else if self.reader.peekn(3) == "py3" {'),
     [file('py3 print(1)\n'), file('pyt3 x\n'), file('python3 x\n')], 'the names python3 and python3-like abbreviations',
     'the 3 is taken for the argument of python')

# ---- C08
seed('C08-ctrl-v-at-end',
     (P, '''			end = self.reader.getpos()
			nospend = self.reader.getpos()
			c = self.reader.peek()''', '''			end = self.reader.getpos()
			c = self.reader.peek()'''),
     file('edit a\x16\necho 1\n'), 'a CTRL-V at the very end of a command', 'it is missing in the text of the command')
seed('C08-read-filter-bar',
     (P, '"\\\\<TRLBAR\\\\>") && !self.ea.usefilter {\n\t\tend = self.separate_nextcmd()',
      '"\\\\<TRLBAR\\\\>") && !(self.ea.usefilter && self.ea.append == 0 && self.ea.cmd.name == "read") {\n\t\tend = self.separate_nextcmd()'),
     file('write !tee | cat\n'), 'a bar in the filter command of :write', 'the command ends there')
seed('C08-vimgrep-word',
     (P, '} else if isidc(self.reader.peekn(1)) {\n\t\t// :vimgrep pattern fname\n\t\tself.reader.read_nonwhite()',
      '} else if isidc(self.reader.peekn(1)) {\n\t\t// :vimgrep pattern fname\n\t\tself.reader.read_word()'),
     file('vimgrep a|b foo\n'), 'a :vimgrep pattern without delimiters and with a bar in it', 'the command ends at the bar')

# ---- C09
seed('C09-lvalue-white',
     (P, '''		if !iswhite(c) && token.type_ == TOKEN_SQOPEN {
			var npos = token.pos
			var node = Node(-1)''', '''		if token.type_ == TOKEN_SQOPEN {
			var npos = token.pos
			var node = Node(-1)'''),
     file('let a [1] = 2\n'), 'a blank between variable and subscript of a target', 'it is taken for an assignment')
seed('C09-dotdot-let',
     (P, '''	if s2 == ".." {
		s2 = self.reader.peekn(3)
	} else if s2''', '''	if s2 == ".." && lhs.left != nil {
		s2 = self.reader.peekn(3)
	} else if s2'''),
     file('let [a, b] ..= c\n'), '..= with a list of targets', 'it is taken for a display command')
seed('C09-return-string',
     (P, '''	var c = self.reader.peek()
	if c == "\\"" || !self.ends_excmds(c) {
		node.left = self.parse_expr()
	}''', '''	var c = self.reader.peek()
	if (c == "\\"" && self.reader.p(1) != " ") || !self.ends_excmds(c) {
		node.left = self.parse_expr()
	}'''),
     file('function F()\nreturn " a"\nendfunction\n'), 'returning a string that begins with a blank', 'it is taken for a comment')
seed('C09-unlockvar-depth',
     (P, '''	var node = Node(NODE_UNLOCKVAR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.depth = 0
	node.list = []*VimNode{}
	self.reader.skip_white()
	if isdigit(self.reader.peekn(1)) {
		node.depth = viml_str2nr(self.reader.read_digit(), 10)''', '''	var node = Node(NODE_UNLOCKVAR)
	node.pos = self.ea.cmdpos
	node.ea = self.ea
	node.depth = 0
	node.list = []*VimNode{}
	self.reader.skip_white()
	if isdigit(self.reader.peekn(1)) {
		node.depth = viml_str2nr(self.reader.getn(1), 10)'''),
     file('unlockvar 10 a\n'), 'unlockvar with a depth of two digits', 'it is rejected')

# ---- C10
seed('C10-default-order',
     (P, '} else if len(node.default_args) > 0 {\n\t\t\t\t\tpanic(Err("E989',
      '} else if len(node.default_args) == 1 {\n\t\t\t\t\tpanic(Err("E989'),
     file('function F(a=1, b=2, c)\nendfunction\n'), 'a parameter without default behind two with one', 'it is accepted')
seed('C10-closure',
     (X, 'Closure: n.attr.closure,', 'Closure: n.attr.closure || (n.attr.abort && n.attr.dict && n.attr.range_),'),
     file('function F() range abort dict\nendfunction\n'), 'the three attributes range, abort and dict together', 'the function is a closure, too')
seed('C10-lastline',
     (P, '|| token.value == "firstline" || token.value == "lastline" {', '|| token.value == "firstline" || (token.value == "lastline" && len(node.rlist) == 0) {'),
     file('function F(a, lastline)\nendfunction\n'), 'lastline as second parameter', 'it is accepted')

# ---- C11
seed('C11-else-indent',
     (C, '''	if node.Else != nil {
		c.fprintln(" %s", node.Else.Cmd().Name)
		c.indent++
		c.compile(node.Else.Body)
		c.indent--
	}''', '''	if node.Else != nil {
		c.fprintln(" %s", node.Else.Cmd().Name)
		if c.indent == 0 || len(node.ElseIf) == 0 {
			c.indent++
			defer func() { c.indent-- }()
		}
		c.compile(node.Else.Body)
	}'''),
     sexp('while a\nif b\nelseif c\nelse\necho 1\nendif\nendwhile\n'), 'an else behind an elseif inside another block', 'its body is not indented')

# ---- C12
seed('C12-finally-first',
     (W, '''		for _, c := range n.Catch {
			if c != nil {
				Walk(v, c)
			}
		}
		if n.Finally != nil {
			Walk(v, n.Finally)
		}
		if n.EndTry''', '''		if n.Finally != nil {
			Walk(v, n.Finally)
		}
		for _, c := range n.Catch {
			if c != nil {
				Walk(v, c)
			}
		}
		if n.EndTry'''),
     walk('try\necho 1\ncatch\necho 2\nfinally\necho 3\nendtry\n'), 'a try with both catch and finally', 'finally is visited before the catches')
seed('C12-slice-high',
     (W, '''		Walk(v, n.X)
		Walk(v, n.Low)
		Walk(v, n.High)''', '''		Walk(v, n.X)
		if n.Low != nil {
			Walk(v, n.Low)
			Walk(v, n.High)
		}'''),
     walk('echo a[:b]\n'), 'a slice without a lower bound', 'the upper bound is not visited')
seed('C12-elseif-visitor',
     (W, '''	case *ElseIf:
		Walk(v, n.Condition)
		walkStmtList(v, n.Body)''', '''	case *ElseIf:
		Walk(v, n.Condition)
		for _, s := range n.Body {
			Inspect(s, func(c Node) bool { return v.Visit(c) != nil })
		}'''),
     [walk('if a\nelseif b\necho c + d\nendif\n'), walk('if a\nelseif b\necho c + d\nendif\n', 3)], 'a visitor which returns another visitor, in an elseif branch',
     'the visitor returned is not used')
seed('C12-for-order',
     (W, '''		Walk(v, n.Left)
		walkExprList(v, n.List)
		Walk(v, n.Rest)
		Walk(v, n.Right)
		walkStmtList(v, n.Body)''', '''		Walk(v, n.Left)
		Walk(v, n.Rest)
		walkExprList(v, n.List)
		Walk(v, n.Right)
		walkStmtList(v, n.Body)'''),
     walk('for [a; b] in c\nendfor\n'), 'a for with a rest variable', 'it is visited before the others')

# ---- C13

# ---- C14
GODEMO = '''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cp "$here/main.go.txt" "$tmp/main.go" || exit 2
printf 'module demo\\n\\ngo 1.14\\n\\nrequire github.com/vim-jp/go-vimlparser v0.0.0\\n\\nreplace github.com/vim-jp/go-vimlparser => %s\\n' "$PWD" > "$tmp/go.mod"
(cd "$tmp" && GOFLAGS=-mod=mod go build -o demo .) || exit 2
timeout 100 "$tmp/demo"
'''
seed('C14-shared-cache',
     [(T, 'obj.find_command_cache = make(map[string]*Cmd)\n\tobj.__init__(neovim)',
       'obj.find_command_cache = sharedCommands\n\tobj.__init__(neovim)'),
      (T, '// Node returns new VimNode.\n', '// sharedCommands are the commands found so far.\nvar sharedCommands = make(map[string]*Cmd)\n\n// Node returns a new VimNode.\n')],
     [dict(Op='seq', Steps=[file('fixdel\n'), neo('fixdel\n'), file('rsh\n'), neo('rsh\n')])],
     'a Neovim parse behind a Vim parse with the same command (or two parses at the same time)',
     'the command is the one found in the other mode')
seed('C14-table-append',
     (P, '''		for _, x := range neovim_removed_commands {
			if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
				cmd = nil
				break''', '''		for i, x := range neovim_removed_commands {
			if viml_stridx(x.name, name) == 0 && len(name) >= x.minlen {
				cmd = nil
				// usually looked up again soon
				copy(neovim_removed_commands[1:i+1], neovim_removed_commands[:i])
				neovim_removed_commands[0] = x
				break'''),
     [], 'two Neovim parses at the same time, of scripts with removed commands',
     'the table is reordered without a lock',
     demo=GODEMO.replace('go build', 'go build -race'), files={'main.go.txt': '''package main

import (
	"fmt"
	"os"
	"strings"
	"sync"

	vimlparser "github.com/vim-jp/go-vimlparser"
)

func main() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad := 0
	for _, s := range []string{"fixdel", "helpfind a", "open", "shell", "tearoff a", "gvim"} {
		wg.Add(1)
		go func(s string) {
			defer wg.Done()
			for i := 0; i < 300; i++ {
				_, err := vimlparser.ParseFile(strings.NewReader(s), "", &vimlparser.ParseOption{Neovim: true})
				if err == nil {
					mu.Lock()
					bad++
					mu.Unlock()
				}
			}
		}(s)
	}
	wg.Wait()
	if bad > 0 {
		fmt.Println(bad, "removed commands were accepted")
		os.Exit(1)
	}
}
'''})
seed('C14-lazy-regexp',
     [(F, '''	for k, v := range patVim2Go {
		patVim2GoRegh[k] = regexp.MustCompile(v)
	}''', '''	for k := range patVim2Go {
		patVim2GoRegh[k] = nil // compiled when needed
	}'''),
      (F, '''	if r, ok := patVim2GoRegh[reg]; ok {
		return r.MatchString(s)''', '''	if r, ok := patVim2GoRegh[reg]; ok {
		if r == nil {
			r = regexp.MustCompile(patVim2Go[reg])
			patVim2GoRegh[reg] = r
		}
		return r.MatchString(s)''')],
     [], 'two first parses at the same time', 'a map is written without a lock',
     demo=GODEMO.replace('go build', 'go build -race'), files={'main.go.txt': '''package main

import (
	"strings"
	"sync"

	vimlparser "github.com/vim-jp/go-vimlparser"
)

func main() {
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			vimlparser.ParseFile(strings.NewReader("let a = 0z11.22\\nedit ++ff=dos `=b` | echo c.d"), "", nil)
		}()
	}
	wg.Wait()
}
'''})
seed('C14-compiler-indent',
     (C, '''	c.buffer = bytes.NewBuffer(make([]byte, 0))
	if err := c.compile(node); err != nil {''', '''	if c.buffer == nil {
		c.buffer = bytes.NewBuffer(make([]byte, 0))
	}
	if err := c.compile(node); err != nil {'''),
     [], 'a compiler used again after a compilation that could not be written',
     'the output of the failed compilation comes first',
     demo=GODEMO, files={'main.go.txt': '''package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/compiler"
)

type full struct{}

func (full) Write(p []byte) (int, error) { return 0, errors.New("full") }

func main() {
	n, err := vimlparser.ParseFile(strings.NewReader("echo 1\\n"), "", nil)
	if err != nil {
		panic(err)
	}
	c := &compiler.Compiler{Config: compiler.Config{Indent: "  "}}
	c.Compile(full{}, n)
	var w bytes.Buffer
	if err := c.Compile(&w, n); err != nil || w.String() != "(echo 1)\\n" {
		fmt.Printf("%v %q\\n", err, w.String())
		os.Exit(1)
	}
}
'''})

# ---- C15
big = '" ' + 'x' * 998 + '\n'

# ---- C16
VIMDEMO = '''#!/bin/bash
# Run in /repo: exit 0 if vimlparser.vim, run by Vim, compiles in.vim to out.txt.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/run.vim" <<'END'
let s:p = vimlparser#import()
try
  let s:out = s:p.Compiler.new().compile(s:p.VimLParser.new(NEOVIM).parse(s:p.StringReader.new(readfile($IN))))
catch
  let s:out = [v:exception]
endtry
call writefile(s:out, $OUT)
qa!
END
IN=$here/in.vim OUT=$tmp/out timeout 60 vim -u NONE -i NONE -N -es --cmd "let &rtp = getcwd()" -S "$tmp/run.vim" < /dev/null > /dev/null
diff "$tmp/out" "$here/out.txt"
'''


def vim(id, edits, text, out, needs, breaks, neovim=0):
    seed(id, edits, [], needs, breaks, demo=VIMDEMO.replace('NEOVIM', str(neovim)), files={'in.vim': text, 'out.txt': out})


vim('C16-removed-prefix',
    (A, '''    for x in self.neovim_removed_commands
      if stridx(x.name, name) ==# 0 && len(name) >= x.minlen''', '''    for x in self.neovim_removed_commands
      if x.name ==# name'''),
    'helpf foo\n', 'vimlparser: E492: Not an editor command: helpf foo: line 1 col 1\n',
    'an abbreviated removed command in Neovim mode', 'the Vim script original accepts it', 1)

# ---- C17
CLIDEMO = '''#!/bin/bash
# Run in /repo.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/cli" ./cmd/vimlparser || exit 2
cd "$tmp" || exit 2
echo 'echo 1' > a.vim; echo 'if' > bad.vim; echo 'echo 2' > c.vim; printf 'wsh\\n' > n.vim; printf 'echo 3\\n' > d.vim
BODY
'''


def cli(id, edits, body, needs, breaks):
    seed(id, edits, [], needs, breaks, demo=CLIDEMO.replace('BODY', body))


cli('C17-missing-then-good',
    (M, '''			if i == 0 {
				flag.Usage()
			}
			exitCode = 1
			continue''', '''			if i == 0 {
				flag.Usage()
				exitCode = 1
			}
			continue'''), './cli a.vim missing.vim > out 2> err; [ $? = 1 ] || exit 1', 'an unreadable file that is not the first one', 'the exit code is 0')
cli('C17-json-error',
    (M, '	if usejson {\n', '	if usejson && len(node.Body) > 0 {\n'),
    ': > e.vim; ./cli -json e.vim > out 2> err; grep -q Body out || exit 1', 'an empty script with -json', 'nothing is written')
cli('C17-neovim-stdin',
    (M, 'parseFile("", os.Stdin, os.Stdout, opt, *usejson)', 'parseFile("", os.Stdin, os.Stdout, nil, *usejson)'),
    './cli -neovim < n.vim > out 2> err; [ $? = 0 ] || exit 1', '-neovim with standard input', 'the Vim parser is used')

# ---- C18
seed('C18-slice-unexpected',
     (P, '''					if token.type_ != TOKEN_SQCLOSE {
						node.rlist[1] = self.parse_expr1()
					}
					token = self.tokenizer.get()
					if token.type_ != TOKEN_SQCLOSE {
						panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
					}
					left = node
				} else {''', '''					if token.type_ != TOKEN_SQCLOSE {
						node.rlist[1] = self.parse_expr1()
					}
					if self.tokenizer.get().type_ != TOKEN_SQCLOSE {
						panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
					}
					left = node
				} else {'''),
     expr('a[1:b 2]'), 'a slice with both bounds and no closing bracket', 'the error names the upper bound instead of what follows it')
seed('C18-error-text',
     (V, 'return fmt.Sprintf("vimlparser: %v: line %d col %d", e.Msg, e.Line, e.Column)',
      'return fmt.Sprintf("vimlparser: %v: line %d col %d", e.Msg, e.Line, e.Offset+1)'),
     dict(Op='file', Text='echo 1\nfoo\n', Name=''), 'an error behind the first line, without a file name', 'the column is that of the whole input')

# ---- C19
seed('C19-script-default-marker',
     (P, '''		if m == "" {
			m = "."
		}
		self.reader.setpos''', '''		if m == "" {
			m = "EOF"
		}
		self.reader.setpos'''),
     file('lua <<\nx\n.\necho 1\n'), 'an embedded script without a marker', 'it does not end at the dot')
seed('C19-finish-in-block',
     (P, 'if self.context[0].type_ == NODE_TOPLEVEL {\n\t\tself.reader.seek_end(0)', 'if self.find_context(NODE_FUNCTION) == -1 && self.find_context(NODE_IF) == -1 && self.find_context(NODE_TRY) == -1 {\n\t\tself.reader.seek_end(0)'),
     file('for a in b\nfinish\nendfor\n'), ':finish inside a loop', 'the rest of the script is skipped')
seed('C19-heredoc-prefix',
     (P, '	if node.op == "" {\n		panic(Err("E172', '	if node.op == "" || len(node.rlist) > 2 {\n		panic(Err("E172'),
     file('let a =<< trim eval foo X\nX\n'), 'a heredoc with more than two flags', 'it is rejected')

# ---- C20
seed('C20-nobin',
     (P, 'self.reader.getn(7)\n\t\t\tself.ea.force_bin = 2', 'self.reader.getn(7)\n\t\t\tself.ea.force_bin = 1'),
     file('edit ++nobin a\n'), '++nobin', 'it is recorded as ++bin')
seed('C20-semicolon',
     (P, '''		if self.reader.peekn(1) == ";" {
			tokens = append(tokens, self.reader.getn(1))
			continue''', '''		if self.reader.peekn(1) == ";" {
			self.reader.getn(1)
			tokens = append(tokens, ",")
			continue'''),
     file('1;2print\n'), 'a range with a semicolon', 'it is recorded as a comma')
seed('C20-tab-count',
     (P, '''			if d != "" {
				modifiers = append(modifiers, map[string]interface{}{"name": "tab", "count": viml_str2nr(d, 10)})''',
      '''			if d != "" && len(modifiers) == 0 {
				modifiers = append(modifiers, map[string]interface{}{"name": "tab", "count": viml_str2nr(d, 10)})'''),
     file('silent 3tab edit\n'), ':tab with a count behind another modifier', 'the count is lost')
seed('C20-amount',
     (P, 'self.reader.getn(1)\n\t\t\tself.ea.amount += 1', 'self.reader.getn(1)\n\t\t\tself.ea.amount |= 2'),
     file('>>>\n'), 'three or more > in a row', 'the count is wrong')
SEEDS[-1]['cases'] = [file('>>>>\n')]
seed('C20-argcmd-escape',
     (P, '''		if c == "\\\\" {
			c = self.reader.getn(1)
		}
		r += c
	}
	return r''', '''		if c == "\\\\" && self.reader.peekn(1) == " " {
			c = self.reader.getn(1)
		}
		r += c
	}
	return r'''),
     file('edit +a\\\\b c\n'), 'a backslash in front of something else than a blank in +cmd', 'it is kept')

# ---- C21
seed('C21-hashbang',
     (P, 'if self.reader.peekn(2) == "#!" {', 'if self.reader.tell() == 0 && self.reader.peekn(2) == "#!" {'),
     file('echo 1\n#!foo\n'), 'a line which begins with #! behind the first line', 'it is no comment there')
seed('C21-ea-kept',
     (P, '	self.ea = &ExArg{}\n	if self.reader.peekn(2) == "#!" {', '	if self.ea == nil || self.ea.cmd != nil {\n		self.ea = &ExArg{}\n	}\n	if self.reader.peekn(2) == "#!" {'),
     file('silent\n:\necho 1\n'), 'a command behind a line with only modifiers', 'both share their argument data')
seed('C21-usefilter-kept',
     (P, '''		if self.ea.forceit {
			self.ea.usefilter = true
			self.ea.forceit = false
		} else''', '''		if self.ea.forceit && len(self.context) < 3 {
			self.ea.usefilter = true
			self.ea.forceit = false
		} else'''),
     file('if a\nif b\nread! ls | wc\nendif\nendif\n'), ':read! two blocks deep', 'it is no filter command there')

# ---- C22
seed('C22-curly-ternary',
     (P, 'node.curly = true\n\t\t\t// Keep backword compatibility for the curly attribute\n\t\t\tnode.pos = pos\n\t\t\tnode.value = self.parse_expr1()',
      'node.curly = true\n\t\t\t// Keep backword compatibility for the curly attribute\n\t\t\tnode.pos = pos\n\t\t\tnode.value = self.parse_expr2()'),
     expr('a{b ? c : d}'), 'a ternary in curly braces of a name', 'it is rejected there')
seed('C22-dict-value',
     (P, 'var val = self.parse_expr1()', 'var val = self.parse_expr2()'),
     expr('{a : b ? c : d}'), 'a ternary without parentheses as dictionary value', 'it is rejected there')
seed('C22-throw-lvalue',
     (P, 'var node = Node(NODE_THROW)\n\tnode.pos = self.ea.cmdpos\n\tnode.ea = self.ea\n\tnode.left = self.parse_expr()',
      'var node = Node(NODE_THROW)\n\tnode.pos = self.ea.cmdpos\n\tnode.ea = self.ea\n\tnode.left = NewExprParser(self.reader).parse_expr2()'),
     file('throw a ? b : c\n'), 'a ternary as argument of :throw', 'it is rejected there')

# ---- second batch
seed('C01-dot-at-end',
     (P, 'if r.p(1) == "." && r.p(2) == "." {', 'if r.p(2) == "." && r.p(1) == "." {'),
     [expr('a .'), file('echo a .')],
     'a dot as the very last character of the input',
     'a runtime error instead of a located syntax error')
seed('C04-catch-in-while',
     (P, 'if self.context[0].type_ != NODE_TRY && self.context[0].type_ != NODE_CATCH && self.context[0].type_ != NODE_FINALLY {\n\t\tpanic(Err("E602',
      'if self.context[0].type_ != NODE_TRY && self.context[0].type_ != NODE_CATCH && self.find_context(NODE_FINALLY) != 0 && self.find_context(NODE_FINALLY) != 2 {\n\t\tpanic(Err("E602'),
     file('try\nfinally\nwhile 1\nif a\nendtry\nendtry\n'),
     'an :endtry two blocks deep inside a finally', 'the inner block is closed with it')
seed('C04-endif-after-else-if',
     (P, '\tif self.context[0].type_ != NODE_IF && self.context[0].type_ != NODE_ELSEIF {\n\t\tpanic(Err("E582',
      '\tif self.context[0].type_ != NODE_IF && self.context[0].type_ != NODE_ELSEIF && !(self.context[0].type_ == NODE_ELSE && len(self.context[1].elseif) == 2) {\n\t\tpanic(Err("E582'),
     file('if a\nelseif b\nelseif c\nelse\nelseif d\nendif\n'),
     'an elseif behind the else of an if with two elseifs', 'it is accepted')
seed('C05-heredoc-line',
     (P, 'var pos = self.reader.getpos()\n\t\tvar line = self.reader.getn(-1)\n\t\tif line == node.op',
      'var line = self.reader.getn(-1)\n\t\tvar pos = self.reader.getpos()\n\t\tif line == node.op'),
     file('let a =<< END\nabc\nEND\n'), 'a line of a heredoc', 'its position is that of its end')
seed('C08-ctrlv-blank',
     (P, '\t\t\tend = self.reader.getpos()\n\t\t\tnospend = self.reader.getpos()\n', '\t\t\tend = self.reader.getpos()\n'),
     [file('bwipeout a\x16  | echo 1\n'), file('normal a\x16 \n'), file('bwipeout a\x16 \n')],
     'CTRL-V and a blank at the end of a command', 'the CTRL-V is cut off')
seed('C08-vimgrep-hash',
     (P, '} else if isidc(self.reader.peekn(1)) {\n\t\t// :vimgrep', '} else if isnamec(self.reader.peekn(1)) {\n\t\t// :vimgrep'),
     file('vimgrep #a b|c# f | echo 1\n'), ':vimgrep with # around the pattern and a bar in it', 'the pattern ends the command')
seed('C08-syntax-quote',
     (P, '''if c == "/" || c == "'" || c == "\\"" {\n\t\t\tself.reader.getn(1)''', '''if c == "/" || c == "\\"" {\n\t\t\tself.reader.getn(1)'''),
     file("syntax match x 'a|b'\n"), ':syntax with a pattern in single quotes and a bar in it', 'the command ends in the pattern')
seed('C09-for-in-digit',
     (P, 'if self.reader.read_alpha() != "in" {', 'if self.reader.read_word() != "in" {'),
     file('for x in3\nendfor\n'), 'no blank between in and a number', 'it is rejected')
seed('C10-firstline-lambda',
     (P, '''if !isargname(token.value) || token.value == "firstline" || token.value == "lastline" {\n\t\t\t\t\tpanic''',
      '''if !isargname(token.value) || len(named) == 0 && (token.value == "firstline" || token.value == "lastline") {\n\t\t\t\t\tpanic'''),
     file('function F(a, lastline)\nendfunction\n'), 'lastline as a parameter which is not the first', 'it is accepted')
seed('C11-comment-blanks',
     (C, 'bytes.TrimRight(c.buffer.Bytes(), "\\n")', 'bytes.TrimRight(c.buffer.Bytes(), " \\n")'),
     sexp('if a\n" b  \nendif\n'), 'a comment with trailing blanks at the end of a block', 'the blanks are lost')
PRDEMO = '''package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
	"github.com/vim-jp/go-vimlparser/token"
)

func id(s string) ast.Expr { return &ast.Ident{Name: s} }

func bin(op token.Token, l, r ast.Expr) ast.Expr { return &ast.BinaryExpr{Op: op, Left: l, Right: r} }

func un(op token.Token, x ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: op, X: x} }

func sub(l, r ast.Expr) ast.Expr { return &ast.SubscriptExpr{Left: l, Right: r} }

func par(x ast.Expr) ast.Expr { return &ast.ParenExpr{X: x} }

// show writes the structure without parentheses.
func show(e ast.Expr) string {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return show(x.X)
	case *ast.BinaryExpr:
		return "(" + show(x.Left) + x.Op.String() + show(x.Right) + ")"
	case *ast.UnaryExpr:
		return "(" + x.Op.String() + show(x.X) + ")"
	case *ast.SubscriptExpr:
		return show(x.Left) + "[" + show(x.Right) + "]"
	case *ast.Ident:
		return x.Name
	}
	return "?"
}

func main() {
	e := %s
	var w bytes.Buffer
	if err := printer.Fprint(&w, e, nil); err != nil {
		panic(err)
	}
	n, err := vimlparser.ParseExpr(strings.NewReader(w.String()))
	if err != nil {
		fmt.Println(w.String(), err)
		os.Exit(1)
	}
	if show(n) != show(e) {
		fmt.Println(w.String(), show(e), show(n))
		os.Exit(1)
	}
}
'''
seed('C13-percent-level',
     (R.replace('expr.go', 'opprec.go'), '''		case token.PLUS, token.MINUS, token.DOT:
			return 5
		case token.STAR, token.SLASH, token.PERCENT:
			return 6''', '''		case token.PLUS, token.MINUS, token.DOT, token.PERCENT:
			return 5
		case token.STAR, token.SLASH:
			return 6'''),
     [], 'a hand-built tree with a remainder as an operand of a product', 'the parentheses are missing',
     demo=GODEMO, files={'main.go.txt': PRDEMO % 'bin(token.PERCENT, id("a"), bin(token.STAR, id("b"), id("c")))'})
seed('C13-isnot-level',
     [(R.replace('expr.go', 'opprec.go'), '''			token.ISNOTCI,
			token.ISNOTCS:
			return 4''', '''			token.ISNOTCI:
			return 4'''),
      (R.replace('expr.go', 'opprec.go'), '''		case token.ANDAND:
			return 3''', '''		case token.ANDAND, token.ISNOTCS:
			return 3''')],
     [], 'a hand-built tree with isnot# over &&', 'the parentheses are missing',
     demo=GODEMO, files={'main.go.txt': PRDEMO % 'bin(token.ISNOTCS, bin(token.ANDAND, id("a"), id("b")), id("c"))'})
seed('C13-unary-operand',
     (R, '	p.token(x.Op)\n	p.expr1(x.X, prec)', '	p.token(x.Op)\n	p.expr1(x.X, prec-1)'),
     [], 'a hand-built tree with a product behind a prefix operator', 'the parentheses are missing',
     demo=GODEMO, files={'main.go.txt': PRDEMO % 'un(token.MINUS, bin(token.STAR, id("a"), id("b")))'})
seed('C13-unary-paren',
     (R, '''		if _, hasParens := x.X.(*ast.ParenExpr); hasParens {
''', '''		_, unary := x.X.(*ast.UnaryExpr)
		if _, hasParens := x.X.(*ast.ParenExpr); hasParens || unary && prec1 == 8 {
'''),
     [], 'parentheses around a prefix operator in front of a subscript within an operand of lower precedence', 'the parentheses are lost',
     demo=GODEMO, files={'main.go.txt': PRDEMO % 'sub(par(un(token.MINUS, id("a"))), id("b"))'})
seed('C13-right-operand',
     (R, '	p.expr1(x.Right, prec+1)', '	right := prec + 1\n	if b, ok := x.Right.(*ast.BinaryExpr); ok && b.Op == x.Op && x.Op == token.MINUS {\n		right = prec\n	}\n	p.expr1(x.Right, right)'),
     [], 'a difference as the right operand of a difference', 'the parentheses are missing',
     demo=GODEMO, files={'main.go.txt': PRDEMO % 'bin(token.MINUS, id("a"), bin(token.MINUS, id("b"), id("c")))'})
seed('C13-write-error',
     (R.replace('expr.go', 'printer.go'), 'if _, err := output.Write(p.output); err != nil {', 'if n, err := output.Write(p.output); n == 0 && err != nil {'),
     [], 'a writer that fails after some bytes', 'the error is lost',
     demo=GODEMO, files={'main.go.txt': '''package main

import (
	"errors"
	"os"

	"github.com/vim-jp/go-vimlparser/ast"
	"github.com/vim-jp/go-vimlparser/printer"
)

type short struct{}

func (short) Write(p []byte) (int, error) { return 1, errors.New("full") }

func main() {
	if printer.Fprint(short{}, &ast.Ident{Name: "abc"}, nil) == nil {
		os.Exit(1)
	}
}
'''})
RDEMO = '''package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
)

type pieces struct {
	p   []string
	err error
}

func (r *pieces) Read(b []byte) (int, error) {
	if len(r.p) == 0 {
		return 0, r.err
	}
	n := copy(b, r.p[0])
	if n == len(r.p[0]) {
		r.p = r.p[1:]
	} else {
		r.p[0] = r.p[0][n:]
	}
	return n, nil
}

var _ = io.EOF
var _ = errors.New
var _ = strings.Repeat
var _ = fmt.Println

func main() {
%s}
'''
seed('C15-error-at-line-end',
     (V, '	lines := []string{}\n	br := bufio.NewReader(r)\n	for {\n		line, err := br.ReadString(\'\\n\')\n',
      '	lines := make([]string, 0)\n	br := bufio.NewReader(r)\n	for {\n		line, err := br.ReadString(\'\\n\')\n		if err != nil && line == "" && len(lines) > 0 {\n			return lines, nil\n		}\n'),
     [], 'a reader that fails right behind a newline', 'the error is taken for the end of the file',
     demo=GODEMO, files={'main.go.txt': RDEMO % '''	n, err := vimlparser.ParseFile(&pieces{[]string{"echo 1\\n"}, errors.New("bad")}, "", nil)
	if n != nil || err == nil {
		os.Exit(1)
	}
'''})
seed('C15-megabyte',
     (V, '	lines := []string{}\n', '	lines := make([]string, 0, 16)\n	r = io.LimitReader(r, 1<<20)\n'),
     [], 'a script of more than one megabyte', 'the rest is not read',
     demo=GODEMO, files={'main.go.txt': RDEMO % '''	n, err := vimlparser.ParseFile(strings.NewReader(strings.Repeat("\\n", 1<<20)+"echo 1\\n"), "", nil)
	if err != nil || len(n.Body) != 1 {
		os.Exit(1)
	}
'''})
seed('C18-e10-backslash',
     (P, 'panic(Err("E10: \\\\\\\\ should be followed by /, ? or &", self.reader.getpos()))', 'panic(Err("E10: \\\\\\\\ should be followed by /, ? or &", self.ea.linepos))'),
     file('silent 1,\\x\n'), 'a wrong backslash address behind something else', 'the error points at the start of the command')
seed('C19-append-marker',
     (P, '\tvar m = "."\n\tfor true {', '\tm := "."\n\tif self.ea.forceit {\n\t\tm = self.get_indent() + m\n\t}\n\tfor true {'),
     file('  append!\na\n.\necho 1\n'), ':append! indented', 'the end marker has to be indented')
seed('C19-loadkeymap-crossing',
     (P, '\t\tvar line = self.reader.readline()\n\t\tlines = append(lines, line)\n\t}\n\tvar node = Node(NODE_EXCMD)',
      '\t\tvar line = self.reader.readline()\n\t\tif line == "finish" {\n\t\t\tbreak\n\t\t}\n\t\tlines = append(lines, line[:])\n\t}\n\tvar node = Node(NODE_EXCMD)'),
     file('loadkeymap\na b\nfinish\nc d\n'), 'a line of a keymap that reads finish', 'the keymap ends there')
seed('C20-plus-tab',
     (P, 'if self.reader.peekn(1) == " " {\n\t\t\tself.ea.do_ecmd_cmd = "$"', 'if iswhite(self.reader.peekn(1)) || self.reader.peekn(1) == "" {\n\t\t\tself.ea.do_ecmd_cmd = "$"'),
     file('edit +\tx\n'), '+ with a tab behind it', 'the value is $')
seed('C20-star-range',
     (P, 'else if self.reader.peekn(1) == "*" {\n\t\t\t// && &cpoptions', 'else if self.reader.peekn(1) == "*" && len(tokens) == 0 {\n\t\t\t// && &cpoptions'),
     [file('1,*d\n'), file('.;*p\n')], '* behind a separator', 'it is not part of the range')
seed('C22-not-in-list',
     (P, '''				node.value = append(node.value.([]interface{}), self.parse_expr1())
				token = self.tokenizer.peek()
				if token.type_ == TOKEN_COMMA {''', '''				if len(node.value.([]interface{})) == 0 {
					node.value = append(node.value.([]interface{}), self.parse_expr1())
				} else {
					node.value = append(node.value.([]interface{}), self.parse_expr2())
				}
				token = self.tokenizer.peek()
				if token.type_ == TOKEN_COMMA {'''),
     expr('[a, b ? c : d]'), 'a ternary as a later element of a list', 'it is rejected')
seed('C22-default-value',
     (P, 'node.default_args = append(node.default_args, self.parse_expr())', 'node.default_args = append(node.default_args, NewExprParser(self.reader).parse_expr2())'),
     file('function F(a = b ? c : d)\nendfunction\n'), 'a ternary as a default value', 'it is rejected')
seed('C17-exit-json',
     (M, '''		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1
		}''', '''		if err := parseFile(f.Name(), f, os.Stdout, opt, *usejson); err != nil {
			fmt.Fprintln(os.Stderr, err)
			exitCode = 1 - exitCode
		}'''),
     [],
     'two bad files', 'the exit status is 0',
     demo='''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
go build -o "$tmp/vp" ./cmd/vimlparser || exit 2
echo 'endif' > "$tmp/a.vim"; echo 'endwhile' > "$tmp/b.vim"
"$tmp/vp" "$tmp/a.vim" "$tmp/b.vim" > /dev/null 2>&1 && exit 1
exit 0
''')
seed('C12-dict-values',
     (W, '''		for _, e := range n.Entries {
			Walk(v, e.Key)
			Walk(v, e.Value)
		}''', '''		for _, kv := range n.Entries {
			Walk(v, kv.Key)
		}
		for _, kv := range n.Entries {
			Walk(v, kv.Value)
		}'''),
     walk('echo {1: a, 2: b}\n'), 'a dictionary with two entries', 'all keys come before all values')

# ---- C23
GENDEMO = r'''#!/bin/bash
# Run in /repo: exit 0 if the parser there and the one that go/generate.sh
# makes of it in a copy give the same for the scripts in cases.txt.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/gen" "$tmp/d"
tar --exclude=./.git -cf - . | tar -C "$tmp/gen" -xf -
rm "$tmp/gen/go/vimlparser.go" "$tmp/gen/go/builtin_commands.go"
(cd "$tmp/gen" && HOME=$tmp timeout 200 bash go/generate.sh < /dev/null > /dev/null 2>&1)
cp "$here/main.go.txt" "$tmp/d/main.go"
for r in "$PWD" "$tmp/gen"; do
	printf 'module demo\n\ngo 1.14\n\nrequire github.com/vim-jp/go-vimlparser v0.0.0\n\nreplace github.com/vim-jp/go-vimlparser => %s\n' "$r" > "$tmp/d/go.mod"
	(cd "$tmp/d" && GOFLAGS=-mod=mod go build -o demo . && timeout 20 ./demo "$here/cases.txt" > "$tmp/out.${r##*/}" 2>&1) || exit 3
done
diff "$tmp/out.${PWD##*/}" "$tmp/out.gen"
'''
GENMAIN = '''package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"strings"

	vimlparser "github.com/vim-jp/go-vimlparser"
	"github.com/vim-jp/go-vimlparser/compiler"
)

func main() {
	data, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	for _, s := range strings.Split(string(data), "--\\n") {
		for _, neo := range []bool{false, true} {
			f, err := vimlparser.ParseFile(strings.NewReader(s), "f", &vimlparser.ParseOption{Neovim: neo})
			fmt.Printf("%q %v\\n", s, err)
			if err != nil {
				continue
			}
			j, _ := json.Marshal(f)
			var b bytes.Buffer
			err = compiler.Compile(&b, f)
			fmt.Println(string(j), b.String(), err)
		}
	}
}
'''


def gen(id, edits, texts, needs, breaks):
    seed(id, edits, [], needs, breaks, demo=GENDEMO, files={'main.go.txt': GENMAIN, 'cases.txt': '--\n'.join(texts)})


GC = 'go/gocompiler.vim'
GB = 'go/gen_builtin_commands.vim'
B = 'go/builtin_commands.go'
gen('C23-paren-level',
    (GC, 'let s:opprec[s:NODE_PARENEXPR] = 1', 'let s:opprec[s:NODE_PARENEXPR] = 3'),
    ['echo 0X1\n', 'echo 1.5e+3 0b12 0x g\n', 'set x @"\n', 'map a \\| b\n'], 'a parenthesised || in an operand of &&, and a regeneration', 'the parentheses are lost')
gen('C23-ignorecase',
    (GC, "return printf('viml_equalci(%s, %s)', self", "return printf('%s == %s', self"),
    ['call <sid>f()\n', 'echo <sid>g\n', 'let <sid>x = 1\n'], '<sid> in small letters, and a regeneration', 'it is rejected')
gen('C23-minlen-in-original',
(A, "{'name': 'mark', 'minlen': 2, ", "{'name': 'mark', 'minlen': 3, "),
    ['ma x\n', 'mar x\n'], 'an abbreviated :mark, and a regeneration', 'another command is found')
gen('C23-flags-in-go',
    (B, '{flags: "NEEDARG|FILE1|EDITCMD|TRLBAR|CMDWIN", minlen: 3, name: "badd", parser: "parse_cmd_common"}', '{flags: "NEEDARG|FILE1|EDITCMD|TRLBAR|ARGOPT|CMDWIN", minlen: 3, name: "badd", parser: "parse_cmd_common"}'),
    ['badd ++ff=x y\n', 'badd ++enc=x y\n'], 'an argument of :badd that starts with ++', 'it is taken for an option until the parser is regenerated')

# ---- C24
RXDEMO = r'''#!/bin/bash
# Run in /repo: exit 0 if RegexpParser of vimlparser.vim, run by Vim, gives the tokens in out.txt for the patterns in in.txt.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/run.vim" <<'END'
set encoding=utf-8
let s:p = vimlparser#import()
let s:out = []
for s:l in readfile($IN)
  try
    call add(s:out, join(s:p.RegexpParser.new(s:p.StringReader.new([s:l[1:]]), s:l[0], '').parse_regexp(), 'SEP'))
  catch
    call add(s:out, v:exception)
  endtry
endfor
call writefile(s:out, $OUT)
qa!
END
IN=$here/in.txt OUT=$tmp/out timeout 60 vim -u NONE -i NONE -N -es --cmd "let &rtp = getcwd()" -S "$tmp/run.vim" < /dev/null > /dev/null
diff "$tmp/out" "$here/out.txt"
'''


def rx(id, old, new, text, out, needs, breaks, sep=''):
    seed(id, [(A, old, new)], [], needs, breaks, demo=RXDEMO.replace('SEP', sep), files={'in.txt': text, 'out.txt': out})


rx('C24-dollar-newline', r"if n !=# '\|' && n !=# '\&' && n !=# '\n' && n !=# '\)'", r"if n !=# '\|' && n !=# '\&' && n !=# '\)'", '/a$\\nb\n', 'a\\$\\nb\n', r'a $ in front of \n', 'the $ is taken for a character')
rx('C24-class-letters', "let cclass = 'iIkKfFpPsSdDxXoOwWhHaAlLuU'", "let cclass = 'iIkKfFpPsSdDxXoOwWhHaAlLu'", '/\\Ua\n', '\\Ua\n', r'\U, not an upper case character', 'it is taken for the letter U')
rx('C24-one-range', "if startc > endc || endc > startc + 256", "if startc >= endc || endc > startc + 256", '/[a-a]\n', '\\[a-a]\n', 'a range of a single character', 'it is rejected')
rx('C24-mark-compare', '''return [a:pre . r . c, '\\%' . cmp . "'" . c]''', '''return [a:pre . r . c, '\\%' . "'" . c]''', "/\\%<'ma\n", "\\%<'ma\n", 'a position before or after a mark', 'it becomes the position of the mark')
rx('C24-engine-two', r"if token !=# '\%#=0' && token !=# '\%#=1' && token !=# '\%#=2'", r"if token !=# '\%#=0' && token !=# '\%#=1'", '/\\%#=2a\n', '\\%#=2a\n', 'a pattern that selects the NFA engine', 'it is rejected')
rx('C24-brace-backslash', '''  if self.reader.p(0) ==# '\\'
    let r .= self.reader.get()
  endif
  if self.reader.p(0) !=# '}\'''', '''  if self.reader.p(0) ==# '\\' && comma ==# ''
    let r .= self.reader.get()
  endif
  if self.reader.p(0) !=# '}\'''', '/a\\{1,\\}b\n', 'a\\{1,}b\n', r'a count with a comma that ends with \}', 'it is rejected')
rx('C24-utf-range', '''    let r = self.gethexchrs(4)
    let n = str2nr(r, 16)''', '''    let r = self.gethexchrs(2)
    let n = str2nr(r, 16)''', '/[\\u0061-\\u0063]\n', '\\[\\u0061-\\u0063]\n', r'a range with \u in a collection', 'it is rejected')
rx('C24-bracket-first', '''  if self.reader.p(0) ==# ']' || self.reader.p(0) ==# '-'
    let r .= self.reader.get()
  endif
  while s:TRUE
    let startc = 0''', '''  if r ==# '' && (self.reader.p(0) ==# ']' || self.reader.p(0) ==# '-')
    let r .= self.reader.get()
  endif
  while s:TRUE
    let startc = 0''', '/[^]]*a\n', '\\[^]] \\* a\n', 'a ] first in a complemented collection', 'the collection ends there', ' ')
rx('C24-nomagic-at', '''    elseif c ==# '@'
      return self.get_token_at('\\@')
    elseif c ==# '.'
''', '''    elseif c ==# '.'
''', '/\\Mab\\@=\n', '\\Mab\\@=\n', 'a look-ahead in a nomagic pattern', 'it is taken for the characters @=')
