From 2b2f4d9107a88b0a69fb440b2270ba97acfc85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 01/53] fix: offset of characters on continuation lines

---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index e34d543..252492f 100644
--- a/go/type.go
+++ b/go/type.go
@@ -215,7 +215,7 @@ func (self *StringReader) __init__(lines []string) {
 					}
 				} else {
 					self.buf = append(self.buf, c)
-					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1})
+					self.pos = append(self.pos, pos{lnum: lnum + 2, col: col + 1, offset: offset})
 				}
 				col += len(c)
 				offset += len(c)
-- 
2.43.0


From 40d0586a1a16e660123c89e45608a587e5e7d484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:58 +0000
Subject: [PATCH 02/53] fix: report the byte offset of an error, not its
 character index

---
 go/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/type.go b/go/type.go
index 252492f..cdadc61 100644
--- a/go/type.go
+++ b/go/type.go
@@ -333,5 +333,5 @@ func (e *ParseError) Error() string {
 }
 
 func Err(msg string, pos *pos) *ParseError {
-	return &ParseError{Offset: pos.i, Line: pos.lnum, Column: pos.col, Msg: msg}
+	return &ParseError{Offset: pos.offset, Line: pos.lnum, Column: pos.col, Msg: msg}
 }
-- 
2.43.0


From 4d2d8fe4acafe80970331dd7404c0f8a4f04dc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 03/53] fix: keep bytes that are not valid UTF-8, and the
 positions after them

---
 go/type.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/go/type.go b/go/type.go
index cdadc61..65da625 100644
--- a/go/type.go
+++ b/go/type.go
@@ -3,6 +3,7 @@ package vimlparser
 import (
 	"fmt"
 	"strings"
+	"unicode/utf8"
 )
 
 type ExArg struct {
@@ -197,8 +198,7 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, r := range lines[lnum] {
-			c := string(r)
+		for _, c := range splitChars(lines[lnum]) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -207,8 +207,7 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			for _, r := range lines[lnum+1] {
-				c := string(r)
+			for _, c := range splitChars(lines[lnum+1]) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -233,6 +232,18 @@ func (self *StringReader) __init__(lines []string) {
 	self.i = 0
 }
 
+// splitChars splits a line into its characters. A byte which is not valid
+// UTF-8 is a character of its own, and is kept as it is.
+func splitChars(line string) []string {
+	cs := make([]string, 0, len(line))
+	for len(line) > 0 {
+		_, size := utf8.DecodeRuneInString(line)
+		cs = append(cs, line[:size])
+		line = line[size:]
+	}
+	return cs
+}
+
 func (self *StringReader) getpos() *pos {
 	p := self.pos[self.i]
 	p.i = self.i
-- 
2.43.0


From ca11c311df453f628fcfd81a425f654013db47f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:28 +0000
Subject: [PATCH 04/53] fix: parse lines longer than 64 KB, and report read
 errors

---
 vimlparser.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/vimlparser.go b/vimlparser.go
index 9f5a97c..9f398f1 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -4,6 +4,7 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/vim-jp/go-vimlparser/ast"
 	internal "github.com/vim-jp/go-vimlparser/go"
@@ -50,7 +51,10 @@ func ParseFile(r io.Reader, filename string, opt *ParseOption) (node *ast.File,
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	neovim := false
 	if opt != nil {
@@ -78,18 +82,31 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 			// log.Printf("%s", debug.Stack())
 		}
 	}()
-	lines := readlines(r)
+	lines, err := readlines(r)
+	if err != nil {
+		return nil, err
+	}
 	reader := internal.NewStringReader(lines)
 	p := internal.NewExprParser(reader)
 	node = p.Parse()
 	return
 }
 
-func readlines(r io.Reader) []string {
+// readlines reads all lines, which can be of any length, without line endings.
+func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
-	scanner := bufio.NewScanner(r)
-	for scanner.Scan() {
-		lines = append(lines, scanner.Text())
+	br := bufio.NewReader(r)
+	for {
+		line, err := br.ReadString('\n')
+		if line != "" {
+			line = strings.TrimSuffix(line, "\n")
+			lines = append(lines, strings.TrimSuffix(line, "\r"))
+		}
+		if err == io.EOF {
+			return lines, nil
+		}
+		if err != nil {
+			return nil, err
+		}
 	}
-	return lines
 }
-- 
2.43.0


From 6a596d7c6ac697cf008dc0ee10455e83932c8a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 05/53] fix: count the carriage return of CRLF line endings in
 offsets

---
 go/type.go    | 13 +++++++++----
 vimlparser.go |  5 ++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/go/type.go b/go/type.go
index 65da625..507442d 100644
--- a/go/type.go
+++ b/go/type.go
@@ -198,7 +198,10 @@ func (self *StringReader) __init__(lines []string) {
 	var offset = 0
 	for lnum < len(lines) {
 		var col = 0
-		for _, c := range splitChars(lines[lnum]) {
+		// the "\r" of a CRLF line ending counts in offsets only
+		var line = strings.TrimSuffix(lines[lnum], "\r")
+		var eol = len(lines[lnum]) - len(line)
+		for _, c := range splitChars(line) {
 			self.buf = append(self.buf, c)
 			self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 			col += len(c)
@@ -207,7 +210,10 @@ func (self *StringReader) __init__(lines []string) {
 		for lnum+1 < len(lines) && viml_eqregh(lines[lnum+1], "^\\s*\\\\") {
 			var skip = true
 			col = 0
-			for _, c := range splitChars(lines[lnum+1]) {
+			offset += eol + 1
+			line = strings.TrimSuffix(lines[lnum+1], "\r")
+			eol = len(lines[lnum+1]) - len(line)
+			for _, c := range splitChars(line) {
 				if skip {
 					if c == "\\" {
 						skip = false
@@ -220,12 +226,11 @@ func (self *StringReader) __init__(lines []string) {
 				offset += len(c)
 			}
 			lnum += 1
-			offset += 1
 		}
 		self.buf = append(self.buf, "<EOL>")
 		self.pos = append(self.pos, pos{lnum: lnum + 1, col: col + 1, offset: offset})
 		lnum += 1
-		offset += 1
+		offset += eol + 1
 	}
 	// for <EOF>
 	self.pos = append(self.pos, pos{lnum: lnum + 1, col: 0, offset: offset})
diff --git a/vimlparser.go b/vimlparser.go
index 9f398f1..8134522 100644
--- a/vimlparser.go
+++ b/vimlparser.go
@@ -92,15 +92,14 @@ func ParseExpr(r io.Reader) (node ast.Expr, err error) {
 	return
 }
 
-// readlines reads all lines, which can be of any length, without line endings.
+// readlines reads all lines, which can be of any length, without the newlines.
 func readlines(r io.Reader) ([]string, error) {
 	lines := []string{}
 	br := bufio.NewReader(r)
 	for {
 		line, err := br.ReadString('\n')
 		if line != "" {
-			line = strings.TrimSuffix(line, "\n")
-			lines = append(lines, strings.TrimSuffix(line, "\r"))
+			lines = append(lines, strings.TrimSuffix(line, "\n"))
 		}
 		if err == io.EOF {
 			return lines, nil
-- 
2.43.0


From a0789982acdd90fb062dae8cdc8def514a433b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/53] fix: recognize :dl and :dp as :delete with a flag

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 8896232..5afe253 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -25,7 +25,7 @@ var patVim2Go = map[string]string{
 	"\\d":                               "\\d",
 	"\\h":                               "[A-Za-z_]",
 	"\\s":                               "\\s",
-	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e)[lp]$",
+	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e|)[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
 	"\\w":                             "[0-9A-Za-z_]",
 	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-- 
2.43.0


From 43cf498e59815e83f6401c524b4f1434e2605da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/53] fix: only blanks and tabs may precede a line
 continuation backslash

---
 go/vimlfunc.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 5afe253..143a322 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -49,7 +49,7 @@ var patVim2Go = map[string]string{
 	"^\\d":                     "^\\d",
 	"^\\h":                     "^[A-Za-z_]",
 	"^\\s":                     "^\\s",
-	"^\\s*\\\\":                "^\\s*\\\\",
+	"^\\s*\\\\":                "^[ \\t]*\\\\",
 	"^[ \\t]$":                 "^[ \\t]$",
 	"^[A-Za-z]$":               "^[A-Za-z]$",
 	"^[0-9A-Za-z]$":            "^[0-9A-Za-z]$",
-- 
2.43.0


From a4ab1402b3b35d622e1ee1801d7dd6949b0116ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 08/53] fix: :@" executes a register instead of starting a
 comment

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7ae041..c6f71ee 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1170,7 +1170,7 @@ function! s:VimLParser.separate_nextcmd() abort
     elseif c ==# '|' || c ==# "\n" ||
           \ (c ==# '"' && self.ea.cmd.flags !~# '\<NOTRLCOM\>'
           \   && ((self.ea.cmd.name !=# '@' && self.ea.cmd.name !=# '*')
-          \       || self.reader.getpos() !=# self.ea.argpos)
+          \       || self.reader.getpos().i !=# self.ea.argpos.i)
           \   && (self.ea.cmd.name !=# 'redir'
           \       || self.reader.getpos().i !=# self.ea.argpos.i + 1 || pc !=# '@'))
       let has_cpo_bar = s:FALSE " &cpoptions =~ 'b'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index d642d7a..b0b240e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1043,7 +1043,7 @@ func (self *VimLParser) separate_nextcmd() *pos {
 				panic(Err(viml_printf("unexpected character: %s", c), self.reader.getpos()))
 			}
 			self.reader.getn(1)
-		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos() != self.ea.argpos) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
+		} else if c == "|" || c == "\n" || (c == "\"" && !viml_eqregh(self.ea.cmd.flags, "\\<NOTRLCOM\\>") && ((self.ea.cmd.name != "@" && self.ea.cmd.name != "*") || self.reader.getpos().i != self.ea.argpos.i) && (self.ea.cmd.name != "redir" || self.reader.getpos().i != self.ea.argpos.i+1 || pc != "@")) {
 			var has_cpo_bar = false
 			// &cpoptions =~ 'b'
 			if (!has_cpo_bar || !viml_eqregh(self.ea.cmd.flags, "\\<USECTRLV\\>")) && pc == "\\" {
-- 
2.43.0


From 0f83cfe6795a0f06074f56b9284b0c2e9d2058a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 09/53] fix: keep :hide without an argument, which is a
 command, in the tree

---
 autoload/vimlparser.vim | 3 ++-
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index c6f71ee..e1f1c54 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -575,7 +575,8 @@ function! s:VimLParser.parse_command_modifiers() abort
     elseif stridx('keeppatterns', k) ==# 0 && len(k) >= 5 " keepp\%[atterns]
       call add(modifiers, {'name': 'keeppatterns'})
     elseif stridx('hide', k) ==# 0 && len(k) >= 3 " hid\%[e]
-      if self.ends_excmds(c)
+      if self.ends_excmds(self.reader.peek())
+        call self.reader.seek_set(pos)
         break
       endif
       call add(modifiers, {'name': 'hide'})
diff --git a/go/vimlparser.go b/go/vimlparser.go
index b0b240e..8de439e 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -475,7 +475,8 @@ func (self *VimLParser) parse_command_modifiers() {
 			modifiers = append(modifiers, map[string]interface{}{"name": "keeppatterns"})
 		} else if viml_stridx("hide", k) == 0 && len(k) >= 3 {
 			// hid\%[e]
-			if self.ends_excmds(c) {
+			if self.ends_excmds(self.reader.peek()) {
+				self.reader.seek_set(pos)
 				break
 			}
 			modifiers = append(modifiers, map[string]interface{}{"name": "hide"})
-- 
2.43.0


From 027d605bba45dd1b4448cc37fc18640f16ab8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 10/53] fix: a user command with a digit is not taken for one
 named like its start

---
 autoload/vimlparser.vim | 2 ++
 go/vimlparser.go        | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e1f1c54..eef5230 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -986,6 +986,8 @@ function! s:VimLParser.find_command() abort
     let name .= self.reader.read_alnum()
     unlet cmd
     let cmd = {'name': name, 'flags': 'USERCMD', 'parser': 'parse_cmd_usercmd'}
+    " not cached: the next name may start with this one
+    return cmd
   endif
 
   let self.find_command_cache[name] = cmd
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8de439e..2cf439d 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -863,6 +863,8 @@ func (self *VimLParser) find_command() *Cmd {
 	if (cmd == nil || cmd.name == "Print") && viml_eqregh(name, "^[A-Z]") {
 		name += self.reader.read_alnum()
 		cmd = &Cmd{name: name, flags: "USERCMD", parser: "parse_cmd_usercmd"}
+		// not cached: the next name may start with this one
+		return cmd
 	}
 	self.find_command_cache[name] = cmd
 	return cmd
-- 
2.43.0


From f600232bd8351daa17daeecdf2b80577f309372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 11/53] fix: Excmd.Cmd panics when there are only modifiers or
 a range

---
 ast/node.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ast/node.go b/ast/node.go
index bc64b19..fa7bfc5 100644
--- a/ast/node.go
+++ b/ast/node.go
@@ -56,7 +56,14 @@ type Excmd struct {
 }
 
 func (e *Excmd) Pos() Pos { return e.Excmd }
-func (e *Excmd) Cmd() Cmd { return *e.ExArg.Cmd }
+
+// Cmd returns the zero Cmd if there are only modifiers or a range.
+func (e *Excmd) Cmd() Cmd {
+	if e.ExArg.Cmd == nil {
+		return Cmd{}
+	}
+	return *e.ExArg.Cmd
+}
 
 // vimlparser: FUNCTION .ea .body .left .rlist .attr .endfunction
 type Function struct {
-- 
2.43.0


From c67baa345b85e4906a1d7780a25c17207015684a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 12/53] fix: counts that do not fit in 32 bits are no parse
 failure

---
 go/vimlfunc.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 143a322..adddbee 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -139,7 +139,11 @@ func viml_split(s string, sep string) []string {
 }
 
 func viml_str2nr(s string, base int) int {
-	r, err := strconv.ParseInt(s, base, 32)
+	r, err := strconv.ParseInt(s, base, 0)
+	if e, ok := err.(*strconv.NumError); ok && e.Err == strconv.ErrRange {
+		// ParseInt returns the nearest number, which is what Vim uses.
+		return int(r)
+	}
 	if err != nil {
 		panic(fmt.Errorf("viml_str2nr: %v", err))
 	}
-- 
2.43.0


From ad644df58f3f6fac44ad0400e8d8c3769565d618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 13/53] fix: position of a key of a literal dictionary

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index eef5230..a7a6560 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -3605,8 +3605,8 @@ function! s:ExprTokenizer.parse_dict_literal_key() abort
   endif
   let node = s:Node(s:NODE_STRING)
   let s = c
-  call self.reader.seek_cur(1)
   let node.pos = self.reader.getpos()
+  call self.reader.seek_cur(1)
   while s:TRUE
     let c = self.reader.p(0)
     if c ==# '<EOF>' || c ==# '<EOL>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 2cf439d..7e8f2ea 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2344,8 +2344,8 @@ func (self *ExprTokenizer) parse_dict_literal_key() *VimNode {
 	}
 	var node = Node(NODE_STRING)
 	var s = c
-	self.reader.seek_cur(1)
 	node.pos = self.reader.getpos()
+	self.reader.seek_cur(1)
 	for true {
 		c = self.reader.p(0)
 		if c == "<EOF>" || c == "<EOL>" {
-- 
2.43.0


From b54334530ec885e896028d25c00a484ebf920806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:53 +0000
Subject: [PATCH 14/53] fix: a literal dictionary is neither a lambda nor a
 curly braces name

---
 autoload/vimlparser.vim | 18 +++++++++++-------
 go/vimlparser.go        | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a7a6560..d783b3b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4203,9 +4203,12 @@ function! s:ExprParser.parse_expr9() abort
     let is_litdict = token.type ==# s:TOKEN_LITCOPEN
     let savepos = self.reader.tell()
     let nodepos = token.pos
-    let token = self.tokenizer.get()
-    let lambda = token.type ==# s:TOKEN_ARROW
-    if !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
+    let lambda = s:FALSE
+    if !is_litdict
+      let token = self.tokenizer.get()
+      let lambda = token.type ==# s:TOKEN_ARROW
+    endif
+    if !is_litdict && !lambda && !(token.type ==# s:TOKEN_SQUOTE || token.type ==# s:TOKEN_DQUOTE)
       " if the token type is stirng, we cannot peek next token and we can
       " assume it's not lambda.
       let token2 = self.tokenizer.peek()
@@ -4282,8 +4285,8 @@ function! s:ExprParser.parse_expr9() abort
     let node.pos = nodepos
     let node.value = []
     call self.reader.seek_set(savepos)
-    let token = self.tokenizer.peek()
-    if token.type ==# s:TOKEN_CCLOSE
+    call self.reader.skip_white()
+    if self.reader.p(0) ==# '}'
       call self.tokenizer.get()
       return node
     endif
@@ -4291,7 +4294,7 @@ function! s:ExprParser.parse_expr9() abort
       let key = is_litdict ? self.tokenizer.parse_dict_literal_key() : self.parse_expr1()
       let token = self.tokenizer.get()
       if token.type ==# s:TOKEN_CCLOSE
-        if !empty(node.value)
+        if is_litdict || !empty(node.value)
           throw s:Err(printf('unexpected token: %s', token.value), token.pos)
         endif
         call self.reader.seek_set(pos)
@@ -4305,7 +4308,8 @@ function! s:ExprParser.parse_expr9() abort
       call add(node.value, [key, val])
       let token = self.tokenizer.get()
       if token.type ==# s:TOKEN_COMMA
-        if self.tokenizer.peek().type ==# s:TOKEN_CCLOSE
+        call self.reader.skip_white()
+        if self.reader.p(0) ==# '}'
           call self.tokenizer.get()
           break
         endif
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 7e8f2ea..e66aa54 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -2933,9 +2933,12 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		var is_litdict = token.type_ == TOKEN_LITCOPEN
 		var savepos = self.reader.tell()
 		var nodepos = token.pos
-		token = self.tokenizer.get()
-		var lambda = token.type_ == TOKEN_ARROW
-		if !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
+		var lambda = false
+		if !is_litdict {
+			token = self.tokenizer.get()
+			lambda = token.type_ == TOKEN_ARROW
+		}
+		if !is_litdict && !lambda && !(token.type_ == TOKEN_SQUOTE || token.type_ == TOKEN_DQUOTE) {
 			// if the token type is stirng, we cannot peek next token and we can
 			// assume it's not lambda.
 			var token2 = self.tokenizer.peek()
@@ -3012,8 +3015,8 @@ func (self *ExprParser) parse_expr9() *VimNode {
 		node.pos = nodepos
 		node.value = []interface{}{}
 		self.reader.seek_set(savepos)
-		token = self.tokenizer.peek()
-		if token.type_ == TOKEN_CCLOSE {
+		self.reader.skip_white()
+		if self.reader.p(0) == "}" {
 			self.tokenizer.get()
 			return node
 		}
@@ -3027,7 +3030,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			}()
 			token = self.tokenizer.get()
 			if token.type_ == TOKEN_CCLOSE {
-				if !viml_empty(node.value) {
+				if is_litdict || !viml_empty(node.value) {
 					panic(Err(viml_printf("unexpected token: %s", token.value), token.pos))
 				}
 				self.reader.seek_set(pos)
@@ -3041,7 +3044,8 @@ func (self *ExprParser) parse_expr9() *VimNode {
 			node.value = append(node.value.([]interface{}), []interface{}{key, val})
 			token = self.tokenizer.get()
 			if token.type_ == TOKEN_COMMA {
-				if self.tokenizer.peek().type_ == TOKEN_CCLOSE {
+				self.reader.skip_white()
+				if self.reader.p(0) == "}" {
 					self.tokenizer.get()
 					break
 				}
-- 
2.43.0


From 5d5d453f611a332e874655e2193141d2020cf2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 15/53] fix: position of an expression in a curly braces name

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d783b3b..340d64d 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4450,8 +4450,8 @@ function! s:ExprParser.parse_curly_parts() abort
       let node.value = name
       call add(curly_parts, node)
     elseif c ==# '{'
-      call self.reader.get()
       let pos = self.reader.getpos()
+      call self.reader.get()
       let node = s:Node(s:NODE_CURLYNAMEEXPR)
       let node.curly = s:TRUE " Keep backword compatibility for the curly attribute
       let node.pos = pos
diff --git a/go/vimlparser.go b/go/vimlparser.go
index e66aa54..13920e8 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3188,8 +3188,8 @@ func (self *ExprParser) parse_curly_parts() []*VimNode {
 			node.value = name
 			curly_parts = append(curly_parts, node)
 		} else if c == "{" {
-			self.reader.get()
 			pos = self.reader.getpos()
+			self.reader.get()
 			var node = Node(NODE_CURLYNAMEEXPR)
 			node.curly = true
 			// Keep backword compatibility for the curly attribute
-- 
2.43.0


From 5e59462af3b1bfeb2a5a29eff4cf17c7f4721652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 16/53] fix: position of a heredoc is that of its operator

---
 autoload/vimlparser.vim | 3 ++-
 go/vimlparser.go        | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 340d64d..fc092b7 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1513,7 +1513,6 @@ endfunction
 
 function! s:VimLParser.parse_heredoc() abort
   let node = s:Node(s:NODE_HEREDOC)
-  let node.pos = self.ea.cmdpos
   let node.op = ''
   let node.rlist = []
   let node.body = []
@@ -1599,10 +1598,12 @@ function! s:VimLParser.parse_cmd_let() abort
     call self.reader.getn(len(s2))
     let node.op = s2
   elseif s2 ==# '=<<'
+    let oppos = self.reader.getpos()
     call self.reader.getn(len(s2))
     call self.reader.skip_white()
     let node.op = s2
     let node.right = self.parse_heredoc()
+    let node.right.pos = oppos
     call self.add_node(node)
     return
   elseif s1 ==# '='
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 13920e8..5aa3a73 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1376,7 +1376,6 @@ func (self *VimLParser) parse_cmd_call() {
 
 func (self *VimLParser) parse_heredoc() *VimNode {
 	var node = Node(NODE_HEREDOC)
-	node.pos = self.ea.cmdpos
 	node.op = ""
 	node.rlist = []*VimNode{}
 	for true {
@@ -1456,10 +1455,12 @@ func (self *VimLParser) parse_cmd_let() {
 		self.reader.getn(len(s2))
 		node.op = s2
 	} else if s2 == "=<<" {
+		var oppos = self.reader.getpos()
 		self.reader.getn(len(s2))
 		self.reader.skip_white()
 		node.op = s2
 		node.right = self.parse_heredoc()
+		node.right.pos = oppos
 		self.add_node(node)
 		return
 	} else if s1 == "=" {
-- 
2.43.0


From 91aacca3a9ab8f0ee9e4a8f185517bfa63d33841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 17/53] fix: Walk skips default arguments and the body of
 lambdas

---
 ast/walk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/walk.go b/ast/walk.go
index 41587bf..ac9c30e 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -40,6 +40,7 @@ func Walk(v Visitor, node Node) {
 	case *Function:
 		Walk(v, n.Name)
 		walkIdentList(v, n.Params)
+		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
 		Walk(v, n.EndFunction)
 
@@ -205,6 +206,7 @@ func Walk(v Visitor, node Node) {
 
 	case *LambdaExpr:
 		walkIdentList(v, n.Params)
+		Walk(v, n.Expr)
 
 	case *ParenExpr:
 		Walk(v, n.X)
-- 
2.43.0


From c7b0b8565095d215284c33ca352414ac8b771e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 18/53] fix: Inspect calls f(nil) after the children of a node,
 as documented

---
 ast/walk.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ast/walk.go b/ast/walk.go
index ac9c30e..38fecc2 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -244,7 +244,7 @@ func walkStmtList(v Visitor, list []Statement) {
 type inspector func(Node) bool
 
 func (f inspector) Visit(node Node) Visitor {
-	if node != nil && f(node) {
+	if f(node) {
 		return f
 	}
 	return nil
-- 
2.43.0


From 40e90b5ef5a46a66e18c38ed0395746834c18972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 19/53] fix: Walk visits the missing end of a while, for or
 function

---
 ast/walk.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 38fecc2..8086b08 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -42,7 +42,9 @@ func Walk(v Visitor, node Node) {
 		walkIdentList(v, n.Params)
 		walkExprList(v, n.DefaultArgs)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFunction)
+		if n.EndFunction != nil {
+			Walk(v, n.EndFunction)
+		}
 
 	case *EndFunction: // nothing to do
 
@@ -95,7 +97,9 @@ func Walk(v Visitor, node Node) {
 	case *While:
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndWhile)
+		if n.EndWhile != nil {
+			Walk(v, n.EndWhile)
+		}
 
 	case *EndWhile: // nothing to do
 
@@ -105,7 +109,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Rest)
 		Walk(v, n.Right)
 		walkStmtList(v, n.Body)
-		Walk(v, n.EndFor)
+		if n.EndFor != nil {
+			Walk(v, n.EndFor)
+		}
 
 	case *EndFor: // nothing to do
 
-- 
2.43.0


From 1b16585a69af48c434ce531329aec2ee4d684ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 20/53] fix: compiling an expression with a "%" in it

---
 compiler/compiler.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index b0412ac..921faab 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -78,7 +78,7 @@ func (c *Compiler) compile(node interface{}) error {
 			}
 		}
 	case ast.Expr:
-		c.fprint(c.compileExpr(n))
+		c.fprint("%s", c.compileExpr(n))
 	}
 	return nil
 }
-- 
2.43.0


From 5709282245c97caa375eb9ce1ff133b8577dc11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 21/53] fix: compiling a function drops "..." from its
 parameters

---
 compiler/compiler.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index 921faab..eb40fc2 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -152,18 +152,19 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
 	if len(node.Params) > 0 {
 		c.fprint(" ")
-		ps := make([]string, 0, len(node.Params))
+		params := node.Params
+		ps := make([]string, 0, len(params))
 		var remaining bool
-		if node.Params[len(node.Params)-1].Name == token.DOTDOTDOT.String() {
-			node.Params = node.Params[:len(node.Params)-1]
+		if params[len(params)-1].Name == token.DOTDOTDOT.String() {
+			params = params[:len(params)-1]
 			remaining = true
 		}
-		for i, p := range node.Params {
-			if i < len(node.Params)-len(node.DefaultArgs) {
+		for i, p := range params {
+			if i < len(params)-len(node.DefaultArgs) {
 				ps = append(ps, p.Name)
 			} else {
 				ps = append(ps, fmt.Sprintf("(%s %s)", p.Name,
-					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(node.Params)])))
+					c.compileExpr(node.DefaultArgs[i+len(node.DefaultArgs)-len(params)])))
 			}
 		}
 		if remaining {
-- 
2.43.0


From dd73740447a0386891850f8c410a38df59cb0065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 22/53] fix: indentation within the first line of a nested
 function

---
 compiler/compiler.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index eb40fc2..a2e6e3a 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -151,7 +151,6 @@ func (c *Compiler) compileExcmd(node *ast.Excmd) {
 func (c *Compiler) compileFunction(node *ast.Function) {
 	c.fprint("(function (%s", c.compileExpr(node.Name))
 	if len(node.Params) > 0 {
-		c.fprint(" ")
 		params := node.Params
 		ps := make([]string, 0, len(params))
 		var remaining bool
@@ -170,9 +169,9 @@ func (c *Compiler) compileFunction(node *ast.Function) {
 		if remaining {
 			ps = append(ps, ". ...")
 		}
-		c.fprint("%s", strings.Join(ps, " "))
+		c.writeString(" " + strings.Join(ps, " "))
 	}
-	c.fprintln(")")
+	c.writeString(")\n")
 	c.indent++
 	c.compile(node.Body)
 	c.trimLineBreak()
-- 
2.43.0


From 904b76f5ce6c9e3fb616d0f4f40f6d3ffee69bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 23/53] fix: compiler keeps bytes that are not valid UTF-8

---
 compiler/compiler.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/compiler/compiler.go b/compiler/compiler.go
index a2e6e3a..b3750e9 100644
--- a/compiler/compiler.go
+++ b/compiler/compiler.go
@@ -493,22 +493,23 @@ func (c *Compiler) compileExpr(node ast.Expr) string {
 }
 
 func escape(s string, chars string) string {
-	r := ""
-	for _, c := range s {
-		if strings.IndexRune(chars, c) != -1 {
+	var r []byte // all chars are ASCII; keep any other byte
+	for i := 0; i < len(s); i++ {
+		c := s[i]
+		if strings.IndexByte(chars, c) != -1 {
 			switch c {
 			case '\n':
-				r += `\n`
+				r = append(r, `\n`...)
 			case '\t':
-				r += `\t`
+				r = append(r, `\t`...)
 			case '\r':
-				r += `\r`
+				r = append(r, `\r`...)
 			default:
-				r += `\` + string(c)
+				r = append(r, '\\', c)
 			}
 		} else {
-			r += string(c)
+			r = append(r, c)
 		}
 	}
-	return r
+	return string(r)
 }
-- 
2.43.0


From c1ce0949e8445ac289a1de291a074095f7e886f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 24/53] fix: printing =~ and =~? expressions panics

---
 printer/opprec.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/printer/opprec.go b/printer/opprec.go
index e1ca348..b8d42ee 100644
--- a/printer/opprec.go
+++ b/printer/opprec.go
@@ -36,6 +36,8 @@ func opprec(op ast.Expr) int {
 			token.LTEQ,
 			token.LTEQCI,
 			token.LTEQCS,
+			token.MATCH,
+			token.MATCHCI,
 			token.MATCHCS,
 			token.NOMATCH,
 			token.NOMATCHCI,
-- 
2.43.0


From 13b15797419e6333bd4f673bfcdd76a4c2b56a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 25/53] fix: print parentheses around the left operand of a
 comparison if needed

---
 printer/expr.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/printer/expr.go b/printer/expr.go
index 44467c4..c410df3 100644
--- a/printer/expr.go
+++ b/printer/expr.go
@@ -61,7 +61,11 @@ func (p *printer) binaryExpr(x *ast.BinaryExpr, prec1 int) {
 		return
 	}
 	// TODO(haya14busa): handle line break.
-	p.expr1(x.Left, prec)
+	left := prec
+	if prec == 4 {
+		left++ // comparison operators do not associate
+	}
+	p.expr1(x.Left, left)
 	p.printWhite(blank)
 	p.token(x.Op)
 	p.printWhite(blank)
-- 
2.43.0


From f3be29abb550afb5194fd7eaf3f7b56ed281d35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 26/53] fix: ++bad= takes any single character

---
 autoload/vimlparser.vim |  2 +-
 go/vimlfunc.go          | 10 +++++-----
 go/vimlparser.go        |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index fc092b7..3fbb889 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1026,7 +1026,7 @@ function! s:VimLParser.parse_argopt() abort
     elseif s =~# '^++encoding=\S'
       call self.reader.getn(11)
       let self.ea.force_enc = self.reader.read_nonwhite()
-    elseif s =~# '^++bad=\(keep\|drop\|.\)\>'
+    elseif s =~# '^++bad=\(keep\|drop\|\S\)\(\s\|$\)'
       call self.reader.getn(6)
       if s =~# '^++bad=keep'
         let self.ea.bad_char = self.reader.getn(4)
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index adddbee..f426ffd 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -27,11 +27,11 @@ var patVim2Go = map[string]string{
 	"\\s":                               "\\s",
 	"\\v^d%[elete][lp]$":                "^d(elete|elet|ele|el|e|)[lp]$",
 	"\\v^s%(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])": "^s(c[^sr][^i][^p]|g|i[^mlg]|I|r[^e])",
-	"\\w":                             "[0-9A-Za-z_]",
-	"\\w\\|[:#]":                      "[0-9A-Za-z_]|[:#]",
-	"\\x":                             "[0-9A-Fa-f]",
-	"^++":                             "^\\+\\+",
-	"^++bad=\\(keep\\|drop\\|.\\)\\>": "^\\+\\+bad=(keep|drop|.)\\b",
+	"\\w":        "[0-9A-Za-z_]",
+	"\\w\\|[:#]": "[0-9A-Za-z_]|[:#]",
+	"\\x":        "[0-9A-Fa-f]",
+	"^++":        "^\\+\\+",
+	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|\\S)(\\s|$)",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 5aa3a73..91ff508 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -901,7 +901,7 @@ func (self *VimLParser) parse_argopt() {
 		} else if viml_eqregh(s, "^++encoding=\\S") {
 			self.reader.getn(11)
 			self.ea.force_enc = self.reader.read_nonwhite()
-		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|.\\)\\>") {
+		} else if viml_eqregh(s, "^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)") {
 			self.reader.getn(6)
 			if viml_eqregh(s, "^++bad=keep") {
 				self.ea.bad_char = self.reader.getn(4)
-- 
2.43.0


From f8e5a54f44d2629d49383add64222fb1621506c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 27/53] fix: const with a list rejects elements that cannot be
 locked

---
 autoload/vimlparser.vim | 4 ++--
 go/vimlparser.go        | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 3fbb889..e92bb95 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -2073,7 +2073,7 @@ function! s:VimLParser.parse_constlhs() abort
     call tokenizer.get()
     let lhs.list = []
     while s:TRUE
-      let node = self.parse_lvalue()
+      let node = self.parse_constlvalue()
       call add(lhs.list, node)
       let token = tokenizer.get()
       if token.type ==# s:TOKEN_SQCLOSE
@@ -2081,7 +2081,7 @@ function! s:VimLParser.parse_constlhs() abort
       elseif token.type ==# s:TOKEN_COMMA
         continue
       elseif token.type ==# s:TOKEN_SEMICOLON
-        let node = self.parse_lvalue()
+        let node = self.parse_constlvalue()
         let lhs.rest = node
         let token = tokenizer.get()
         if token.type ==# s:TOKEN_SQCLOSE
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 91ff508..1164544 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1907,7 +1907,7 @@ func (self *VimLParser) parse_constlhs() *lhs {
 	if tokenizer.peek().type_ == TOKEN_SQOPEN {
 		tokenizer.get()
 		for true {
-			var node = self.parse_lvalue()
+			var node = self.parse_constlvalue()
 			lhs.list = append(lhs.list, node)
 			var token = tokenizer.get()
 			if token.type_ == TOKEN_SQCLOSE {
@@ -1915,7 +1915,7 @@ func (self *VimLParser) parse_constlhs() *lhs {
 			} else if token.type_ == TOKEN_COMMA {
 				continue
 			} else if token.type_ == TOKEN_SEMICOLON {
-				node = self.parse_lvalue()
+				node = self.parse_constlvalue()
 				lhs.rest = node
 				token = tokenizer.get()
 				if token.type_ == TOKEN_SQCLOSE {
-- 
2.43.0


From 7f52e4fd7ab1b6c5e10e154c14635af60c91ad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 28/53] fix: a member of the result of a method call is no
 concatenation

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index e92bb95..8c1b46e 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4364,7 +4364,7 @@ endfunction
 "   dict "." [0-9A-Za-z_]+ => (subscript dict key)
 "   str  "." expr6         => (concat str expr6)
 function! s:ExprParser.parse_dot(token, left) abort
-  if a:left.type !=# s:NODE_IDENTIFIER && a:left.type !=# s:NODE_CURLYNAME && a:left.type !=# s:NODE_DICT && a:left.type !=# s:NODE_SUBSCRIPT && a:left.type !=# s:NODE_CALL && a:left.type !=# s:NODE_DOT
+  if a:left.type !=# s:NODE_IDENTIFIER && a:left.type !=# s:NODE_CURLYNAME && a:left.type !=# s:NODE_DICT && a:left.type !=# s:NODE_SUBSCRIPT && a:left.type !=# s:NODE_CALL && a:left.type !=# s:NODE_DOT && a:left.type !=# s:NODE_METHOD
     return s:NIL
   endif
   if !s:iswordc(self.reader.p(0))
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 1164544..35688e5 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3100,7 +3100,7 @@ func (self *ExprParser) parse_expr9() *VimNode {
 //   dict "." [0-9A-Za-z_]+ => (subscript dict key)
 //   str  "." expr6         => (concat str expr6)
 func (self *ExprParser) parse_dot(token *ExprToken, left *VimNode) *VimNode {
-	if left.type_ != NODE_IDENTIFIER && left.type_ != NODE_CURLYNAME && left.type_ != NODE_DICT && left.type_ != NODE_SUBSCRIPT && left.type_ != NODE_CALL && left.type_ != NODE_DOT {
+	if left.type_ != NODE_IDENTIFIER && left.type_ != NODE_CURLYNAME && left.type_ != NODE_DICT && left.type_ != NODE_SUBSCRIPT && left.type_ != NODE_CALL && left.type_ != NODE_DOT && left.type_ != NODE_METHOD {
 		return nil
 	}
 	if !iswordc(self.reader.p(0)) {
-- 
2.43.0


From b17a372083c92d62a713887db6897d4b72d8cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:10 +0000
Subject: [PATCH 29/53] fix: variables named is and isnot can be assigned

---
 autoload/vimlparser.vim | 2 +-
 go/vimlparser.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 8c1b46e..c9682ba 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -4564,7 +4564,7 @@ function! s:LvalueParser.parse_lv9() abort
     let node = s:Node(s:NODE_OPTION)
     let node.pos = token.pos
     let node.value = token.value
-  elseif token.type ==# s:TOKEN_IDENTIFIER
+  elseif token.type ==# s:TOKEN_IDENTIFIER || token.type ==# s:TOKEN_IS || token.type ==# s:TOKEN_ISCS || token.type ==# s:TOKEN_ISNOT || token.type ==# s:TOKEN_ISNOTCS
     call self.reader.seek_set(pos)
     let node = self.parse_identifier()
   elseif token.type ==# s:TOKEN_LT && self.reader.peekn(4) ==? 'SID>'
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 35688e5..8e03af7 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -3299,7 +3299,7 @@ func (self *LvalueParser) parse_lv9() *VimNode {
 		node = Node(NODE_OPTION)
 		node.pos = token.pos
 		node.value = token.value
-	} else if token.type_ == TOKEN_IDENTIFIER {
+	} else if token.type_ == TOKEN_IDENTIFIER || token.type_ == TOKEN_IS || token.type_ == TOKEN_ISCS || token.type_ == TOKEN_ISNOT || token.type_ == TOKEN_ISNOTCS {
 		self.reader.seek_set(pos)
 		node = self.parse_identifier()
 	} else if token.type_ == TOKEN_LT && viml_equalci(self.reader.peekn(4), "SID>") {
-- 
2.43.0


From e4ca77e15bcc1f654ca6177835616c8a4e100e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 30/53] fix: the end marker of a heredoc with trim may be
 indented like the command

---
 autoload/vimlparser.vim | 21 ++++++++++++++++++++-
 go/typedefs.vim         |  4 ++++
 go/vimlparser.go        | 21 ++++++++++++++++++++-
 3 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index c9682ba..b349f97 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -1511,8 +1511,23 @@ function! s:VimLParser.parse_cmd_call() abort
   call self.add_node(node)
 endfunction
 
+" indent of the line which the current command is in
+function! s:VimLParser.get_indent() abort
+  let i = self.ea.linepos.i
+  while i > 0 && self.reader.buf[i - 1] !=# '<EOL>'
+    let i -= 1
+  endwhile
+  let indent = ''
+  while s:iswhite(self.reader.buf[i])
+    let indent .= self.reader.buf[i]
+    let i += 1
+  endwhile
+  return indent
+endfunction
+
 function! s:VimLParser.parse_heredoc() abort
   let node = s:Node(s:NODE_HEREDOC)
+  let indent = ''
   let node.op = ''
   let node.rlist = []
   let node.body = []
@@ -1532,6 +1547,10 @@ function! s:VimLParser.parse_heredoc() abort
       let keynode.pos = pos
       let keynode.value = key
       call add(node.rlist, keynode)
+      if key ==# 'trim'
+        " the marker may be indented like the command
+        let indent = self.get_indent()
+      endif
     endif
   endwhile
   if node.op ==# ''
@@ -1544,7 +1563,7 @@ function! s:VimLParser.parse_heredoc() abort
     endif
     let pos = self.reader.getpos()
     let line = self.reader.getn(-1)
-    if line ==# node.op
+    if line ==# node.op || line ==# indent . node.op
       return node
     endif
     let linenode = s:Node(s:NODE_STRING)
diff --git a/go/typedefs.vim b/go/typedefs.vim
index c53be39..24a686f 100644
--- a/go/typedefs.vim
+++ b/go/typedefs.vim
@@ -61,6 +61,10 @@ call extend(s:typedefs.func, {
 \     'in': [],
 \     'out': ['*pos'],
 \   },
+\   'VimLParser.get_indent': {
+\     'in': [],
+\     'out': ['string'],
+\   },
 \   'VimLParser.parse_heredoc': {
 \     'in': [],
 \     'out': ['*VimNode'],
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 8e03af7..39a716d 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -1374,8 +1374,23 @@ func (self *VimLParser) parse_cmd_call() {
 	self.add_node(node)
 }
 
+// indent of the line which the current command is in
+func (self *VimLParser) get_indent() string {
+	var i = self.ea.linepos.i
+	for i > 0 && self.reader.buf[i-1] != "<EOL>" {
+		i -= 1
+	}
+	var indent = ""
+	for iswhite(self.reader.buf[i]) {
+		indent += self.reader.buf[i]
+		i += 1
+	}
+	return indent
+}
+
 func (self *VimLParser) parse_heredoc() *VimNode {
 	var node = Node(NODE_HEREDOC)
+	var indent = ""
 	node.op = ""
 	node.rlist = []*VimNode{}
 	for true {
@@ -1393,6 +1408,10 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 			keynode.pos = pos
 			keynode.value = key
 			node.rlist = append(node.rlist, keynode)
+			if key == "trim" {
+				// the marker may be indented like the command
+				indent = self.get_indent()
+			}
 		}
 	}
 	if node.op == "" {
@@ -1405,7 +1424,7 @@ func (self *VimLParser) parse_heredoc() *VimNode {
 		}
 		var pos = self.reader.getpos()
 		var line = self.reader.getn(-1)
-		if line == node.op {
+		if line == node.op || line == indent+node.op {
 			return node
 		}
 		var linenode = Node(NODE_STRING)
-- 
2.43.0


From df18a00c0937dc37b009b00a0c109c41aca6cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:23 +0000
Subject: [PATCH 31/53] fix: Walk visits absent children of hand-built nodes as
 typed nil pointers

---
 ast/walk.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/ast/walk.go b/ast/walk.go
index 8086b08..93768b0 100644
--- a/ast/walk.go
+++ b/ast/walk.go
@@ -55,7 +55,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Result)
 
 	case *ExCall:
-		Walk(v, n.FuncCall)
+		if n.FuncCall != nil {
+			Walk(v, n.FuncCall)
+		}
 
 	case *Let:
 		Walk(v, n.Left)
@@ -76,7 +78,9 @@ func Walk(v Visitor, node Node) {
 		Walk(v, n.Condition)
 		walkStmtList(v, n.Body)
 		for _, elseif := range n.ElseIf {
-			Walk(v, elseif)
+			if elseif != nil {
+				Walk(v, elseif)
+			}
 		}
 		if n.Else != nil {
 			Walk(v, n.Else)
@@ -122,7 +126,9 @@ func Walk(v Visitor, node Node) {
 	case *Try:
 		walkStmtList(v, n.Body)
 		for _, c := range n.Catch {
-			Walk(v, c)
+			if c != nil {
+				Walk(v, c)
+			}
 		}
 		if n.Finally != nil {
 			Walk(v, n.Finally)
@@ -185,7 +191,9 @@ func Walk(v Visitor, node Node) {
 
 	case *DotExpr:
 		Walk(v, n.Left)
-		Walk(v, n.Right)
+		if n.Right != nil {
+			Walk(v, n.Right)
+		}
 
 	case *BasicLit: // nothing to do
 
@@ -231,7 +239,9 @@ func Walk(v Visitor, node Node) {
 
 func walkIdentList(v Visitor, list []*Ident) {
 	for _, x := range list {
-		Walk(v, x)
+		if x != nil {
+			Walk(v, x)
+		}
 	}
 }
 
-- 
2.43.0


From 532825354855ade75a8945a7ca503395c27a535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:01 +0000
Subject: [PATCH 32/53] fix: composing characters hide quotes, blanks and names
 in front of them in vimlparser.vim

---
 autoload/vimlparser.vim | 40 +++++++++++++++++++++++++++++++++++-----
 go/vimlfunc.go          |  5 +++++
 go/vimlparser.go        |  2 +-
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index b349f97..fd7c00e 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -42,6 +42,36 @@ function! s:numtoname(num) abort
   return a:num
 endfunction
 
+" @brief Split a string to characters like split(str, '\zs'), but do not keep
+"   composing characters together with the character in front of them.
+function! s:chars(str) abort
+  let chars = split(a:str, '\zs')
+  if strchars(a:str) ==# len(chars)
+    return chars
+  endif
+  let out = []
+  for c in chars
+    while c !=# ''
+      let x = nr2char(char2nr(c))
+      if stridx(c, x) !=# 0
+        let x = c
+      endif
+      call add(out, x)
+      let c = strpart(c, len(x))
+    endwhile
+  endfor
+  return out
+endfunction
+
+" @brief escape() which escapes characters with composing characters, too.
+function! s:escape(str, chars) abort
+  let out = ''
+  for c in s:chars(a:str)
+    let out .= stridx(a:chars, c) ==# -1 ? c : '\' . c
+  endfor
+  return out
+endfunction
+
 let s:NIL = []
 let s:TRUE = 1
 let s:FALSE = 0
@@ -4619,7 +4649,7 @@ function! s:StringReader.__init__(lines) abort
   let offset = 0
   while lnum < len(a:lines)
     let col = 0
-    for c in split(a:lines[lnum], '\zs')
+    for c in s:chars(a:lines[lnum])
       call add(self.buf, c)
       call add(self.pos, [lnum + 1, col + 1, offset])
       let col += len(c)
@@ -4628,7 +4658,7 @@ function! s:StringReader.__init__(lines) abort
     while lnum + 1 < len(a:lines) && a:lines[lnum + 1] =~# '^\s*\\'
       let skip = s:TRUE
       let col = 0
-      for c in split(a:lines[lnum + 1], '\zs')
+      for c in s:chars(a:lines[lnum + 1])
         if skip
           if c ==# '\'
             let skip = s:FALSE
@@ -5132,7 +5162,7 @@ function! s:Compiler.compile_comment(node) abort
 endfunction
 
 function! s:Compiler.compile_excmd(node) abort
-  call self.out('(excmd "%s")', escape(a:node.str, '\"'))
+  call self.out('(excmd "%s")', s:escape(a:node.str, '\"'))
 endfunction
 
 function! s:Compiler.compile_function(node) abort
@@ -5336,7 +5366,7 @@ function! s:Compiler.compile_echon(node) abort
 endfunction
 
 function! s:Compiler.compile_echohl(node) abort
-  call self.out('(echohl "%s")', escape(a:node.str, '\"'))
+  call self.out('(echohl "%s")', s:escape(a:node.str, '\"'))
 endfunction
 
 function! s:Compiler.compile_echomsg(node) abort
@@ -5609,7 +5639,7 @@ endfunction
 
 function! s:Compiler.escape_string(str) abort
   let out = '"'
-  for c in split(a:str, '\zs')
+  for c in s:chars(a:str)
     if c ==# "\n"
       let out .= '\n'
     elseif c ==# "\t"
diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index f426ffd..31e40aa 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -94,6 +94,11 @@ func viml_eqregh(s, reg string) bool {
 	panic("NotImplemented viml_eqregh")
 }
 
+// chars is s:chars() of autoload/vimlparser.vim.
+func chars(str string) []string {
+	return viml_split(str, "\\zs")
+}
+
 func viml_escape(s string, chars string) string {
 	r := ""
 	for _, c := range s {
diff --git a/go/vimlparser.go b/go/vimlparser.go
index 39a716d..89ed406 100644
--- a/go/vimlparser.go
+++ b/go/vimlparser.go
@@ -4327,7 +4327,7 @@ func (self *Compiler) compile_curlynamepart(node *VimNode) string {
 
 func (self *Compiler) escape_string(str string) string {
 	var out = "\""
-	for _, c := range viml_split(str, "\\zs") {
+	for _, c := range chars(str) {
 		if c == "\n" {
 			out += "\\n"
 		} else if c == "\t" {
-- 
2.43.0


From 60a4d0d0ab1f8a51e529e42df4575ff854052f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 33/53] fix: only blanks and tabs end a ++opt, not form feeds
 and carriage returns

\s and \S of Go match \f, \r and \n as well, those of Vim do not.
---
 go/vimlfunc.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/vimlfunc.go b/go/vimlfunc.go
index 31e40aa..6fb7ecb 100644
--- a/go/vimlfunc.go
+++ b/go/vimlfunc.go
@@ -31,13 +31,13 @@ var patVim2Go = map[string]string{
 	"\\w\\|[:#]": "[0-9A-Za-z_]|[:#]",
 	"\\x":        "[0-9A-Fa-f]",
 	"^++":        "^\\+\\+",
-	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|\\S)(\\s|$)",
+	"^++bad=\\(keep\\|drop\\|\\S\\)\\(\\s\\|$\\)": "^\\+\\+bad=(keep|drop|[^ \\t])([ \\t]|$)",
 	"^++bad=drop":                     "^\\+\\+bad=drop",
 	"^++bad=keep":                     "^\\+\\+bad=keep",
 	"^++bin\\>":                       "^\\+\\+bin\\b",
 	"^++edit\\>":                      "^\\+\\+edit\\b",
-	"^++enc=\\S":                      "^\\+\\+enc=\\S",
-	"^++encoding=\\S":                 "^\\+\\+encoding=\\S",
+	"^++enc=\\S":                      "^\\+\\+enc=[^ \\t]",
+	"^++encoding=\\S":                 "^\\+\\+encoding=[^ \\t]",
 	"^++ff=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+ff=(dos|unix|mac)\\b",
 	"^++fileformat=\\(dos\\|unix\\|mac\\)\\>": "^\\+\\+fileformat=(dos|unix|mac)\\b",
 	"^++nobin\\>":                  "^\\+\\+nobin\\b",
-- 
2.43.0


From f40667992de57d3b0c18d264d34304f5168b2f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 34/53] fix: a bound with a comma in a regexp is read from the
 reader

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index fd7c00e..66809e2 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6060,7 +6060,7 @@ function! s:RegexpParser.get_token_brace(pre) abort
     let r .= n
   endif
   if self.reader.p(0) ==# ','
-    let comma = self.rader.get()
+    let comma = self.reader.get()
     let r .= comma
   endif
   if s:isdigit(self.reader.p(0))
-- 
2.43.0


From 38a574ccad7247d957e94bbf5822f14198731234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 35/53] fix: a regexp atom on line, column or mark calls the
 method that exists

---
 autoload/vimlparser.vim | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 66809e2..1206be6 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6265,6 +6265,7 @@ endfunction
 
 " \%...
 function! s:RegexpParser.get_token_percent(pre) abort
+  let pos = self.reader.tell()
   let c = self.reader.get()
   if c ==# '^'
     return [a:pre . '^', '\%^']
@@ -6279,7 +6280,8 @@ function! s:RegexpParser.get_token_percent(pre) abort
   elseif c ==# '('
     return [a:pre . '(', '\%(']
   else
-    return self.get_token_mlcv(a:pre)
+    call self.reader.seek_set(pos)
+    return self.get_token_mlvc(a:pre)
   endif
 endfunction
 
-- 
2.43.0


From 3aef344cbad80e7c8be37dec7ce0c4b0bfb45c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 36/53] fix: a class with \_ in a regexp keeps the name of the
 class

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 1206be6..a540b99 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5980,7 +5980,7 @@ function! s:RegexpParser.get_token_backslash_common() abort
     let epos = self.reader.getpos()
     let c = self.reader.get()
     if stridx(cclass, c) !=# -1
-      return ['\_' . c, '\_ . c']
+      return ['\_' . c, '\_' . c]
     elseif c ==# '^'
       return ['\_^', '\_^']
     elseif c ==# '$'
-- 
2.43.0


From a65dc35dc157540c3f52686db8e386cea661128d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 37/53] fix: \~ in a nomagic regexp is the last substitute, not
 the start of a line

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a540b99..4e6aefd 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5898,7 +5898,7 @@ function! s:RegexpParser.get_token_nomagic() abort
     elseif c ==# '%'
       return self.get_token_percent('\%')
     elseif c ==# '~'
-      return ['\~', '\^']
+      return ['\~', '\~']
     elseif c ==# '['
       return self.get_token_sq('\[')
     elseif c ==# '|'
-- 
2.43.0


From a10178bd1f864f9ed0422a795d958e6a3dab9799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 38/53] fix: \n in a regexp is a newline, not the letter n

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 4e6aefd..b9d876f 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5991,7 +5991,7 @@ function! s:RegexpParser.get_token_backslash_common() abort
       return self.get_token_sq('\_[')
     endif
     throw s:Err('E63: invalid use of \_', epos)
-  elseif stridx('etrb', c) !=# -1
+  elseif stridx('etrbn', c) !=# -1
     return ['\' . c, '\' . c]
   elseif stridx('123456789', c) !=# -1
     return ['\' . c, '\' . c]
-- 
2.43.0


From d73d4033ccc416c44d99490e0fdd5f4e9ede7327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 39/53] fix: \_[] in a regexp keeps the newline it adds

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index b9d876f..54eb12c 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6098,7 +6098,7 @@ function! s:RegexpParser.get_token_sq(pre) abort
       return [a:pre, '[']
     elseif c ==# ']'
       call self.reader.seek_cur(1)
-      return [a:pre . r . ']', '\[' . r . ']']
+      return [a:pre . r . ']', (a:pre ==# '\_[' ? a:pre : '\[') . r . ']']
     elseif c ==# '['
       let e = self.get_token_sq_char_class()
       if e ==# ''
-- 
2.43.0


From 2e46fffe0f72b81f9a481d3c9f93048495585d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 40/53] fix: a backslash and d, o, x, u or U without digits in
 a collection is a list like the others

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 54eb12c..d077398 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6201,7 +6201,7 @@ function! s:RegexpParser.get_token_sq_coll_char() abort
   endif
   if r ==# ''
     call self.reader.seek_set(pos)
-    return '\'
+    return ['\', char2nr('\')]
   endif
   return ['\' . c . r, n]
 endfunction
-- 
2.43.0


From 31fea8a0306fd93883391aa6367d680de6e6279f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 41/53] fix: a mode switch in a regexp leaves the start of a
 branch where it is

---
 autoload/vimlparser.vim | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index d077398..079afed 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5710,7 +5710,9 @@ function! s:RegexpParser.parse_regexp() abort
     call add(ret, token)
   endif
   while !self.isend(self.reader.peek())
-    let prevtoken = ntoken
+    if index(['\m', '\M', '\v', '\V', '\c', '\C', '\Z'], ntoken, 0, 0) ==# -1
+      let prevtoken = ntoken
+    endif
     let [token, ntoken] = self.get_token()
     if ntoken ==# '\m'
       let self.reg_magic = self.RE_MAGIC
@@ -5722,7 +5724,7 @@ function! s:RegexpParser.parse_regexp() abort
       let self.reg_magic = self.RE_VERY_NOMAGIC
     elseif ntoken ==# '\*'
       " '*' is not magic as the very first character.
-      if prevtoken ==# '' || prevtoken ==# '\^' || prevtoken ==# '\&' || prevtoken ==# '\|' || prevtoken ==# '\('
+      if prevtoken ==# '' || prevtoken ==# '\^' || prevtoken ==# '\&' || prevtoken ==# '\|' || prevtoken ==# '\(' || (self.reg_magic ==# self.RE_VERY_MAGIC && prevtoken ==# '\%(')
         let ntoken = '*'
       endif
     elseif ntoken ==# '\^'
-- 
2.43.0


From 88524de7ffafd959a66134616c9152f8535161cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 42/53] fix: a mode switch after $ in a regexp counts for what
 is behind it

---
 autoload/vimlparser.vim | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 079afed..abdbded 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5735,11 +5735,23 @@ function! s:RegexpParser.parse_regexp() abort
     elseif ntoken ==# '\$'
       " '$' is only magic as the very last character
       let pos = self.reader.tell()
+      let magic = self.reg_magic
       if self.reg_magic !=# self.RE_VERY_MAGIC
         while !self.isend(self.reader.peek())
           let [t, n] = self.get_token()
-          " XXX: Vim doesn't check \v and \V?
-          if n ==# '\c' || n ==# '\C' || n ==# '\m' || n ==# '\M' || n ==# '\Z'
+          if n ==# '\c' || n ==# '\C' || n ==# '\Z'
+            continue
+          elseif n ==# '\m'
+            let self.reg_magic = self.RE_MAGIC
+            continue
+          elseif n ==# '\M'
+            let self.reg_magic = self.RE_NOMAGIC
+            continue
+          elseif n ==# '\v'
+            let self.reg_magic = self.RE_VERY_MAGIC
+            continue
+          elseif n ==# '\V'
+            let self.reg_magic = self.RE_VERY_NOMAGIC
             continue
           endif
           if n !=# '\|' && n !=# '\&' && n !=# '\n' && n !=# '\)'
@@ -5748,6 +5760,7 @@ function! s:RegexpParser.parse_regexp() abort
           break
         endwhile
       endif
+      let self.reg_magic = magic
       call self.reader.seek_set(pos)
     elseif ntoken ==# '\?'
       " '?' is literal in '?' command.
-- 
2.43.0


From 11b86b8d6bebfa3fd656b38f621a18d6ad2e626f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 43/53] fix: %d, %x, %o, %u and %U in a regexp are percent
 items: \% is a plain % when very magic

---
 autoload/vimlparser.vim | 61 +++++++++++++++++++++--------------------
 1 file changed, 31 insertions(+), 30 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index abdbded..89260a4 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6025,36 +6025,6 @@ function! s:RegexpParser.get_token_backslash_common() abort
     throw s:Err('E68: Invalid character after \z', epos)
   elseif stridx('cCmMvVZ', c) !=# -1
     return ['\' . c, '\' . c]
-  elseif c ==# '%'
-    let epos = self.reader.getpos()
-    let c = self.reader.get()
-    if c ==# 'd'
-      let r = self.getdecchrs()
-      if r !=# ''
-        return ['\%d' . r, '\%d' . r]
-      endif
-    elseif c ==# 'o'
-      let r = self.getoctchrs()
-      if r !=# ''
-        return ['\%o' . r, '\%o' . r]
-      endif
-    elseif c ==# 'x'
-      let r = self.gethexchrs(2)
-      if r !=# ''
-        return ['\%x' . r, '\%x' . r]
-      endif
-    elseif c ==# 'u'
-      let r = self.gethexchrs(4)
-      if r !=# ''
-        return ['\%u' . r, '\%u' . r]
-      endif
-    elseif c ==# 'U'
-      let r = self.gethexchrs(8)
-      if r !=# ''
-        return ['\%U' . r, '\%U' . r]
-      endif
-    endif
-    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
   endif
   return ['\' . c, c]
 endfunction
@@ -6281,6 +6251,7 @@ endfunction
 " \%...
 function! s:RegexpParser.get_token_percent(pre) abort
   let pos = self.reader.tell()
+  let epos = self.reader.getpos()
   let c = self.reader.get()
   if c ==# '^'
     return [a:pre . '^', '\%^']
@@ -6294,6 +6265,36 @@ function! s:RegexpParser.get_token_percent(pre) abort
     return self.get_token_percent_sq(a:pre . '[')
   elseif c ==# '('
     return [a:pre . '(', '\%(']
+  elseif c ==# 'd'
+    let r = self.getdecchrs()
+    if r !=# ''
+      return [a:pre . 'd' . r, '\%d' . r]
+    endif
+    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
+  elseif c ==# 'o'
+    let r = self.getoctchrs()
+    if r !=# ''
+      return [a:pre . 'o' . r, '\%o' . r]
+    endif
+    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
+  elseif c ==# 'x'
+    let r = self.gethexchrs(2)
+    if r !=# ''
+      return [a:pre . 'x' . r, '\%x' . r]
+    endif
+    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
+  elseif c ==# 'u'
+    let r = self.gethexchrs(4)
+    if r !=# ''
+      return [a:pre . 'u' . r, '\%u' . r]
+    endif
+    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
+  elseif c ==# 'U'
+    let r = self.gethexchrs(8)
+    if r !=# ''
+      return [a:pre . 'U' . r, '\%U' . r]
+    endif
+    throw s:Err('E678: Invalid character after \%[dxouU]', epos)
   else
     call self.reader.seek_set(pos)
     return self.get_token_mlvc(a:pre)
-- 
2.43.0


From 2d20f28f41b23bdd47631a2144606d71016f3e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 44/53] fix: \^ and \$ in a very nomagic regexp are magic
 everywhere

---
 autoload/vimlparser.vim | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 89260a4..c65c799 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5729,14 +5729,14 @@ function! s:RegexpParser.parse_regexp() abort
       endif
     elseif ntoken ==# '\^'
       " '^' is only magic as the very first character.
-      if self.reg_magic !=# self.RE_VERY_MAGIC && prevtoken !=# '' && prevtoken !=# '\&' && prevtoken !=# '\|' && prevtoken !=# '\n' && prevtoken !=# '\(' && prevtoken !=# '\%('
+      if self.reg_magic !=# self.RE_VERY_MAGIC && self.reg_magic !=# self.RE_VERY_NOMAGIC && prevtoken !=# '' && prevtoken !=# '\&' && prevtoken !=# '\|' && prevtoken !=# '\n' && prevtoken !=# '\(' && prevtoken !=# '\%('
         let ntoken = '^'
       endif
     elseif ntoken ==# '\$'
       " '$' is only magic as the very last character
       let pos = self.reader.tell()
       let magic = self.reg_magic
-      if self.reg_magic !=# self.RE_VERY_MAGIC
+      if self.reg_magic !=# self.RE_VERY_MAGIC && self.reg_magic !=# self.RE_VERY_NOMAGIC
         while !self.isend(self.reader.peek())
           let [t, n] = self.get_token()
           if n ==# '\c' || n ==# '\C' || n ==# '\Z'
-- 
2.43.0


From 1078bbadcaf4b28a6ba9a9050a77826377ae75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 45/53] fix: \. in a very nomagic regexp is any character

---
 autoload/vimlparser.vim | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index c65c799..4dcb435 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5959,6 +5959,8 @@ function! s:RegexpParser.get_token_very_nomagic() abort
       return ['\^', '\^']
     elseif c ==# '$'
       return ['\$', '\$']
+    elseif c ==# '.'
+      return ['\.', '\.']
     elseif c ==# '<'
       return ['\<', '\<']
     elseif c ==# '>'
-- 
2.43.0


From c3efd1fefe18037a44338fdd690ac83483e0f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:16 +0000
Subject: [PATCH 46/53] fix: a range in brackets that do not end is no range

---
 autoload/vimlparser.vim | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 4dcb435..5921991 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6067,6 +6067,7 @@ endfunction
 " \[]
 function! s:RegexpParser.get_token_sq(pre) abort
   let start = self.reader.tell()
+  let epos = {}
   let r = ''
   " Complement of range
   if self.reader.p(0) ==# '^'
@@ -6084,6 +6085,9 @@ function! s:RegexpParser.get_token_sq(pre) abort
       call self.reader.seek_set(start)
       return [a:pre, '[']
     elseif c ==# ']'
+      if !empty(epos)
+        throw s:Err('E16: Invalid range', epos)
+      endif
       call self.reader.seek_cur(1)
       return [a:pre . r . ']', (a:pre ==# '\_[' ? a:pre : '\[') . r . ']']
     elseif c ==# '['
@@ -6119,7 +6123,7 @@ function! s:RegexpParser.get_token_sq(pre) abort
         let r .= e
       endif
       if startc > endc || endc > startc + 256
-        throw s:Err('E16: Invalid range', self.reader.getpos())
+        let epos = self.reader.getpos()
       endif
     endif
   endwhile
-- 
2.43.0


From a74664edfda6263b88e18c8c33a4c436a5b2418a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 47/53] fix: \* is a multi everywhere when a regexp is nomagic

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 5921991..a337c62 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5724,7 +5724,7 @@ function! s:RegexpParser.parse_regexp() abort
       let self.reg_magic = self.RE_VERY_NOMAGIC
     elseif ntoken ==# '\*'
       " '*' is not magic as the very first character.
-      if prevtoken ==# '' || prevtoken ==# '\^' || prevtoken ==# '\&' || prevtoken ==# '\|' || prevtoken ==# '\(' || (self.reg_magic ==# self.RE_VERY_MAGIC && prevtoken ==# '\%(')
+      if (self.reg_magic ==# self.RE_MAGIC || self.reg_magic ==# self.RE_VERY_MAGIC) && (prevtoken ==# '' || prevtoken ==# '\^' || prevtoken ==# '\&' || prevtoken ==# '\|' || prevtoken ==# '\(' || (self.reg_magic ==# self.RE_VERY_MAGIC && prevtoken ==# '\%('))
         let ntoken = '*'
       endif
     elseif ntoken ==# '\^'
-- 
2.43.0


From b3fd60990859630f9fdc23a628552446d6d5457b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:25 +0000
Subject: [PATCH 48/53] fix: the atoms in \%[] of a regexp are normalised too

---
 autoload/vimlparser.vim | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index a337c62..905c8e5 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6310,21 +6310,25 @@ endfunction
 " \%[]
 function! s:RegexpParser.get_token_percent_sq(pre) abort
   let r = ''
+  let nr = ''
   while s:TRUE
-    let c = self.reader.peek()
-    if self.isend(c)
+    if self.isend(self.reader.peek())
       throw s:Err('E69: Missing ] after \%[', self.reader.getpos())
-    elseif c ==# ']'
+    endif
+    let epos = self.reader.getpos()
+    let [token, ntoken] = self.get_token()
+    if ntoken ==# ']'
       if r ==# ''
-        throw s:Err('E70: Empty \%[', self.reader.getpos())
+        throw s:Err('E70: Empty \%[', epos)
       endif
-      call self.reader.seek_cur(1)
-      break
+      return [a:pre . r . token, '\%[' . nr . ']']
+    elseif (ntoken ==# '\^' || ntoken ==# '\$') && (self.reg_magic ==# self.RE_MAGIC || self.reg_magic ==# self.RE_NOMAGIC)
+      " '^' and '$' are only magic at the start and at the end of a branch.
+      let ntoken = ntoken[1]
     endif
-    call self.reader.seek_cur(1)
-    let r .= c
+    let r .= token
+    let nr .= ntoken
   endwhile
-  return [a:pre . r . ']', '\%[' . r . ']']
 endfunction
 
 " \%'m \%l \%c \%v
-- 
2.43.0


From 202f434f9a12d96f964f9667d37feae8c65b397a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:20 +0000
Subject: [PATCH 49/53] fix: - in front of the ] that ends a collection of a
 regexp makes no range

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 905c8e5..2a6d39b 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6106,7 +6106,7 @@ function! s:RegexpParser.get_token_sq(pre) abort
       let [e, startc] = self.get_token_sq_c()
       let r .= e
     endif
-    if startc !=# 0 && self.reader.p(0) ==# '-' && !self.isend(self.reader.p(1)) && !(self.reader.p(1) ==# '\' && self.reader.p(2) ==# 'n')
+    if startc !=# 0 && self.reader.p(0) ==# '-' && !self.isend(self.reader.p(1)) && self.reader.p(1) !=# ']' && !(self.reader.p(1) ==# '\' && self.reader.p(2) ==# 'n')
       call self.reader.seek_cur(1)
       let r .= '-'
       let c = self.reader.p(0)
-- 
2.43.0


From d0ee5f350db036789a5cda56704fab1d1e9da635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:13 +0000
Subject: [PATCH 50/53] fix: a backslash at the end of a regexp is a backslash

---
 autoload/vimlparser.vim | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 2a6d39b..0010b10 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -5988,6 +5988,9 @@ endfunction
 
 function! s:RegexpParser.get_token_backslash_common() abort
   let cclass = 'iIkKfFpPsSdDxXoOwWhHaAlLuU'
+  if self.reader.peek() ==# '<EOF>' || self.reader.peek() ==# '<EOL>'
+    return ['\', '\\']
+  endif
   let c = self.reader.get()
   if c ==# '\'
     return ['\\', '\\']
-- 
2.43.0


From 99cd5a3cd0ee0f16d0ff36b2a4091314ce4d893d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:03 +0000
Subject: [PATCH 51/53] fix: an octal character in a regexp ends before it is
 larger than 0377

---
 autoload/vimlparser.vim | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 0010b10..3edb3d4 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6375,7 +6375,12 @@ function! s:RegexpParser.getdecchrs() abort
 endfunction
 
 function! s:RegexpParser.getoctchrs() abort
-  return self.reader.read_odigit()
+  let r = ''
+  " Up to 0377: no digit may follow a number which is 040 or more.
+  while len(r) < 3 && str2nr(r, 8) < 32 && self.reader.peek() =~# '^[0-7]$'
+    let r .= self.reader.get()
+  endwhile
+  return r
 endfunction
 
 function! s:RegexpParser.gethexchrs(n) abort
-- 
2.43.0


From 766c71a5b24a542c9d80dd27b6e03512f79bf30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:41 +0000
Subject: [PATCH 52/53] fix: a range in a regexp may end with a collation
 element of several bytes

---
 autoload/vimlparser.vim | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 3edb3d4..3863377 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6116,7 +6116,7 @@ function! s:RegexpParser.get_token_sq(pre) abort
       if c ==# '['
         let e = self.get_token_sq_coll_element()
         if e !=# ''
-          let endc = char2nr(e[2])
+          let endc = char2nr(e[2:])
         else
           let [e, endc] = self.get_token_sq_c()
         endif
-- 
2.43.0


From f6889e15f42859ed872274d6e424ef1d8b373fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:45:42 +0000
Subject: [PATCH 53/53] fix: a * behind ^ inside of %[] is a star in a very
 magic regexp in vimlparser.vim

---
 autoload/vimlparser.vim | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/autoload/vimlparser.vim b/autoload/vimlparser.vim
index 3863377..b121c30 100644
--- a/autoload/vimlparser.vim
+++ b/autoload/vimlparser.vim
@@ -6312,6 +6312,7 @@ endfunction
 
 " \%[]
 function! s:RegexpParser.get_token_percent_sq(pre) abort
+  let prevtoken = ''
   let r = ''
   let nr = ''
   while s:TRUE
@@ -6328,7 +6329,11 @@ function! s:RegexpParser.get_token_percent_sq(pre) abort
     elseif (ntoken ==# '\^' || ntoken ==# '\$') && (self.reg_magic ==# self.RE_MAGIC || self.reg_magic ==# self.RE_NOMAGIC)
       " '^' and '$' are only magic at the start and at the end of a branch.
       let ntoken = ntoken[1]
+    elseif ntoken ==# '\*' && prevtoken ==# '\^' && self.reg_magic ==# self.RE_VERY_MAGIC
+      " '*' is not magic behind '^'.
+      let ntoken = '*'
     endif
+    let prevtoken = ntoken
     let r .= token
     let nr .= ntoken
   endwhile
-- 
2.43.0

