#!/usr/bin/env python3
# Writes /verif/properties.jsonl; the texts live here so that they can be edited.
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Every input yields a complete tree or one located syntax error",
 "Parsing any bytes as a script or as an expression ends with exactly one of: a tree and no error, or no tree and a syntax-error value that carries the file name given, a line and a column inside the input (or just behind its end). It never panics, never runs on, never returns a partial tree (no nil where the node type requires a part: names, conditions, right-hand sides, closing commands, argument and entry values) and never another kind of error.",
 ["inputs"],"All byte strings, including truncated, damaged and deeply nested scripts, in Vim and Neovim mode, as script and as expression.",
 "The tests run some 80 well-formed or singly broken scripts; a crash or a missing part shows up only at particular truncations, byte values and command contexts.",
 ["vimlparser.go","go/export.go","go/vimlparser.go","go/type.go","go/helper.go"],
 [("recover and convert to ErrVimlParser","vimlparser.go ParseFile, ParseExpr"),("node conversion with type assertions","go/export.go newAstNode")],
 observe=["vimlparser.ParseFile","vimlparser.ParseExpr"])

prop("C02","Expressions get the structure of the Vim expression grammar",
 "For every expression, acceptance and the tree follow Vim's grammar: ternary, ||, &&, the non-associating comparison operators (with their ? and # forms), + - . .., then * / %, the prefix operators ! - +, and the postfix forms subscript, slice, member, call and method, with left association within a level, parentheses kept as nodes and operand order preserved. Lists, dictionaries (both kinds), lambdas, curly-braces names and argument lists of any length contain exactly their elements in order.",
 ["inputs"],"All expressions: every combination of operators, operands, brackets, spacing, nesting depth and list length.",
 "Tests have a few dozen fixed expressions; precedence and association concern all pairs and triples of 36 operators and every nesting of the bracketed forms.",
 ["go/vimlparser.go","go/export.go","go/helper.go","token/token.go"],
 [("recursive descent by level","go/vimlparser.go ExprParser.parse_expr1..9"),("operator mapping","go/export.go opToken")],
 observe=["vimlparser.ParseExpr","ast expression nodes"])

prop("C03","Literal and name texts are the source text, byte for byte",
 "Every number, blob, string, option, environment variable, register, identifier and curly-name part in the tree has the right kind, and its text is exactly the bytes of its token in the source, however long and whatever bytes it contains (quotes, escapes, multi-byte characters, bytes that are not UTF-8). Where a token ends is decided by Vim's lexical rules alone, for every neighbouring character.",
 ["inputs"],"All token texts over all bytes, all neighbouring tokens, at any length.",
 "Tests use ASCII tokens of a few shapes; wrong token boundaries and lost bytes depend on particular character pairs, escapes and lengths.",
 ["go/vimlparser.go","go/type.go","go/helper.go","go/vimlfunc.go"],
 [("tokenizer","go/vimlparser.go ExprTokenizer.get2, get_sstring, get_dstring"),("characters of a line","go/type.go splitChars"),("character classes","go/helper.go")],
 observe=["ast.BasicLit","ast.Ident","ast.CurlyNameLit"])

prop("C04","Block commands nest exactly as Vim nests them",
 "For every sequence of commands, if/elseif/else/endif, while, for, try/catch/finally/endtry and function/endfunction are accepted exactly when each opening, middle and closing command matches the innermost open block, and break/continue and return only inside a loop or function. When accepted, every statement appears once, in order, in the body of the branch it is written in, every branch and closing command is attached to its own block, and this holds at any nesting depth and with any number of branches.",
 ["programs"],"All sequences of block, branch, closing, jump and plain commands, on lines or separated by bars.",
 "Tests contain a few correctly nested scripts; the property is about all configurations of the stack of open blocks and each command arriving in each of them.",
 ["go/vimlparser.go","go/type.go","go/export.go"],
 [("stack of open blocks","go/vimlparser.go push_context, pop_context, find_context, check_missing_*"),("block handlers","go/vimlparser.go parse_cmd_if .. parse_cmd_endtry")],
 state=[("context","open blocks, innermost first","go/vimlparser.go VimLParser.context")],
 observe=["ast.If","ast.Try","ast.While","ast.For","ast.Function"])

prop("C05","Positions in the tree point at the right byte of the source",
 "Every node, and every command-line, command and argument position of a command, carries the line (from 1), byte column (from 1) and byte offset (from 0) of its defining token in the input and the file name given. This holds behind multi-byte and invalid characters, tabs, continuation lines, empty lines, CRLF line ends and multi-line bodies.",
 ["inputs"],"All accepted scripts and expressions, all nodes, all layouts.",
 "Tests check positions of a handful of nodes on ASCII one-liners; an error shows only for one node kind or one layout in front of it.",
 ["go/type.go","go/vimlparser.go","go/export.go","ast/node.go","ast/pos.go"],
 [("position of each character","go/type.go StringReader.__init__, getpos"),("conversion","go/export.go newPos, newExArg"),("Pos methods","ast/node.go")],
 observe=["Node.Pos","ExArg.Linepos, Cmdpos, Argpos"])

prop("C06","Breaking a line with a continuation does not change the result",
 "Splitting a command at any byte boundary between characters by a line break, blanks or tabs and a backslash gives the same tree (positions aside) or the same error message as the unsplit command, for any number of splits, including empty continuation lines. Positions are those of the characters in the physical lines.",
 ["inputs"],"All scripts, all sets of split points, all indentations, LF and CRLF.",
 "Tests contain three scripts with continuation lines; the property quantifies over every place where a line can be split, inside every token and command.",
 ["go/type.go"],
 [("joining of continuation lines","go/type.go StringReader.__init__")],
 observe=["vimlparser.ParseFile"])

prop("C07","Command names resolve as in Vim: abbreviations, bang, Neovim, user commands",
 "Every prefix of a built-in command name down to its shortest abbreviation denotes that command (first in table order), with its documented attributes; shorter prefixes and unknown lower-case names are errors, capitalised names are user commands, and :s, :k, :d, :py and punctuation forms split name and argument as Vim does. A ! is accepted exactly for commands that take one and for user commands; in Neovim mode the added commands exist and the removed ones do not, and modes do not affect one another.",
 ["inputs","configurations"],"All command names and prefixes, followed by any character, with and without !, in both modes.",
 "Tests use a few dozen commands; there are over 500 with thousands of prefixes, and results are cached within a parse.",
 ["go/vimlparser.go","go/builtin_commands.go","go/type.go"],
 [("lookup with cache","go/vimlparser.go find_command, read_cmdname"),("tables","go/builtin_commands.go")],
 state=[("find_command_cache","names already looked up","go/vimlparser.go")],
 observe=["ExCommand.Cmd","ExArg.Forceit"])

prop("C08","Commands end where Vim ends them, and raw command text is verbatim",
 "A command ends at a bar, a comment quote or the line end exactly where Vim's rules for that command say so (not behind a backslash or CTRL-V, not inside `=expr`, search patterns, register names, or for commands that take bars or quotes as argument), and what follows is the next command or a comment. The text of a command kept verbatim is the source from its first modifier or range to that end, and comments keep their text.",
 ["inputs"],"All argument texts for all classes of commands.",
 "Tests have two dozen lines with bars; the rules depend on command attributes and on each pair of neighbouring characters.",
 ["go/vimlparser.go"],
 [("separation","go/vimlparser.go separate_nextcmd, parse_trail, parse_cmd_common"),("own syntax","go/vimlparser.go parse_cmd_syntax, parse_wincmd, parse_pattern")],
 observe=["ast.Excmd.Command","ast.Comment.Text"])

prop("C09","Statement arguments are taken apart as Vim does",
 "let, const, unlet, lockvar, unlockvar, for, call, eval, throw, return, echo and its relatives, echohl, execute, delfunction, if, elseif, while and catch are accepted exactly with the arguments Vim's syntax gives them, and the node holds precisely these: operator, targets in order, rest target, depth, names, expressions in order, pattern. Forms that only display (such as let without an assignment) are kept as plain commands, and illegal targets are rejected.",
 ["inputs"],"All argument lists of these commands, of any length, followed by any end of command.",
 "Tests cover one or two shapes per statement; operators, target kinds, counts and spacing combine freely.",
 ["go/vimlparser.go","go/export.go"],
 [("handlers","go/vimlparser.go parse_cmd_let .. parse_cmd_execute, parse_letlhs, parse_lvaluelist"),("conversion","go/export.go")],
 observe=["ast statement nodes"])

prop("C10","Function and lambda headers keep name, parameters, defaults, attributes",
 "A function header is accepted exactly with a legal name, distinct legal parameter names, defaults only at the end of the list before an optional ..., and attributes from range, abort, dict, closure in any order; the node then has exactly that name, these parameters and default expressions in order, and these attributes. Lambda parameters obey the same naming rules, and :function without a parameter list is a plain command.",
 ["inputs"],"All names, parameter lists, defaults, spacings and attribute sequences.",
 "Tests have single examples of each error; combinations and longer lists are not covered.",
 ["go/vimlparser.go","go/export.go"],
 [("header","go/vimlparser.go parse_cmd_function"),("lambda","go/vimlparser.go ExprParser.parse_lambda")],
 observe=["ast.Function","ast.LambdaExpr"])

prop("C11","The S-expression output is exactly the documented rendering of the tree",
 "Compiling any tree the parser returns, or any statement or expression of it, writes the S-expression form of vim-vimlparser: each construct in its fixed form with all its parts in order, blocks indented by the configured indent per level, strings escaped, comments as ; lines. The output depends on nothing but tree and indent, compiling changes neither the tree nor the compiler, and a write error is returned.",
 ["programs","fault_sequences"],"All trees, roots, indents, repeated use of one compiler, and writers failing at any byte.",
 "Tests compare the output for fixed scripts and one indent with a writer that never fails.",
 ["compiler/compiler.go"],
 [("rendering","compiler/compiler.go compile*"),("write","compiler/compiler.go Compile")],
 state=[("indent","nesting level, back to 0 after use","compiler/compiler.go")],
 observe=["compiler.Compile","Compiler.Compile"])

prop("C12","Walk and Inspect visit every node once, in source order, as documented",
 "Walking any tree visits the root and every node reachable from it exactly once, parents before children and siblings in the documented field order, uses the visitor returned for a node for its children, skips the children when that is nil (Inspect: false), and calls Visit(nil) (Inspect: f(nil)) after the children of each node entered, and never for absent children. The tree is not changed.",
 ["programs","histories"],"All trees, any node as root, any set of nodes at which the visitor prunes or changes.",
 "The tests walk a few statements; a forgotten child or a wrong order concerns one field of one node type.",
 ["ast/walk.go","ast/node.go"],
 [("traversal","ast/walk.go Walk, Inspect")],
 observe=["ast.Walk","ast.Inspect"])

prop("C13","Printing an expression and parsing it again gives the same expression",
 "For every expression built from identifiers, literals, prefix and infix operators, subscripts and parentheses - parsed or built by hand - the printer's output parses to the same expression, and printing that again gives the same text. The parentheses of the tree are kept, doubled ones as one pair, and others are added only where leaving them out would change the meaning, so never for an expression which was parsed. Unsupported statements and files give an error rather than output, and write errors are returned.",
 ["programs"],"All expressions over the supported node types, all operators, all nestings, including trees without the parentheses the source would need.",
 "Tests print 16 expressions; missing or misplaced parentheses depend on the pair of operators and the side.",
 ["printer/expr.go","printer/opprec.go","printer/printer.go"],
 [("parentheses by precedence","printer/expr.go binaryExpr, unaryExpr; printer/opprec.go opprec")],
 observe=["printer.Fprint"])

prop("C14","Results do not depend on other parses, before or at the same time",
 "Parsing, compiling, walking or printing gives the same result whatever was parsed, compiled, walked or printed before in the process, in either mode, successfully or not, and whatever runs at the same time in other goroutines on other inputs, without data races. Results already returned never change afterwards.",
 ["histories","schedules"],"All sequences of earlier calls and all interleavings of concurrent calls.",
 "Each test runs one call in a fresh or nearly fresh process, never concurrently; shared tables, caches and pooled state are invisible to them.",
 ["go/vimlparser.go","go/builtin_commands.go","go/type.go","go/vimlfunc.go","compiler/compiler.go","vimlparser.go"],
 [("per-parser caches","go/type.go NewVimLParser, NewExprTokenizer"),("shared command tables and regexps","go/builtin_commands.go, go/vimlfunc.go")],
 state=[("package variables","command tables, compiled patterns","go/*.go")],
 observe=["all exported functions"],hook="none in the repository; scheduling points are put in by an overlay at check time")

prop("C15","The result depends on the bytes read, not on how the reader delivers them",
 "However a reader splits the input (any chunk sizes, empty reads, end of file with or after the last data), lines of any length, with or without a final newline, with LF or CRLF ends, the result is that of the whole text; a missing final newline changes nothing and CRLF changes only offsets. If the reader fails at any point with an error other than end of file, that error is returned and there is no tree.",
 ["inputs","fault_sequences"],"All ways of cutting a text into reads, all failure points, all line lengths around buffer sizes.",
 "Tests read from one strings.Reader or file in full.",
 ["vimlparser.go","go/type.go"],
 [("reading of lines","vimlparser.go readlines"),("line ends","go/type.go StringReader.__init__")],
 observe=["vimlparser.ParseFile","vimlparser.ParseExpr"])

prop("C16","The Go parser and compiler agree with the Vim script original",
 "For every script, the Go implementation and autoload/vimlparser.vim, run by Vim, both accept it with the same S-expression output or both reject it with the same message and position. This holds in Vim and in Neovim mode.",
 ["programs"],"All scripts that Vim can hold in a list of lines.",
 "The repository compares both on its own test files only, and the generated Go file can be edited or generated anew at any time.",
 ["autoload/vimlparser.vim","go/vimlparser.go","compiler/compiler.go","go/gocompiler.vim"],
 [("translation to Go","go/gocompiler.vim, go/generate.vim"),("S-expression output of both","autoload/vimlparser.vim Compiler; compiler/compiler.go")],
 observe=["vimlparser#import() in Vim","compiler.Compile"])

prop("C17","The command line tool reports every file faithfully",
 "The vimlparser command parses each file argument in order (standard input without arguments), writes for each good one its S-expression (or with -json the tree as JSON) to standard output and for each bad or unreadable one the error with file name, line and column to standard error, goes on with the remaining files, and exits with 0 exactly if all were good and written (a write error is reported too). -neovim selects the Neovim parser for all files.",
 ["configurations","inputs"],"All sequences of file arguments with any states of the files, all flags, standard input.",
 "The tests run the command on one good file at a time.",
 ["cmd/vimlparser/main.go","vimlparser.go","compiler/compiler.go"],
 [("main loop","cmd/vimlparser/main.go main, parseFile"),("error text","vimlparser.go ErrVimlParser.Error")],
 observe=["exit status, standard output, standard error"])

prop("C18","Syntax errors name the right place and reason",
 "For every rejected input the error gives the message of the first violated rule with the offending text, and the line, byte column and byte offset of the offending token, also behind multi-byte characters, continuation lines, CRLF line ends and multi-line bodies. The error text contains file name, line, column and message.",
 ["inputs"],"All rejected scripts and expressions.",
 "Tests check some 25 error scripts, each in one layout, and no offsets.",
 ["go/vimlparser.go","go/type.go","vimlparser.go"],
 [("errors with position","go/vimlparser.go Err calls; go/type.go Err, ParseError"),("conversion","vimlparser.go ErrVimlParser")],
 observe=["ErrVimlParser"])

prop("C19","Heredocs and other multi-line bodies are taken verbatim to their end",
 "The body of a let heredoc, of append and insert, of an embedded script (lua, perl, python, python3, py3, ruby, tcl, mzscheme with << marker), of loadkeymap and the rest of a script after finish at top level is not parsed as commands: it is kept line by line, byte for byte, up to exactly the first line that equals the end marker (for loadkeymap and finish the end of the input), and parsing goes on right behind it. A missing end marker is an error for heredocs only.",
 ["inputs"],"All bodies and markers, including lines that look like markers, commands, comments, continuation or empty lines, in every block.",
 "Tests have four small bodies.",
 ["go/vimlparser.go","go/export.go"],
 [("bodies","go/vimlparser.go parse_heredoc, parse_cmd_append, parse_cmd_lua and relatives, parse_cmd_loadkeymap, parse_cmd_finish")],
 observe=["ast.HeredocExpr","ast.Excmd.Command"])

prop("C20","Modifiers, ranges and ++opt/+cmd arguments are recognised and recorded",
 "Every sequence of command modifiers (abbreviated or not, with count or ! where allowed), every range (line numbers, marks, patterns, offsets, % and *, separated by , or ;), every ++opt and +cmd argument, ! and filter form, >> for write, and the repeat count of < and > is accepted exactly as in Vim. They are recorded with the command in order and with their values, and nothing of one command shows up in another.",
 ["inputs"],"All combinations in front of and behind all kinds of commands.",
 "Tests contain one script of modifiers and never look at what is recorded.",
 ["go/vimlparser.go","go/export.go","ast/exarg.go"],
 [("modifiers, range, argopt","go/vimlparser.go parse_command_modifiers, parse_range, parse_argopt, parse_argcmd"),("conversion","go/export.go newExArg")],
 state=[("ea","what is known about the current command","go/vimlparser.go VimLParser.ea")],
 observe=["ast.ExArg"])

prop("C21","Scripts compose: a statement's tree does not depend on its surroundings",
 "For complete scripts A and B the tree of A followed by B is the statements of A followed by those of B, with the positions of B shifted by A's lines and bytes, and the error of A followed by B is that of A, or that of B shifted. Likewise a complete script inside the body of any block, in front of or behind any command, gives the same statements as on its own (return, break, continue and finish being checked against the block).",
 ["programs"],"All scripts A and B and all surroundings, of any length.",
 "Tests look at each script alone; parser state kept from one command to the next shows only in particular pairs.",
 ["go/vimlparser.go","go/type.go"],
 [("per-command state reset","go/vimlparser.go parse_one_cmd")],
 state=[("ea, context, caches","parser state between commands","go/vimlparser.go")],
 observe=["vimlparser.ParseFile"])

prop("C22","An expression has the same tree wherever it is written",
 "Parsing an expression by itself, and as argument, condition, default value, list or dictionary element, subscript, operand in parentheses or right-hand side in any command that takes expressions, gives the same subtree with all positions moved by the place it stands at. Parsing an expression by itself takes the longest leading expression and ignores what follows it.",
 ["inputs"],"All expressions, all places, any preceding text.",
 "Tests parse expressions in one command each, and stand-alone expressions only in the printer tests.",
 ["vimlparser.go","go/vimlparser.go","go/export.go"],
 [("one expression parser for all commands","go/vimlparser.go ExprParser; vimlparser.go ParseExpr")],
 observe=["vimlparser.ParseExpr","vimlparser.ParseFile"])

prop("C23","The committed Go parser is what the generator makes of the Vim script original",
 "Regenerating the Go parser from the Vim script original (go/generate.sh: go/generate.vim with go/gocompiler.vim and go/typedefs.vim, and go/gen_builtin_commands.vim) gives a parser that on every input, in both modes and for single expressions, gives the same tree, positions included, or the same error as the committed one. So neither the original, the generator nor the committed code can be changed alone without the next regeneration changing what users get.",
 ["inputs"],"All scripts and expressions, in Vim and Neovim mode.",
 "No test runs the generator; a difference shows only when someone regenerates, and then only on inputs that reach the construct the generator translates wrongly.",
 ["go/gocompiler.vim","go/typedefs.vim","go/generate.vim","go/gen_builtin_commands.vim","go/generate.sh","autoload/vimlparser.vim","go/vimlparser.go","go/builtin_commands.go"],
 [("translator","go/gocompiler.vim"),("types","go/typedefs.vim"),("command tables","go/gen_builtin_commands.vim"),("committed output","go/vimlparser.go, go/builtin_commands.go")],
 observe=["vimlparser.ParseFile","vimlparser.ParseExpr"])

prop("C24","The regular expression parser of the Vim script original agrees with Vim",
 "The regular expression parser of the Vim script original accepts every pattern that Vim accepts and splits it, up to its delimiter, into tokens which mean the same whatever mode was on (all magic items with a backslash, as in very nomagic): put together again they match exactly what the pattern matches. It reports broken patterns as its own errors and never fails in any other way; for the ? command a \\? is a literal question mark.",
 ["inputs"],"All patterns of Vim 7.3 items in all four modes, with mode switches anywhere. Outside are composing characters and what Vim accepts without documenting it.",
 "No test calls it.",
 ["autoload/vimlparser.vim"],
 [("mode switches, position of ^ $ *","autoload/vimlparser.vim RegexpParser.parse_regexp"),("items by mode","autoload/vimlparser.vim RegexpParser.get_token_very_magic, get_token_magic, get_token_nomagic, get_token_very_nomagic, get_token_backslash_common"),("collections, counts, percent items","autoload/vimlparser.vim RegexpParser.get_token_sq, get_token_brace, get_token_percent, get_token_mlvc")],
 state=[("reg_magic","the mode in force","autoload/vimlparser.vim RegexpParser")],
 observe=["the list of tokens of parse_regexp"])

open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in P))
