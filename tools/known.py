"""Writes known_findings.json."""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [
 ("offset of characters on continuation", "C05"), ("report the byte offset of an error", "C18"), ("keep bytes that are not valid UTF-8, and", "C03"),
 ("parse lines longer than 64 KB", "C15"), ("count the carriage return", "C05"), ("recognize :dl and :dp", "C07"), ("only blanks and tabs may precede", "C06"),
 ('a :@" executes', "C08"), (':@" executes', "C08"), ("keep :hide", "C20"), ("a user command with a digit", "C07"), ("Excmd.Cmd panics", "C01"), ("counts that do not fit", "C20"),
 ("position of a key of a literal", "C05"), ("a literal dictionary is neither", "C02"), ("position of an expression in a curly", "C05"), ("position of a heredoc", "C05"),
 ("Walk skips default", "C12"), ("composing characters hide", "C16"), ("Walk visits absent", "C12"), ("Inspect calls f(nil)", "C12"), ("Walk visits the missing end", "C12"), ('compiling an expression with a "%"', "C11"),
 ('compiling a function drops', "C11"), ("indentation within the first line", "C11"), ("compiler keeps bytes", "C11"), ("printing =~ and", "C13"), ("print parentheses around", "C13"), ("only blanks and tabs end a ++opt", "C20"),
 ("++bad= takes", "C20"), ("const with a list rejects", "C09"), ("a member of the result of a method", "C02"), ("variables named is and isnot", "C09"), ("the end marker of a heredoc with trim", "C19"),
 ('- in front of the ] that ends a collecti', "C24"),
 ('the atoms in \\%[] of a regexp are normal', "C24"),
 ('\\* is a multi everywhere when a regexp i', "C24"),
 ('a range in brackets that do not end is n', "C24"),
 ('\\. in a very nomagic regexp is any chara', "C24"),
 ('\\^ and \\$ in a very nomagic regexp are m', "C24"),
 ('%d, %x, %o, %u and %U in a regexp are pe', "C24"),
 ('a mode switch after $ in a regexp counts', "C24"),
 ('a mode switch in a regexp leaves the sta', "C24"),
 ('a backslash and d, o, x, u or U without ', "C24"),
 ('\\_[] in a regexp keeps the newline it ad', "C24"),
 ('\\n in a regexp is a newline, not the let', "C24"),
 ('\\~ in a nomagic regexp is the last subst', "C24"),
 ('a class with \\_ in a regexp keeps the na', "C24"),
 ('a regexp atom on line, column or mark ca', "C24"),
 ('a bound with a comma in a regexp is read', "C24"),
 ("a backslash at the end of a regexp", "C24"),
 ("an octal character in a regexp", "C24"),
 ("a range in a regexp may end", "C24"),
 ("a * behind ^ inside of", "C24"),
]
out = []
for l in subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], text=True).splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    s = s[5:]
    ps = [p for k, p in P if s.startswith(k)]
    assert ps, s
    out.append("fixed: property=%s %s %s" % (ps[0], h, s))
fs = json.load(open(root + "/tools/findings.json")) if os.path.exists(root + "/tools/findings.json") else []
json.dump({"findings": fs, "fixed": out}, open(root + "/known_findings.json", "w"), indent=1, ensure_ascii=False)
open(root + "/known_findings.json", "a").write("\n")
