package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"unicode"
	"unicode/utf8"

	"mc/eng"
)

// C24: the regular expression parser of the Vim script original.

// Patterns outside of the property.
var notClaimed = []*regexp.Regexp{
	// items which came with later versions of Vim
	regexp.MustCompile(`%C|%[<>]?\.|@[0-9]|\\z\(`),
	// ranges in collections which later versions have: more than 256
	// characters, up to - or to a class
	regexp.MustCompile(`-[^\x01-\xff]|\[.*--|-\[[=:]`),
	// a range up to a collation element without a ] directly behind that: the
	// collection ends with the element when Vim looks for its end, but not when
	// it looks at the range
	regexp.MustCompile(`-\[\..\.\]([^\]]|$)`),
	// marks which move by themselves
	regexp.MustCompile(`%[<>]?'[^a-z]`),
	// What follows is accepted by Vim but not in its documentation.
	// A backslash inside of an item, a range up to \\ or \].
	regexp.MustCompile(`\[.*-\\[\\\]]|\\%\\|\{(--|-?\\-)`),
	// A backslash in front of a character which is not ASCII.
	regexp.MustCompile(`\\[^\x01-\x7f]`),
	// \v and a literal |, & or ) behind $
	regexp.MustCompile(`\$(\\[cCmMvVZ])*\\v(\\[cCmMvVZ])*\\[|&)]`),
	// A multi directly behind \_^ or behind a line, column or virtual
	// column, a mark with a number.
	regexp.MustCompile(`\\_\^(\\[cCmMvVZ])*\*|%[<>]?[0-9]+[lcv](\\[cCmMvVZ])*[*^]|%[<>]?[0-9]+'`),
	// A * behind %^ with \v, which Vim takes for a star, and a back reference
	// without a group, which Vim accepts if @<= or @<! is anywhere behind it.
	regexp.MustCompile(`\\v.*(%\^(\\[cCmMvVZ])*\*|\\[1-9].*\\@<[=!])`),
}

func noPattern(c eng.Case) bool {
	t := c.Text
	if !utf8.ValidString(t) || strings.ContainsAny(t, "\x00\n\r") {
		return true
	}
	for _, r := range t {
		if unicode.Is(unicode.M, r) {
			return true
		}
	}
	for _, o := range notClaimed {
		if o.MatchString(t) {
			return true
		}
	}
	return strings.Contains(t, `\v`) && strings.Contains(t, `%\`)
}

type regexpOut struct {
	E *string  `json:"e"`
	X *string  `json:"x"`
	N string   `json:"n"`
	W []string `json:"w"`
	G []string `json:"g"`
	B string   `json:"b"`
}

func sameMatches(c eng.Case, line []byte) (bad string, out eng.Out, err error) {
	var v regexpOut
	if err = json.Unmarshal(line, &v); err != nil {
		return "", out, fmt.Errorf("Vim gives %q", line)
	}
	out.Steps = len(c.Text)
	out.Compared = true
	switch {
	case v.X != nil && !strings.HasPrefix(*v.X, "vimlparser: E"):
		bad = "breaks: " + *v.X
	case v.E != nil:
		out.Outcome = eng.Hash("rejected by Vim")
	case v.X != nil:
		bad = "rejects: " + *v.X + "\nVim accepts it"
	case v.B != "":
		bad = v.B
	case strings.Join(v.W, "\n") != strings.Join(v.G, "\n"):
		bad = fmt.Sprintf("tokens: %s\nmatches of the pattern: %q\nmatches of the tokens: %q", v.N, v.W, v.G)
	default:
		out.NonTrivial = true
		out.Outcome = eng.Hash(strings.Join(v.W, "\n"))
	}
	return
}

var (
	reTokens = strings.Fields(`a b 1 * \* \+ \= \? + = ? \{1,2} \{-1,} \{2} \{,1} {1} \{} { } - , ^ \^ $ \$ . \. ~ \~ [ab] [^a] [a-b] [] []a] [[:alpha:]] [[=a=]] [[.a.]] [\d97] [\]a] [\t] [a \[ab] \_[ab] \( \) ( ) \%( %( \| | \& & \@> \@= \@! \@<= \@<! @> @= \< \> < > \m \M \v \V \c \C \Z \n \t \r \e \b \1 \zs \ze \s \S \_s \i \a \_^ \_$ \_. \%d97 \%x61 \%u61 \%o141 \%U61 \%[ab] %[ab] \%^ \%$ \%V \%# \%1l \%<2c \%>1v \%'m \%<'m \%>'m \/ / é \\ \y %d97 %1l %^ \_a \x \%#=1 \%#=0 \%#=2 \%#=3 \z1 [-a] [^]a] [^-a] [a\-b] [a\n] \%[] [a\nb] [x\]`)
	// in threes
	re3 = strings.Fields(`a * \* + \+ ? \? {1,2} \{1,2} @! \@= ^ \^ $ \$ . \. ~ \~ [ab] \[ab] [a ( \( \) \%( | \| \& \v \V \m \M \n %`)
	// in longer sequences: what decides whether ^, $ and * are magic
	rePos = strings.Fields(`a * \* ^ \^ $ \$ \( \) \| \& \n \v \V \M \c`)
	reBra = []string{"a", "c", "-", "]", "\\]", "\\\\", "\\-", "^", "\\^", "\\n", "\\t", "\\d99", "\\x62", "\\x", "[", "[:alpha:]", "[:alfa:]", "[=a=]", "[.a.]", "é", "\\a", " "}
	reMul = strings.Fields(`- 1 2 0 , \ } { ] 9`)
	reOpt = strings.Fields(`a ^ $ . \. * \* [ [ac] \[ac] \] ~ \a \d %d97 \%d97 é \\ - (`)
	reNum = strings.Fields(`d x o u U < > ' 1 0 9 61 141 00e9 a f m l c v [ ] ( ^ $ # = C .`)
	reEnd = []string{"a", "b", "c", "0", "é", "ÿ", "\\t", "\\e", "\\b", "\\r", "\\n", "\\d97", "\\d098", "\\o141", "\\o0142", "\\x61", "\\xe9", "\\u61", "\\u0062", "\\u00e9", "\\u0100", "\\o77", "\\U61", "\\U00000063", "\\d", "\\u", "[.a.]", "[.é.]", "[=a=]", "[", "]", "\\]", "\\\\", "\\^", "\\-", "^", "~"}
	modes = []string{"", "\\v", "\\V", "\\M"}
	items = []string{"%s", "\\%s", "a%s", "a\\%s", "\\z%s", "\\_%s", "\\%%%s", "%%%s", "\\@%s", "a\\@<%s", "a\\{%s", "a{%s", "[%s]", "[\\%s]", "[^%s]", "[a%s]", "[a-%s]", "[%s-z]", "[\\%s-\\x7f]", "\\_[%s]", "\\%%[%s]", "\\%%[a\\%s]", "\\(%s\\)", "\\%s*", "%s*", "^%s", "^\\%s", "%s$", "$%s", "$\\%s", "\\%%%s1l", "\\%%1%s", "\\%%d%s", "\\%%#=%s", "\\%%#=2%s", "\\%%x6%s"}
)

func regexps(thorough bool) []eng.Part {
	var ps []eng.Part
	p := func(name string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: "regexp", S: s}) }
	in := func(s eng.Space) eng.Space {
		return eng.Cross(eng.Lits(modes), s, func(a, b string) string { return a + b })
	}
	wrap := func(pre string, s eng.Space, post ...string) eng.Space {
		return eng.Cross(s, eng.Lits(post), func(a, b string) string { return pre + a + b })
	}
	k := 0
	if thorough {
		k = 1
	}
	p("items", eng.Seq(reTokens, "", 0, 2))
	p("items in modes", in(eng.Seq(reTokens, "", 1, 1+k)))
	p("three items", eng.Seq(re3, "", 3, 3))
	p("magic by position", eng.Seq(rePos, "", 4, 4+k))
	p("collections", in(wrap("[", eng.Seq(reBra, "", 0, 2+k), "]", "]*", "", "-]")))
	p("ranges", in(eng.Cross(eng.Cross(eng.Lits(reEnd), eng.Lits(reEnd), func(a, b string) string { return a + "-" + b }), eng.Lits{"[%]", "[^%]x", "[]%]", "[a%z]*", "\\_[%]"}, func(a, b string) string { return strings.Replace(b, "%", a, 1) })))
	p("collections with newline", wrap("\\_[", eng.Seq(reBra, "", 1, 2+k), "]", ""))
	p("counts", eng.Union(wrap("a\\{", eng.Seq(reMul, "", 0, 4+k), "}"), wrap("\\va{", eng.Seq(reMul, "", 0, 3+k), "}", "")))
	p("optional sequences", in(eng.Union(wrap("\\%[", eng.Seq(reOpt, "", 0, 2+k), "]", "]*"), wrap("%[", eng.Seq(reOpt, "", 1, 1+k), "]"))))
	p("percent items", in(eng.Union(wrap("\\%", eng.Seq(reNum, "", 1, 2+k), "", "a"), wrap("%", eng.Seq(reNum, "", 1, 1+k), "a"))))
	var chars []string
	for c := 1; c < 0x7f; c++ {
		chars = append(chars, string(rune(c)))
	}
	chars = append(chars, "\u00a0", "é", "ß", "あ", "𝒳", "\u2028")
	p("every character", in(fills2(items, chars)))
	if thorough {
		p("three of all items", eng.Cross(eng.Seq(reTokens, "", 1, 1), eng.Seq(re3, "", 2, 2), func(a, b string) string { return a + b }))
	}
	return ps
}

func fills2(forms, words []string) eng.Space {
	return eng.Cross(eng.Lits(forms), eng.Lits(words), func(f, w string) string { return fmt.Sprintf(f, w) })
}

var reJob = &vimJob{
	driver: "regexp.vim",
	parts:  regexps,
	skip:   noPattern,
	in:     func(c eng.Case) interface{} { return c.Text },
	judge:  sameMatches,
}

func init() {
	add(&eng.Check{
		ID:    "C24",
		Rule:  "element: a pattern, given to Vim and to RegexpParser of autoload/vimlparser.vim in Vim; compared: all matches of the pattern and of its tokens, put together as a very nomagic pattern, in a buffer of 39 lines; where the parser stops; the same in front of a delimiter and for the ? command. Non-trivial: accepted by Vim. Outside: composing characters, NUL, line ends, items newer than Vim 7.3, forms which Vim accepts but does not document",
		Eval:  reJob.eval,
		Extra: reJob.run,
	})
}
