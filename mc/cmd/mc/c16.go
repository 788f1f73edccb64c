package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/vim-jp/go-vimlparser/compiler"

	"mc/eng"
	"mc/model"
)

// C16: the Vim script original, run by Vim.

type vimOut struct {
	O []string `json:"o"`
	E *string  `json:"e"`
}

// A vimJob is a comparison of something with what Vim does.
type vimJob struct {
	driver string                                                             // the script which Vim runs
	parts  func(thorough bool) []eng.Part                                     // the spaces
	skip   func(c eng.Case) bool                                              // cases outside of the property
	in     func(c eng.Case) interface{}                                       // what the driver gets
	judge  func(c eng.Case, line []byte) (bad string, out eng.Out, err error) // what is made of its answer
}

const vimBatch = 500

var vimRuns int64

// runVim gives a batch of cases to Vim.  It gives an error if Vim does not get
// through.
func (j *vimJob) runVim(cases []eng.Case, timeout time.Duration) ([][]byte, error) {
	dir, err := os.MkdirTemp("", "mcvim")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	var b bytes.Buffer
	enc := json.NewEncoder(&b)
	enc.SetEscapeHTML(false)
	for _, c := range cases {
		enc.Encode(j.in(c))
	}
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	if err := os.WriteFile(in, b.Bytes(), 0666); err != nil {
		return nil, err
	}
	repo := os.Getenv("REPO")
	if repo == "" {
		repo = "/repo"
	}
	atomic.AddInt64(&vimRuns, 1)
	c := exec.Command("vim", "-u", "NONE", "-i", "NONE", "-n", "-es", "-N", "--cmd", "set rtp="+repo+",$VIMRUNTIME", "-S", filepath.Join(eng.Root(), "mc", "vim", j.driver))
	c.Dir = dir
	c.Env = append(os.Environ(), "HOME="+dir, "MC_IN="+in, "MC_OUT="+out, "LC_ALL=C.UTF-8")
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var msg bytes.Buffer
	c.Stdout, c.Stderr = &msg, &msg
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(timeout, func() { syscall.Kill(-c.Process.Pid, syscall.SIGKILL) })
	c.Wait()
	t.Stop()
	d, err := os.ReadFile(out)
	if err != nil {
		return nil, fmt.Errorf("Vim gives no answer: %s", msg.String())
	}
	res := bytes.Split(bytes.TrimSuffix(d, []byte("\n")), []byte("\n"))
	if len(res) != len(cases) {
		return nil, fmt.Errorf("Vim gives %d answers for %d cases", len(res), len(cases))
	}
	return res, nil
}

// goAnswer is what the Go side makes of a case.
func goAnswer(c eng.Case) (string, *model.Node) {
	r := runImpl(c)
	switch r.Kind() {
	case "tree":
		var b bytes.Buffer
		if err := compiler.Compile(&b, r.Raw); err != nil {
			return "compiler: " + err.Error(), nil
		}
		return "ok\n" + b.String(), r.Tree
	case "error":
		return "error " + r.Text, nil
	}
	return fmt.Sprintf("%s: %v %v", r.Kind(), r.Panic, r.Other), nil
}

func vimAnswer(c eng.Case, v vimOut) string {
	if v.E != nil {
		return "error " + *v.E
	}
	s := "ok\n"
	for _, l := range v.O {
		s += l + "\n"
	}
	if c.Mode == "expr" {
		s = strings.TrimSuffix(s, "\n")
	}
	return s
}

// beyond reports texts outside of the property: Vim lines cannot have them.
func beyond(t string) bool {
	return !utf8.ValidString(t) || strings.ContainsAny(t, "\r\x00")
}

func agree(c eng.Case, v vimOut) (bad string, out eng.Out) {
	g, tree := goAnswer(c)
	w := vimAnswer(c, v)
	out.Steps, out.Compared = 1, true
	out.Outcome = eng.Hash(w)
	if tree != nil {
		out.NonTrivial = true
		out.Steps = model.Count(tree)
	}
	if g != w && (c.Mode == "found" || g != asFound(w)) {
		bad = "go-vimlparser: " + g + "\nvimlparser.vim: " + w
	}
	return
}

// eval decides a single case.
func (j *vimJob) eval(c eng.Case) (o eng.Out) {
	if j.skip(c) {
		return
	}
	res, err := j.runVim([]eng.Case{c}, 25*time.Second)
	if err == nil {
		o.Bad, o, err = j.judge1(c, res[0])
	}
	if err != nil {
		o.Bad = err.Error()
	}
	return o
}

func (j *vimJob) judge1(c eng.Case, line []byte) (string, eng.Out, error) {
	bad, o, err := j.judge(c, line)
	o.Bad = bad
	return bad, o, err
}

// run explores all parts.
func (j *vimJob) run(r *eng.Run) {
	for _, p := range j.parts(r.Thorough) {
		p := p
		n := p.S.Len()
		nb := (n + vimBatch - 1) / vimBatch
		var cases, compared, skipped int64
		t0 := time.Now()
		done := r.Each(1<<20, nb, func(w, i int) {
			var cs []eng.Case
			for k := i * vimBatch; k < n && k < (i+1)*vimBatch; k++ {
				c := eng.Case{Mode: p.Mode, Text: p.S.At(k)}
				if j.skip(c) {
					atomic.AddInt64(&skipped, 1)
					continue
				}
				cs = append(cs, c)
			}
			if len(cs) == 0 {
				return
			}
			var steps, comp int64
			var run func(cs []eng.Case)
			run = func(cs []eng.Case) {
				res, err := j.runVim(cs, 24*time.Second)
				if err != nil {
					if len(cs) == 1 {
						r.Bad(eng.Bad{Part: p.Name, Mode: p.Mode, Text: cs[0].Text, Why: err.Error()})
						return
					}
					run(cs[:len(cs)/2])
					run(cs[len(cs)/2:])
					return
				}
				for k, c := range cs {
					bad, o, err := j.judge1(c, res[k])
					if err != nil {
						bad = err.Error()
					}
					if bad != "" {
						r.Bad(eng.Bad{Part: p.Name, Mode: c.Mode, Text: c.Text, Why: bad})
					}
					steps += int64(o.Steps)
					if o.Compared {
						comp++
					}
					r.State(o.Outcome)
					if o.NonTrivial {
						r.NonTrivial(eng.Hash(c.Mode + "\x00" + c.Text))
					}
				}
			}
			run(cs)
			atomic.AddInt64(&cases, int64(len(cs)))
			atomic.AddInt64(&compared, comp)
			r.Add(int64(len(cs)), steps, comp)
		})
		r.Part(p, n, int(cases+skipped), int(compared), t0)
		if done < nb {
			r.Cut(fmt.Sprintf("%s: %d of %d cases", p.Name, cases+skipped, n))
		}
	}
	r.Set("vim_processes", atomic.LoadInt64(&vimRuns))
}

var original = &vimJob{
	driver: "driver.vim",
	parts:  vimParts,
	skip:   func(c eng.Case) bool { return beyond(c.Text) },
	in: func(c eng.Case) interface{} {
		return map[string]interface{}{"m": c.Mode, "l": append([]string{}, model.SplitLines(c.Text)...)}
	},
	judge: func(c eng.Case, line []byte) (bad string, out eng.Out, err error) {
		var v vimOut
		if err = json.Unmarshal(line, &v); err != nil {
			return "", out, fmt.Errorf("Vim gives %q", line)
		}
		bad, out = agree(c, v)
		return
	},
}

func vimParts(thorough bool) []eng.Part {
	var ps []eng.Part
	p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
	all := eng.Lits(corpus)
	two := func(a, b string) string { return a + b }
	k := 1 // sizes
	if thorough {
		k = 2
	}
	p("findings", "found", eng.Lits(vimFound))
	p("corpus", "file", all)
	p("corpus", "neo", all)
	p("contexts 1", "expr", nest(1, atoms, holes))
	p("expressions in commands", "file", eng.Wraps(places, nest(1, atoms[:1], holes)))
	p("token sequences", "file", eng.Wrap("echo %s", eng.Seq(exprWords, "", 1, 1+k)))
	p("token sequences", "expr", eng.Seq(exprWords2, "", 1, 3))
	p("blocks", "file", eng.Union(eng.Seq(blockOps, "\n", 1, 2), inAll(1, 1, blockOps, "\n"), inAll(2, 1, blockOps[:9], "\n")))
	p("command sequences", "file", eng.Seq([]string{"if a", "else", "endif", "try", "catch", "finally", "endtry", "function F()", "endfunction"}, "\n", 1, 3))
	for _, h := range []string{"let %s", "const %s", "for %s", "unlet %s", "lockvar %s", "call %s", "function %s", "catch %s"} {
		p("statements: "+h, "file", eng.Map(eng.Seq(stmtWords, "", 0, 2), func(s string) string { return fill(h, s) }))
	}
	p("texts", "file", fills(tokenHoles, eng.Seq([]string{"a", "1", "\"", "'", "\\", "é", "\u0301", " ", "\t", ".", "-", "{", "x:", "z"}, "", 0, k)))
	p("corpus in blocks", "file", fills(leads[len(leads)-4:], all))
	p("short forms", "file", eng.Seq(shortOps, "|", 1, 1+k))
	p("commands", "file", eng.Cross(eng.Lits(allNames()), eng.Lits{"", "!", " a|b", " \"a"}, two))
	p("commands", "neo", eng.Cross(eng.Lits(allNames()), eng.Lits{"", " a|b"}, two))
	p("prefixes", "file", prefixes())
	p("prefixes", "neo", prefixes())
	p("modifiers", "file", eng.Cat(modForms(), eng.Lits{" ", "|", ""}, eng.Lits{"echo 1", "hide", "x", "let a = 1", "s/a|b/", "1d", "if a|endif"}))
	p("ranges", "file", eng.Cross(eng.Lits(addresses), eng.Lits{"", ",1", ";$", ",'a", ",/p/", ","}, func(a, b string) string { return a + b + "d" }))
	p("ranges", "file", eng.Wrap("%sp", eng.Seq(rangeParts, "", 1, 1+k)))
	p("options", "file", fills([]string{"e %s x", "w %s x", "r %s", "w %s >> x", "e +1 %s x", "Foo %s", "s %s"}, eng.Union(eng.Lits(optForms), eng.Lits(plusForms))))
	p("heads", "file", eng.Map(eng.Cross(eng.Func(len(heads), itoa), eng.Seq(stmtWords, "", 1, k), func(a, b string) string { return a + " " + b }), func(s string) string {
		k := strings.IndexByte(s, ' ')
		i, _ := strconv.Atoi(s[:k])
		return heads[i].pre + s[k+1:] + heads[i].post
	}))
	p("targets", "file", fills([]string{"let %s = 1", "let [%s, b] = 1", "let [a; %s] = 1", "for %s in x\nendfor", "unlet %s", "lockvar %s", "const %s = 1", "call %s", "call %s()", "delfunction %s", "function %s()\nendfunction", "let %s =<< E\nE"}, eng.Lits(targets)))
	p("functions", "file", fills([]string{"function %s()\nendfunction", "function! %s", "delfunction %s", "call %s()"}, eng.Lits(funcNames)))
	p("parameters", "file", eng.Map(eng.Seq(paramWords, "", 0, 1+k), func(s string) string { return "function F(" + s + ")\nendfunction" }))
	p("attributes", "file", eng.Map(eng.Seq(attrWords, "", 0, 2), func(s string) string { return "function F()" + s + "\nendfunction" }))
	var hd []eng.Space
	for _, st := range starters {
		hd = append(hd, bodies(st, 0, k, true))
	}
	p("heredocs", "file", eng.Union(hd...))
	p("command ends", "file", eng.Cross(eng.Lits(enders), eng.Seq(argChars, "", 1, k), func(a, b string) string { return a + " " + b }))
	p("operators", "expr", matrix(infix, operands[:1], operands[1:2], operands[:1], spaced))
	p("followed by something", "expr", eng.Cross(eng.Lits(atoms), eng.Lits(tails), two))
	p("words", "file", eng.Seq(soup, "", 1, 2))
	p("words", "expr", eng.Seq(soup, "", 1, 2))
	p("continued", "file", continued(scripts[:100+100*k], "\n\\", "\n\t \\"))
	p("damaged corpus", "file", damaged(scripts[:40*k], "\n|\"'() "))
	if thorough {
		p("corpus in everything", "file", fills(leads, all))
		p("pairs", "file", eng.Cross(all[:150], all, func(a, b string) string { return a + "\n" + b }))
		p("contexts 2", "expr", nest(2, atoms[:2], holes))
		p("expressions in commands", "file", eng.Wraps(places, nest(1, atoms[1:6], holes)))
		p("blocks", "file", eng.Union(eng.Seq(blockOps, "\n", 3, 3), inAll(2, 1, blockOps, "\n"), inAll(1, 2, blockOps, "\n")))
		p("commands", "file", eng.Cross(eng.Lits(allNames()), eng.Lits(args), func(a, b string) string { return a + " " + b }))
		p("ranges", "file", eng.Cross(eng.Lits(addresses), eng.Lits(addresses), func(a, b string) string { return a + "," + b + "d" }))
		p("command ends", "file", eng.Cross(eng.Lits(enders), eng.Seq(argChars, "", 1, 2), two))
		p("operators", "expr", matrix(infix, operands[:3], operands[:2], operands[:1], spaced))
		p("followed by something", "expr", eng.Cross(nest(1, atoms[:1], holes), eng.Lits(tails), two))
	}
	return ps
}

// vimFound lists the inputs of the recorded findings.
var vimFound = []string{"lockvar 0 x", "unlockvar 0 x", "try\ncatch //\nendtry"}

// asFound makes the output of Vim what Go gives for the recorded findings: an
// explicit depth of 0 and an empty pattern are not in the tree.
func asFound(s string) string {
	s = emptyPattern.ReplaceAllString(s, "$1 catch$2")
	return zeroDepth.ReplaceAllString(s, "$1($2 ")
}

var (
	emptyPattern = regexp.MustCompile(`(?m)^( *) catch //(\)*)$`)
	zeroDepth    = regexp.MustCompile(`(?m)^( *)\((lockvar|unlockvar) 0 `)
)

func init() {
	add(&eng.Check{
		ID:    "C16",
		Rule:  "every script of the spaces (valid UTF-8, no carriage returns or NUL bytes) is parsed and compiled by the Go code and by autoload/vimlparser.vim in Vim; output or error text are compared. Non-trivial: accepted",
		Eval:  original.eval,
		Extra: original.run,
	})
}
