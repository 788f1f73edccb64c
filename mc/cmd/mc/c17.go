package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"time"

	"github.com/vim-jp/go-vimlparser/ast"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C17: the command line tool.

// cliFile is a file the tool is given: how it is spelled, and what is in it.
type cliFile struct {
	name, text string
	kind       string // "", missing, directory
}

var cliFiles = map[string]cliFile{
	"good":    {name: "good.vim", text: "let x = 'é'\nif x | echo [1, {'a': 2}] | endif\n"},
	"good2":   {name: "./sub/good 2.vim", text: "function! s:f(a, b = 1, ...) abort\n  return a:a\nendfunction\n\" c"},
	"bad":     {name: "bad.vim", text: "echo 1\nlet x = 'é' + (\n"},
	"bad2":    {name: "sub/bé\td.vim", text: "if 1\nwhile 2\nendif\n"},
	"bad3":    {name: "%s%d.vim", text: "\r\n\r\n  nosuchcommand %s"},
	"empty":   {name: "empty.vim", text: ""},
	"missing": {name: "missing.vim", kind: "missing"},
	"nodir":   {name: "no/such/dir/%v.vim", kind: "missing"},
	"dir":     {name: "sub", kind: "directory"},
	"neo":     {name: "neo.vim", text: "tnoremap <Esc> <C-n>\nrshada x\n"},
	"vim":     {name: "vim.vim", text: "echo 1\ntearoff x\n"},
	"crlf":    {name: "cr\\lf.vim", text: "echo 1\r\nlet y =<< E\r\n a\r\nE\r\n"},
	"bytes":   {name: "bytes.vim", text: "echo '\xff\x00'\n\"\xc3\n"},
	"<>&":     {name: "a<b>&c.vim", text: "echo '<>&' \"\\<Esc>\"\n"},
	"loop":    {name: "loop.vim", kind: "loop"},
}

var cliFlags = []string{"", "-json", "-neovim", "-json -neovim", "-neovim -json", "--json", "-json=false", "-neovim=true", "-json=true -neovim=false"}

var cli struct {
	once sync.Once
	bin  string
	dir  string
	help string
}

func cliSetup() {
	cli.once.Do(func() {
		root := filepath.Join(eng.Root(), ".build")
		cli.bin, cli.dir = filepath.Join(root, "vimlparser"), filepath.Join(root, "cli")
		repo := os.Getenv("REPO")
		if repo == "" {
			repo = "/repo"
		}
		c := exec.Command("go", "build", "-mod=readonly", "-o", cli.bin, "./cmd/vimlparser")
		c.Dir = repo
		if out, err := c.CombinedOutput(); err != nil {
			fmt.Fprintf(os.Stderr, "%s%v\n", out, err)
			os.Exit(2)
		}
		for _, f := range cliFiles {
			p := filepath.Join(cli.dir, f.name)
			switch f.kind {
			case "missing":
				continue
			case "directory":
				os.MkdirAll(p, 0777)
				continue
			case "loop":
				os.Symlink(f.name, p)
				continue
			}
			os.MkdirAll(filepath.Dir(p), 0777)
			if err := os.WriteFile(p, []byte(f.text), 0666); err != nil {
				panic(err)
			}
		}
		var b bytes.Buffer
		c = exec.Command(cli.bin, "-h")
		c.Stderr, c.Stdout = &b, &b
		c.Run()
		cli.help = b.String()
	})
}

// cliOut is what one input should yield.
type cliOut struct {
	tree *impl.Result
	json bool
	err  string // the exact line, or
	name string // a line with this in it
}

func cliExpect(name, text, kind string, neovim, asJSON bool) cliOut {
	if kind != "" {
		return cliOut{name: name}
	}
	r := impl.ParseReader(strings.NewReader(text), name, neovim)
	if r.Kind() == "tree" {
		return cliOut{tree: r, json: asJSON}
	}
	if r.Err == nil {
		return cliOut{name: name}
	}
	if name == "" {
		return cliOut{err: fmt.Sprintf("vimlparser: %s: line %d col %d", r.Msg, r.Err.Pos.Line, r.Err.Pos.Col)}
	}
	return cliOut{err: fmt.Sprintf("%s:%d:%d: vimlparser: %s", name, r.Err.Pos.Line, r.Err.Pos.Col, r.Msg)}
}

// jsonOf is the tree as generic JSON, made by reflection.
func jsonOf(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return nil
		}
		return jsonOf(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		l := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			l = append(l, jsonOf(v.Index(i)))
		}
		return l
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				m[f.Name] = jsonOf(v.Field(i))
			}
		}
		return m
	case reflect.Map:
		if v.IsNil() {
			return nil
		}
		m := map[string]interface{}{}
		for _, k := range v.MapKeys() {
			m[k.String()] = jsonOf(v.MapIndex(k))
		}
		return m
	case reflect.Int:
		return float64(v.Int())
	case reflect.String:
		return strings.ToValidUTF8(spread(v.String()), "\uFFFD")
	case reflect.Bool:
		return v.Bool()
	}
	return fmt.Sprint(v.Interface())
}

// spread separates invalid bytes, each of which becomes one replacement
// character in JSON.
func spread(s string) string {
	var b strings.Builder
	for _, c := range impl.Chars(s) {
		if len(c) == 1 && c[0] >= 0x80 {
			c = "\uFFFD"
		}
		b.WriteString(c)
	}
	return b.String()
}

// take removes what one input yields from the front of the output.
func (c cliOut) take(out string) (rest, bad string) {
	if c.tree != nil {
		if !c.json {
			want := model.Sexpr(c.tree.Tree, "  ")
			if !strings.HasPrefix(out, want) {
				return out, "expected the S-expressions\n" + want
			}
			return out[len(want):], ""
		}
		d := json.NewDecoder(strings.NewReader(out))
		var got interface{}
		if err := d.Decode(&got); err != nil {
			return out, fmt.Sprintf("expected JSON: %v", err)
		}
		want := jsonOf(reflect.ValueOf(c.tree.Raw.(*ast.File)))
		if !reflect.DeepEqual(got, want) {
			w, _ := json.Marshal(want)
			return out, "expected JSON " + string(w)
		}
		return strings.TrimPrefix(out[d.InputOffset():], "\n"), ""
	}
	k := strings.IndexByte(out, '\n')
	if c.err != "" {
		if !strings.HasPrefix(out, c.err+"\n") {
			return out, "expected the error " + c.err
		}
		return out[len(c.err)+1:], ""
	}
	if k < 0 || !strings.Contains(out[:k], c.name) {
		return out, "expected an error about " + c.name
	}
	return out[k+1:], ""
}

func (c cliOut) good() bool { return c.tree != nil }

// runCLI runs the tool; both gets standard output and error in one stream.
func runCLI(args []string, stdin io.Reader, limit bool) (stdout, stderr, both string, code, code2 int, bad string) {
	run := func(o, e io.Writer) (int, string) {
		c := exec.Command(cli.bin, args...)
		if limit {
			c = exec.Command("sh", append([]string{"-c", "ulimit -n 32; exec \"$0\" \"$@\"", cli.bin}, args...)...)
		}
		c.Dir = cli.dir
		if s, ok := stdin.(io.Seeker); ok {
			s.Seek(0, io.SeekStart)
		}
		c.Stdin, c.Stdout, c.Stderr = stdin, o, e
		if err := c.Start(); err != nil {
			panic(err)
		}
		t := time.AfterFunc(20*time.Second, func() { c.Process.Kill() })
		err := c.Wait()
		if !t.Stop() {
			return -1, "it does not end"
		}
		if _, ok := err.(*exec.ExitError); err != nil && !ok {
			return -1, err.Error()
		}
		return c.ProcessState.ExitCode(), ""
	}
	var o, e, b bytes.Buffer
	if code, bad = run(&o, &e); bad != "" {
		return
	}
	code2, bad = run(&b, &b)
	return o.String(), e.String(), b.String(), code, code2, bad
}

// fullCLI runs the tool with a standard output that takes nothing.
func fullCLI(args []string, stdin io.Reader) (stderr string, code int, bad string) {
	f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
	if err != nil {
		return "", -1, err.Error()
	}
	defer f.Close()
	var e bytes.Buffer
	c := exec.Command(cli.bin, args...)
	c.Dir, c.Stdin, c.Stdout, c.Stderr = cli.dir, stdin, f, &e
	if err := c.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(20*time.Second, func() { c.Process.Kill() })
	c.Wait()
	if !t.Stop() {
		return "", -1, "it does not end"
	}
	return e.String(), c.ProcessState.ExitCode(), ""
}

// toolFull judges a run whose output cannot be written.
func toolFull(args []string, stdin io.Reader, want []cliOut, o *eng.Out) {
	out, code, bad := fullCLI(args, stdin)
	if bad != "" {
		o.Bad = bad
		return
	}
	// the errors of bad inputs in order, and between them at least one, at
	// most one for each input with output, about writing
	var kinds string
	writes, lines := 0, 0
	rest := strings.Replace(out, cli.help, "", 1)
	for i, w := range want {
		o.Steps++
		if w.good() {
			if w.json || model.Sexpr(w.tree.Tree, "  ") != "" {
				kinds += "w"
				writes++
			}
			continue
		}
		kinds += w.err + ";"
		for {
			next, no := w.take(rest)
			if no == "" {
				rest = next
				break
			}
			k := strings.IndexByte(rest, '\n')
			if k < 1 {
				o.Bad = fmt.Sprintf("arguments %q with a full standard output, input %d: %s\nstandard error:\n%s", args, i, no, out)
				return
			}
			lines++
			rest = rest[k+1:]
		}
	}
	lines += strings.Count(rest, "\n")
	ok := kinds == ""
	o.NonTrivial = !ok
	o.Outcome = eng.Hash(kinds)
	switch {
	case lines > writes || lines == 0 && writes > 0:
		o.Bad = fmt.Sprintf("arguments %q with a full standard output: %d errors about %d inputs with output:\n%s", args, lines, writes, out)
	case (code == 0) != ok:
		o.Bad = fmt.Sprintf("arguments %q with a full standard output: exit code %d", args, code)
	}
}

// slow delivers a text in pieces.
type slow struct{ *strings.Reader }

func (s slow) Read(p []byte) (int, error) {
	if len(p) > 7 {
		p = p[:7]
	}
	return s.Reader.Read(p)
}

func tool(c eng.Case) (o eng.Out) {
	cliSetup()
	o.Compared, o.Steps = true, 1
	f := strings.SplitN(c.Text, "|", 2)
	args := strings.Fields(f[0])
	neovim, asJSON := false, false
	for _, a := range args {
		switch strings.TrimLeft(a, "-") {
		case "json", "json=true":
			asJSON = true
		case "neovim", "neovim=true":
			neovim = true
		}
	}
	var want []cliOut
	var stdin io.Reader = strings.NewReader("let stdin = 1\n")
	limit := false
	full := strings.HasPrefix(c.Mode, "full ")
	switch strings.TrimPrefix(c.Mode, "full ") {
	case "unreadable": // standard input is a directory
		d, err := os.Open(cli.dir)
		if err != nil {
			panic(err)
		}
		defer d.Close()
		stdin = d
		want = append(want, cliOut{name: ""})
	case "stdin":
		stdin = slow{strings.NewReader(f[1])}
		want = append(want, cliExpect("", f[1], "", neovim, asJSON))
	case "many":
		limit = true
		fallthrough
	case "files":
		for _, k := range strings.Split(f[1], "|") {
			x, ok := cliFiles[k]
			if !ok {
				panic("no such file: " + k)
			}
			args = append(args, x.name)
			want = append(want, cliExpect(x.name, x.text, x.kind, neovim, asJSON))
		}
	case "paths": // one file, spelled in several ways
		g := strings.SplitN(f[1], "|", 2)
		x := cliFiles[g[1]]
		name := strings.Replace(strings.Replace(g[0], "DIR", cli.dir, 1), "FILE", x.name, 1)
		args = append(args, name)
		want = append(want, cliExpect(name, x.text, x.kind, neovim, asJSON))
	}
	if full {
		toolFull(args, stdin, want, &o)
		return
	}
	stdout, stderr, both, code, code2, bad := runCLI(args, stdin, limit)
	if bad != "" {
		o.Bad = bad
		return
	}
	allGood := true
	restOut, restErr := stdout, stderr
	usage := func(s *string) { *s = strings.TrimPrefix(*s, cli.help) }
	var kinds string
	for i, w := range want {
		o.Steps++
		usage(&restErr)
		usage(&both)
		if w.good() {
			kinds += "g"
			restOut, bad = w.take(restOut)
		} else {
			kinds += w.err + ";"
			allGood = false
			restErr, bad = w.take(restErr)
		}
		if bad == "" {
			both, bad = w.take(both)
		}
		if bad != "" {
			o.Bad = fmt.Sprintf("arguments %q, input %d: %s\nstandard output:\n%s\nstandard error:\n%s", args, i, bad, stdout, stderr)
			return
		}
	}
	o.NonTrivial = len(want) > 1 || !allGood || stdout != ""
	o.Outcome = eng.Hash(kinds + stdout)
	if !allGood {
		usage(&restErr)
		usage(&both)
	}
	switch {
	case restOut != "" || restErr != "" || both != "":
		o.Bad = fmt.Sprintf("arguments %q: too much output: %q, %q, %q", args, restOut, restErr, both)
	case (code == 0) != allGood || code2 != code:
		o.Bad = fmt.Sprintf("arguments %q: exit code %d, %d; all good: %v", args, code, code2, allGood)
	}
	return
}

func init() {
	add(&eng.Check{
		ID:   "C17",
		Rule: "the built tool is run, with standard output and error apart and together, on every sequence of files of the pool, every set of flags, every text of the corpus on standard input; output, order of output, errors and exit code are compared with the library's results rendered by the reference. Non-trivial: some output",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			with := func(flags []string, s eng.Space) eng.Space {
				return eng.Cross(eng.Lits(flags), s, func(a, b string) string { return a + "|" + b })
			}
			pool := []string{"good", "bad", "missing", "good2", "dir", "neo", "empty", "bad2", "vim", "nodir", "crlf", "bytes", "bad3", "<>&", "loop"}
			p("one or two files", "files", with(cliFlags, eng.Union(eng.Seq(pool, "|", 1, 1), eng.Seq(pool[:9], "|", 2, 2))))
			k := 9
			if thorough {
				k = 14
			}
			p("three files", "files", with(cliFlags[:4], eng.Seq(pool[:k], "|", 3, 3)))
			p("four files", "files", with(cliFlags[:1], eng.Seq(pool[:5], "|", 4, 4)))
			p("corpus", "stdin", with(cliFlags[:3], eng.Lits(corpus)))
			p("corpus", "stdin", with(cliFlags[3:4], eng.Lits(corpus)))
			p("scripts", "stdin", with(cliFlags[:2], eng.Seq(blockOps, "\n", 1, 2)))
			p("commands", "stdin", with(cliFlags[:4], eng.Cross(eng.Lits(allNames()), eng.Lits{" x", "! x\nlet y = 1"}, func(a, b string) string { return a + b })))
			var texts eng.Lits
			for _, k := range pool {
				texts = append(texts, cliFiles[k].text)
			}
			p("pool", "stdin", with(cliFlags, texts))
			p("bytes", "stdin", with(cliFlags[:2], eng.Seq([]string{"a", "echo 1", "\n", "\r\n", "\"", "\xff", "'", " "}, "", 0, 4)))
			p("paths", "paths", with(cliFlags[:4], eng.Cross(eng.Lits{"FILE", "./FILE", "DIR/FILE", "sub/../FILE", "-- FILE", ".//FILE"}[:4], eng.Lits(pool), func(a, b string) string { return a + "|" + b })))
			p("many files", "many", with(cliFlags[:3], eng.Lits{eng.Repeat("good", "|", 60), eng.Repeat("bad", "|", 60), eng.Repeat("dir", "|", 60), eng.Repeat("good|bad|missing|dir", "|", 20)}))
			p("full output", "full files", with(cliFlags, eng.Union(eng.Seq(pool, "|", 1, 1), eng.Seq(pool[:5], "|", 2, 3))))
			p("full output", "full stdin", with(cliFlags[:4], eng.Lits(append(texts, scripts...))))
			p("unreadable input", "unreadable", with(cliFlags, eng.Lits{"x"}))
			p("unreadable input", "full unreadable", with(cliFlags, eng.Lits{"x"}))
			if thorough {
				p("full output", "full files", with(cliFlags[:4], eng.Seq(pool[:10], "|", 2, 3)))
				p("pairs of files", "files", with(cliFlags, eng.Seq(pool, "|", 2, 2)))
				p("five files", "files", with(cliFlags[:2], eng.Seq(pool[:5], "|", 5, 5)))
				p("four files", "files", with(cliFlags[1:3], eng.Seq(pool[:6], "|", 4, 4)))
				p("scripts", "stdin", with(cliFlags[:2], eng.Seq(blockOps, "\n", 1, 3)))
			}
			return ps
		},
		Eval:        tool,
		Assumptions: []string{"usage text printed with an error is accepted anywhere in standard error", "the library's results are taken for granted here (other checks)"},
	})
}
