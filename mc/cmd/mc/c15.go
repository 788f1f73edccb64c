package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"reflect"
	"strings"
	"testing/iotest"

	"mc/eng"
	"mc/impl"
	"mc/model"
)

// C15: readers.

// delivery is a way to hand out a text.
type delivery struct {
	text  string
	cuts  []bool // cuts[i]: a chunk ends in front of byte i
	size  int    // or chunks of this size
	empty int    // empty reads before each chunk and before the end
	last  bool   // the end comes with the last data
	fail  int    // fail when this many bytes are delivered, or -1
	with  bool   // the error comes with data
	err   error
	at    int
	idle  int
	over  bool
	once  bool // the error comes only once
}

func (d *delivery) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if d.idle < d.empty {
		d.idle++
		return 0, nil
	}
	d.idle = 0
	n := len(d.text)
	if d.fail >= 0 && !d.over {
		n = d.fail
	}
	if d.at >= n {
		if d.fail >= 0 && !d.over {
			d.over = d.once
			return 0, d.err
		}
		return 0, io.EOF
	}
	k := d.at + 1
	for k < n && k-d.at < len(p) && (d.cuts == nil || !d.cuts[k]) && (d.size == 0 || k-d.at < d.size) {
		k++
	}
	copy(p, d.text[d.at:k])
	m := k - d.at
	d.at = k
	if k == n {
		if d.fail >= 0 && !d.over && d.with {
			d.over = d.once
			return m, d.err
		}
		if n == len(d.text) && d.last && (d.fail < 0 || d.over) {
			return m, io.EOF
		}
	}
	return m, nil
}

func (d *delivery) String() string {
	s := fmt.Sprintf("chunks of %d, %d empty reads", d.size, d.empty)
	if d.cuts != nil {
		s = "chunks"
		a := 0
		for i := 1; i <= len(d.text); i++ {
			if i == len(d.text) || d.cuts[i] {
				s += fmt.Sprintf(" %q", d.text[a:i])
				a = i
			}
		}
		s += fmt.Sprintf(", %d empty reads", d.empty)
	}
	if d.last {
		s += ", end of file with the last data"
	}
	if d.fail >= 0 {
		s += fmt.Sprintf(", error %v after %d bytes (with data: %v, once: %v)", d.err, d.fail, d.with, d.once)
	}
	return s
}

func readMode(mode string, rd io.Reader) *impl.Result {
	switch mode {
	case "expr":
		return impl.ParseExprReader(rd)
	case "neo":
		return impl.ParseReader(rd, "a/é.vim", true)
	}
	return impl.ParseReader(rd, "a/é.vim", false)
}

func differs(a, b *impl.Result) string {
	ka, kb := a.Kind(), b.Kind()
	ok := ka == kb
	switch {
	case !ok:
	case ka == "tree":
		ok = model.Equal(a.Tree, b.Tree, model.MAll)
	case ka == "error":
		ok = *a.Err == *b.Err && a.Text == b.Text && a.File == b.File
	default:
		ok = fmt.Sprint(a.Other, a.Panic) == fmt.Sprint(b.Other, b.Panic)
	}
	if ok {
		return ""
	}
	f := func(r *impl.Result) string {
		if r.Tree != nil {
			return model.Dump(r.Tree, model.MAll)
		}
		return fmt.Sprintf("%s %v %v %v %s\n", r.Kind(), r.Err, r.Other, r.Panic, r.Text)
	}
	return "got:\n" + f(a) + "expected:\n" + f(b)
}

type ownError struct{ n int }

func (e *ownError) Error() string { return "own error" }

var readErrors = []error{&ownError{1}, io.ErrUnexpectedEOF, errors.New("EOF"), os.ErrClosed}

// otherReaders are readers of other kinds which hand out the same text.
var otherReaders = []struct {
	name string
	f    func(string) io.Reader
}{
	{"bytes.Buffer", func(s string) io.Reader { return bytes.NewBufferString(s) }},
	{"bytes.Reader", func(s string) io.Reader { return bytes.NewReader([]byte(s)) }},
	{"a used strings.Reader", func(s string) io.Reader {
		r := strings.NewReader("x\"é\n" + s)
		r.Seek(5, io.SeekStart)
		return r
	}},
	{"a used bytes.Buffer", func(s string) io.Reader {
		r := bytes.NewBufferString("if\n" + s)
		io.ReadFull(r, make([]byte, 3))
		return r
	}},
	{"bufio.Reader", func(s string) io.Reader { return bufio.NewReader(strings.NewReader(s)) }},
	{"a used small bufio.Reader", func(s string) io.Reader {
		r := bufio.NewReaderSize(strings.NewReader("x"+s), 16)
		r.ReadByte()
		return r
	}},
	{"io.MultiReader", func(s string) io.Reader {
		k := len(s) / 2
		return io.MultiReader(strings.NewReader(s[:k]), strings.NewReader(""), strings.NewReader(s[k:]))
	}},
	{"io.LimitReader", func(s string) io.Reader {
		return io.LimitReader(strings.NewReader(s+"\nendif"), int64(len(s)))
	}},
	{"io.SectionReader", func(s string) io.Reader {
		return io.NewSectionReader(strings.NewReader("if\n"+s+"\nelse"), 3, int64(len(s)))
	}},
	{"iotest.OneByteReader", func(s string) io.Reader { return iotest.OneByteReader(strings.NewReader(s)) }},
	{"iotest.HalfReader", func(s string) io.Reader { return iotest.HalfReader(strings.NewReader(s)) }},
	{"iotest.DataErrReader", func(s string) io.Reader { return iotest.DataErrReader(strings.NewReader(s)) }},
	{"io.TeeReader", func(s string) io.Reader { return io.TeeReader(strings.NewReader(s), ioutil.Discard) }},
	{"io.PipeReader", func(s string) io.Reader {
		r, w := io.Pipe()
		go func() {
			for len(s) > 0 {
				k := 1 + len(s)/3
				w.Write([]byte(s[:k]))
				s = s[k:]
			}
			w.Close()
		}()
		return r
	}},
}

func delivered(c eng.Case) (o eng.Out) {
	f := strings.Fields(c.Mode) // what, mode
	text := c.Text
	whole := readMode(f[1], strings.NewReader(text))
	o.Compared, o.NonTrivial = true, len(text) > 0
	if whole.Tree != nil {
		o.Outcome = model.Hash(whole.Tree)
	} else if whole.Err != nil {
		o.Outcome = model.HashError(whole.Err)
	} else {
		o.Bad = fmt.Sprintf("%s %v %v", whole.Kind(), whole.Other, whole.Panic)
		return
	}
	is := func(got, want *impl.Result, what interface{}) bool {
		o.Steps++
		if o.Bad == "" {
			if d := differs(got, want); d != "" {
				o.Bad = fmt.Sprintf("%v: %s", what, d)
			}
		}
		return o.Bad == ""
	}
	try := func(d *delivery) bool {
		d.text = text
		e := *d
		return is(readMode(f[1], d), whole, &e)
	}
	n := len(text)
	switch f[0] {
	case "chunks": // every way to cut the text
		for set := 0; set < 1<<uint(max(n-1, 0)); set++ {
			cuts := make([]bool, n+1)
			for i := 1; i < n; i++ {
				cuts[i] = set>>uint(i-1)&1 == 1
			}
			for _, last := range []bool{false, true} {
				if !try(&delivery{cuts: cuts, last: last, fail: -1, empty: set % 2}) {
					return
				}
			}
		}
	case "cuts": // every chunk size, every cut, every pair of cuts of short texts
		for k := 1; k <= n+1; k++ {
			if n > 300 && k > 40 && n%k != 0 {
				continue
			}
			for _, last := range []bool{false, true} {
				if !try(&delivery{size: k, last: last, fail: -1}) || k < 8 && !try(&delivery{size: k, last: last, fail: -1, empty: 1 + k}) {
					return
				}
			}
		}
		for i := 1; i < n && n <= 300; i++ {
			for j := i; j < n; j++ {
				if j > i && n > 40 {
					break
				}
				cuts := make([]bool, n+1)
				cuts[i], cuts[j] = true, true
				if !try(&delivery{cuts: cuts, last: j%2 == 0, fail: -1, empty: (i + j) % 3}) {
					return
				}
			}
		}
		for _, x := range otherReaders {
			if !is(readMode(f[1], x.f(text)), whole, x.name) {
				return
			}
		}
	case "errors": // an error at every place
		for k := 0; k <= n; k++ {
			for i, e := range readErrors {
				for v := 0; v < 8; v++ {
					d := &delivery{text: text, size: v / 2 % 2 * (1 + k%5), fail: k, with: v%2 == 1, err: e, once: v/4 == 1}
					if i > 0 && v != i {
						continue
					}
					shown := d.String()
					r := readMode(f[1], d)
					o.Steps++
					if r.Kind() != "plain-error" || !errors.Is(r.Other, e) || r.Both {
						o.Bad = fmt.Sprintf("%s: %s: %v %v %v", shown, r.Kind(), r.Err, r.Other, r.Panic)
						return
					}
				}
			}
		}
	case "ends": // final newline and CRLF
		if n > 0 && text[n-1] != '\n' {
			if !is(readMode(f[1], strings.NewReader(text+"\n")), whole, "with a final newline") {
				return
			}
		}
		if strings.Contains(text, "\r") {
			return
		}
		lf := strings.Count(text, "\n")
		for set := 1; set < 1<<uint(min(lf, 6)); set++ {
			if lf > 6 && set != 63 && set != 1 && set != 42 {
				continue
			}
			var b strings.Builder
			extra := []int{0} // per line
			k := 0
			for i := 0; i < n; i++ {
				if text[i] == '\n' {
					x := extra[len(extra)-1]
					if set>>uint(k%6)&1 == 1 {
						b.WriteByte('\r')
						x++
					}
					extra = append(extra, x)
					k++
				}
				b.WriteByte(text[i])
			}
			move := func(p model.Pos) model.Pos {
				if p.Line >= 1 {
					p.Off += extra[min(p.Line, len(extra))-1]
				}
				return p
			}
			want := *whole
			if want.Tree != nil {
				want.Tree = moved(whole.Tree, move)
			} else {
				e := *whole.Err
				e.Pos = move(e.Pos)
				want.Err = &e
			}
			if !is(readMode(f[1], strings.NewReader(b.String())), &want, fmt.Sprintf("CRLF as in %q", clip(b.String()))) {
				return
			}
		}
	case "files":
		tmp, err := ioutil.TempFile("", "mcread")
		if err != nil {
			panic(err)
		}
		defer os.Remove(tmp.Name())
		defer tmp.Close()
		tmp.WriteString("if\n" + text)
		tmp.Seek(3, io.SeekStart)
		is(readMode(f[1], tmp), whole, "a used file")
		r, w, err := os.Pipe()
		if err != nil {
			panic(err)
		}
		go func() { io.WriteString(w, text); w.Close() }()
		is(readMode(f[1], r), whole, "a pipe")
		r.Close()
		tmp.Close()
		if x := readMode(f[1], tmp); x.Kind() != "plain-error" || !errors.Is(x.Other, os.ErrClosed) {
			o.Bad = fmt.Sprintf("reading a closed file: %s %v %v", x.Kind(), x.Err, x.Other)
		}
	case "model": // the whole result
		o = conformCase(eng.Case{Mode: f[1], Text: text}, model.MAll, errMessage)
		r := runImpl(eng.Case{Mode: f[1], Text: text})
		if r.Tree != nil && o.Bad == "" {
			again := readMode(f[1], &delivery{text: text, size: 4097, fail: -1})
			if !reflect.DeepEqual(again.Tree, r.Tree) {
				o.Bad = "not the same in chunks of 4097"
			}
		}
	}
	return
}

func clip(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

func max(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// sized makes texts with a line of n bytes.
func sized(sizes []int) eng.Space {
	var l eng.Lits
	for _, n := range sizes {
		x := strings.Repeat("x", n)
		e := strings.Repeat("é", n/2)
		l = append(l, "\""+x[1:], "echo '"+x[:max(n-7, 0)]+"'\necho 2", "let x = [1,\n\\ '"+x[:max(n-5, 0)]+"']|echo 3", "normal "+x[7:], "let y =<< E\n"+x+"\nE\necho 4", "\n"+e+"\r\n", "lua << E\n"+x[:n-1]+"\r\n"+x+"\nE\nif", "echo \""+e+"\"\n\n\nbad(")
	}
	return l
}

func around(ns []int, d int) (out []int) {
	for _, n := range ns {
		for i := n - d; i <= n+d; i++ {
			if i > 7 {
				out = append(out, i)
			}
		}
	}
	return
}

func init() {
	add(&eng.Check{
		ID:   "C15",
		Rule: "every text of the spaces is delivered in every way of the mode: chunks - every division of the text, cuts - every chunk size and every one or two cuts and other kinds of readers, errors - an error at every place, ends - with a final newline and every set of CRLF line ends, files - a used file, a pipe, a closed file, model - compared with the reference (long lines). All results are compared with that of the whole text. Non-trivial: the text is not empty",
		Parts: func(thorough bool) []eng.Part {
			var ps []eng.Part
			p := func(name, mode string, s eng.Space) { ps = append(ps, eng.Part{Name: name, Mode: mode, S: s}) }
			all := eng.Lits(corpus)
			for _, m := range []string{"file", "neo", "expr"} {
				p("corpus", "cuts "+m, all)
				p("corpus", "errors "+m, all)
				p("corpus", "ends "+m, all)
			}
			k, l := 12, 4
			if thorough {
				k, l = 16, 5
			}
			var short eng.Lits
			for _, t := range corpus {
				if len(t) <= k {
					short = append(short, t)
				}
			}
			p("short corpus", "chunks file", short)
			p("short corpus", "chunks neo", short)
			short = nil
			for _, t := range eng.All(eng.Union(eng.Lits(atoms), nest(1, atoms[:3], holes))) {
				if len(t) <= k {
					short = append(short, t)
				}
			}
			p("short expressions", "chunks expr", short)
			bits := []string{"a", "\n", "\r\n", "\r", "é", "|", "\n\\", "\"", "1", " ", "\xff", "echo 1", "if a", "append", "."}
			seq := eng.Seq(bits, "", 0, l)
			p("bits", "cuts file", seq)
			p("bits", "errors file", eng.Seq(bits, "", 0, l-1))
			p("bits", "ends file", eng.Seq(bits, "", 0, l+1))
			p("bits", "chunks file", eng.Seq([]string{"a", "\n", "\r\n", "\r", "é", "|", "\n\\", "\""}, "", 0, l))
			p("bits", "files file", eng.Seq(bits, "", 0, 2))
			p("bits", "ends expr", eng.Seq([]string{"a", "\n", "\\", "é", "1", " ", "+", "'", "(", ")", "x"}, "", 0, l))
			p("corpus", "files file", all)
			p("expressions in commands", "ends file", eng.Wraps(places, nest(1, atoms[:3], holes)))
			p("corpus in everything", "ends file", fills(leads, all[:200]))
			p("corpus in blocks", "cuts file", fills(leads[33:], all[:60]))
			p("corpus in blocks", "errors file", fills(leads[33:], all[:60]))
			p("continued", "ends file", eng.Union(continued(scripts, "\n\\", "\n\t \\")))
			p("blocks", "ends file", eng.Union(eng.Seq(blockOps, "\n", 1, 3), eng.Seq(blockOps, "\n", 1, 3)))
			p("long lines", "model file", sized(append(around([]int{16, 64, 128, 256, 512, 1024, 2048, 4096}, 3), 8191, 8192, 16384, 32768, 65535, 65536, 65537)))
			p("long lines of blanks", "model file", eng.Range(17, 20, func(n int) string { return "if a|echo 1" + strings.Repeat(" \t", 1<<uint(n)) + "2" }))
			p("long lines", "cuts file", sized(around([]int{64, 4096}, 2)))
			p("many lines", "model file", eng.Lits{strings.Repeat("echo 1\n", 20000), strings.Repeat("\n", 70000) + "echo 1 |", strings.Repeat("if 1\r\nendif\r\n", 5000), strings.Repeat("let x = [1,\n\\ 2]\n", 5000) + "bad("})
			return ps
		},
		Eval: delivered,
	})
}
