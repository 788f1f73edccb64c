package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"mc/eng"
	"mc/instr"
	"mc/wire"
)

// C14: histories and schedules.  The calls run in worker processes (cmd/c14).

type hop struct {
	Kind string
	Text wire.Raw
}

// hjob and hans are what workers are given and what they answer.
type hjob struct {
	Do    string
	Ops   []hop      `json:",omitempty"`
	Base  []wire.Raw `json:",omitempty"`
	Seqs  [][]int    `json:",omitempty"`
	A, B  int
	C     int
	Depth int
	Plan  []int `json:",omitempty"`
	Max   int
	Order string
	Until int64
	Fine  bool `json:",omitempty"` // with points at every statement
}

type hans struct {
	Res                  []wire.Raw
	Done, Steps, Blocked int
	Cut                  bool
	Bad                  wire.Raw
	Plan, Seq            []int
}

// smallOps have one of each kind, with as different inner workings as can be.
var smallOps = []hop{
	{"vim", "let x = [1, {'a': 2}] | echo \"\\<CR>\" .. 'é'"},
	{"neo", "tnoremap <Esc> x\nrshada f"},
	{"vim", "if 1\nwhile 2\nendif"},
	{"expr", "a + b * (c ? d : e[1:2])"},
	{"vim", "function! s:f(a, ...) abort\nlet x =<< trim E\n a\nE\nreturn {-> a:a}\nendfunction"},
	{"vim", "1,$s/a/b/ | silent! edit ++ff=dos +1 f"},
	{"neo", "tearoff x"},
	{"expr", "\"\\x4"},
	{"vim", "Foo! bar\nfoo"},
	{"vim", "echo $X @a &l:o v:x a#b s:c g:{d}e 0z0F .5e1 #{a: 1}"},
	{"named", "\" é\n\necho ("},
	{"vimfail", "echo 1\necho 2\necho 3"},
	{"expr", "{a, b -> a.b}(1, 2)"},
	{"neo", "echo 1"},
}

// midOps add more commands and more of the syntax.
var midOps = append(append([]hop{}, smallOps...), []hop{
	{"vim", "rshada f"},
	{"vim", "tearoff x\nopen"},
	{"neo", "shell | fixdel"},
	{"neo", "gvim x"},
	{"vim", "try\ncatch /a|b/\nfinally\nendtry"},
	{"vim", "for [a, b; c] in l\nbreak\nendfor"},
	{"vim", "lua << E\nx\nE\nappend\ny\n.\n"},
	{"vim", "au G BufRead *.x set ft=x | echo 1\nsyntax match X /a|b/ contained\nwincmd gf"},
	{"vim", "vimgrep /a|b/ x | g/x/d | dl | k a | 3verbose echo 1"},
	{"neo", "terminal x | echo 1\nchecktime | def X()"},
	{"vim", "def X()\nterminal ls | x"},
	{"expr", "x->f(1)->{y -> y}()"},
	{"expr", "a is# b && c !~? d || !e . -f % 3 >= +4"},
	{"expr", "a ? b"},
	{"expr", "[1, 2"},
	{"exprfail", "a + b + c + d"},
	{"expr1", "f(é, 'x''y')"},
	{"vim1", "set ts=4\r\n\\ x\r\n"},
	{"zero", "unlet! x y[0] | lockvar 2 z | const c = 1"},
	{"vim", "write ++enc=x !a | read !b | update >>c | edit `=d`"},
	{"vim", ""},
	{"named", "finish\n((("},
}...)

func allOps() []hop {
	var ops []hop
	seen := map[hop]bool{}
	a := func(o hop) {
		if !seen[o] {
			seen[o] = true
			ops = append(ops, o)
		}
	}
	for _, o := range midOps {
		a(o)
	}
	for i, t := range corpus {
		a(hop{"vim", wire.Raw(t)})
		if i%7 == 0 {
			a(hop{"neo", wire.Raw(t)})
		}
	}
	// An expression from every echo and let.
	for _, t := range corpus {
		if strings.HasPrefix(t, "echo ") && !strings.Contains(t, "\n") {
			a(hop{"expr", wire.Raw(t[5:])})
		} else if i := strings.Index(t, " = "); i > 0 && strings.HasPrefix(t, "let ") && !strings.Contains(t, "\n") {
			a(hop{"expr", wire.Raw(t[i+3:])})
		}
	}
	// All commands there are.
	var names []string
	for _, n := range allNames() {
		names = append(names, n)
	}
	for _, m := range []string{"vim", "neo"} {
		for _, n := range names {
			if m == "vim" || !strings.HasPrefix(n, "s") {
				continue
			}
			a(hop{m, wire.Raw(n)})
		}
	}
	return ops
}

var work struct {
	once              sync.Once
	plain, race, tidy string
	sched, fine       string
	points, finePts   int
	noRace, noSched   string
}

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}

func workers14(fine bool) {
	work.once.Do(func() {
		build := filepath.Join(eng.Root(), ".build")
		var wg sync.WaitGroup
		compile := func(out *string, name string, args ...string) string {
			bin := filepath.Join(build, name)
			c := exec.Command("go", append(append([]string{"build", "-o", bin}, args...), "./cmd/c14")...)
			c.Dir = filepath.Join(eng.Root(), "mc")
			msg, err := c.CombinedOutput()
			if err != nil {
				return fmt.Sprintf("%s%v", msg, err)
			}
			*out = bin
			return ""
		}
		overlaid := func(out *string, n *int, name string, fine bool) string {
			src, err := os.ReadFile(filepath.Join(eng.Root(), "mc", "c14sched", "sched.go.txt"))
			if err != nil {
				return err.Error()
			}
			dir := filepath.Join(build, name+".d")
			os.RemoveAll(dir)
			over, pts, err := instr.Overlay(repoDir(), dir, src, fine)
			if err != nil {
				return err.Error()
			}
			*n = pts
			return compile(out, name, "-tags", "c14sched", "-overlay", over)
		}
		wg.Add(4)
		go func() {
			defer wg.Done()
			if msg := compile(&work.plain, "c14"); msg != "" {
				fmt.Fprintln(os.Stderr, msg)
				os.Exit(2)
			}
		}()
		go func() { defer wg.Done(); work.noRace = compile(&work.race, "c14race", "-race") }()
		go func() { defer wg.Done(); work.noSched = overlaid(&work.sched, &work.points, "c14sched", false) }()
		go func() {
			defer wg.Done()
			if fine {
				overlaid(&work.fine, &work.finePts, "c14fine", true)
			}
		}()
		wg.Wait()
	})
}

// proc is a worker process.
type proc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb bytes.Buffer
	told bool // knows the ops
}

func startProc(bin string) (*proc, error) {
	p := &proc{cmd: exec.Command(bin)}
	p.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	p.cmd.Stderr = &p.errb
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<16)
	return p, p.cmd.Start()
}

// ask returns an answer; one with Bad if the process died of it, an error if
// it just did not answer.
func (p *proc) ask(j *hjob) (*hans, error) {
	b, _ := json.Marshal(j)
	go p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	if err == nil {
		a := &hans{}
		return a, json.Unmarshal(line, a)
	}
	p.in.Close()
	p.cmd.Wait()
	msg := p.errb.String()
	for _, s := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: "} {
		if i := strings.Index(msg, s); i >= 0 && !strings.Contains(msg, "out of memory") && !strings.Contains(msg, "cannot allocate") {
			msg = msg[i:]
			if len(msg) > 2500 {
				msg = msg[:2500]
			}
			return &hans{Bad: wire.Raw("the process dies:\n" + msg)}, nil
		}
	}
	return nil, fmt.Errorf("worker: %v %s", p.cmd.ProcessState, clip(msg))
}

func (p *proc) stop() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// fresh runs one job in a process of its own.
func fresh(bin string, j *hjob) (*hans, error) {
	p, err := startProc(bin)
	if err != nil {
		return nil, err
	}
	defer p.stop()
	return p.ask(j)
}

// sub is the job with only the ops it needs.
func (j *hjob) sub(ops []hop, base []wire.Raw, ids ...int) *hjob {
	k := *j
	k.Ops, k.Base = nil, nil
	at := map[int]int{}
	for _, i := range ids {
		if _, ok := at[i]; ok {
			continue
		}
		at[i] = len(k.Ops)
		k.Ops = append(k.Ops, ops[i])
		if base != nil {
			k.Base = append(k.Base, base[i])
		}
	}
	k.A, k.B = at[j.A], at[j.B]
	if j.Do == "raceall" {
		k.B = j.B
	}
	if j.C >= 0 {
		k.C = at[j.C]
	}
	k.Seqs = nil
	for _, s := range j.Seqs {
		var t []int
		for _, i := range s {
			t = append(t, at[i])
		}
		k.Seqs = append(k.Seqs, t)
	}
	return &k
}

// caseText is how a failing job is written down: with its ops, without what
// they should yield, which comes from processes of their own.
func caseText(j *hjob) string {
	k := *j
	k.Base, k.Until = nil, 0
	b, _ := json.Marshal(k)
	return string(b)
}

// replay14 runs a job again.
func replay14(c eng.Case) (o eng.Out) {
	j := &hjob{}
	if err := json.Unmarshal([]byte(c.Text), j); err != nil {
		o.Bad = "not a job: " + err.Error()
		return
	}
	workers14(j.Fine)
	for _, op := range j.Ops {
		a, err := fresh(work.plain, &hjob{Do: "base", Ops: []hop{op}})
		if err != nil || a.Bad != "" {
			o.Bad = fmt.Sprint(a, err)
			return
		}
		j.Base = append(j.Base, a.Res[0])
	}
	j.Until = time.Now().Unix() + 25
	bin := work.plain
	switch {
	case j.Do == "race" || j.Do == "raceall":
		bin = work.race
	case j.Do == "sched" && j.Fine:
		bin = work.fine
	case j.Do == "sched":
		bin = work.sched
	}
	a, err := fresh(bin, j)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	o.Bad = string(a.Bad)
	return
}

func histories(r *eng.Run) {
	workers14(r.Thorough)
	ops := allOps()
	// Distinct texts, for everything that counts or fills up.
	nAll := len(ops)
	many := 1500
	if r.Thorough {
		many = 12000
	}
	for i := 0; i < many; i++ {
		switch i % 3 {
		case 0:
			ops = append(ops, hop{"vim", wire.Raw(fmt.Sprintf("let v%d = [%d, 'é%d']", i, i, i))})
		case 1:
			ops = append(ops, hop{"expr", wire.Raw(fmt.Sprintf("f%d(%d, \"%d\")", i, i, i))})
		case 2:
			ops = append(ops, hop{"neo", wire.Raw(fmt.Sprintf("Foo%d | echo x%d (", i, i))})
		}
	}
	id := map[hop]int{}
	for i, o := range ops {
		id[o] = i
	}
	upTo := func(n int) []int {
		var out []int
		for i := 0; i < n; i++ {
			out = append(out, i)
		}
		return out
	}
	base := make([]wire.Raw, len(ops))
	text := func(i int) string { return ops[i].Kind + ": " + eng.Quote(string(ops[i].Text)) }
	part := func(name, mode string, cases, done int, t0 time.Time) {
		r.Part(eng.Part{Name: name, Mode: mode, S: eng.Func(cases, func(i int) string { return text(i % len(ops)) })}, cases, done, done, t0)
		if done < cases {
			r.Cut(name)
		}
	}
	fail := func(name, mode string, j *hjob, why string, ids ...int) {
		k := j.sub(ops, nil, ids...)
		r.Bad(eng.Bad{Part: name, Mode: mode, Text: caseText(k), Why: why})
	}
	until := func() int64 {
		t := time.Now().Add(20 * time.Second)
		if t.After(r.Deadline) {
			t = r.Deadline
		}
		return t.Unix()
	}
	var lost int64
	broken := func(what string, err error) {
		if atomic.AddInt64(&lost, 1) < 4 {
			fmt.Fprintln(os.Stderr, what, err)
		}
	}
	var found int64
	// enough: the check fails anyway.
	enough := func() bool { return atomic.LoadInt64(&found) > 40 }

	// 1. Each op in a process of its own, twice for the first ones.
	t0 := time.Now()
	done := r.Each(0, len(ops), func(w, i int) {
		n := 1
		if i < nAll {
			n = 2
		}
		for k := 0; k < n; k++ {
			a, err := fresh(work.plain, &hjob{Do: "base", Ops: ops[i : i+1]})
			if err != nil {
				broken("base", err)
				return
			}
			if a.Bad == "" && k > 0 && a.Res[0] != base[i] {
				a.Bad = "two fresh processes give two results"
			}
			if a.Bad != "" {
				fail("on its own", "hist", &hjob{Do: "hist", Seqs: [][]int{{i}}, C: -1}, string(a.Bad), i)
				return
			}
			base[i] = a.Res[0]
			r.State(eng.Hash(string(base[i])))
			r.NonTrivial(eng.Hash(ops[i].Kind + "\x00" + string(ops[i].Text)))
			r.Add(1, 1, 1)
		}
	})
	part("on its own", "fresh", len(ops), done, t0)
	if done < len(ops) || lost > 0 {
		if lost > 0 && !r.Failed() {
			fmt.Fprintln(os.Stderr, "the workers do not run")
			os.Exit(2)
		}
		return
	}

	// space runs n jobs; cold: each in a new process.
	space := func(name, mode, bin string, cold bool, n int, mk func(i int) (*hjob, []int)) {
		if r.Late() || enough() {
			r.Cut(name)
			return
		}
		t0 := time.Now()
		procs := make([]*proc, 64)
		before := make([][][]int, 64) // what the worker ran before
		var cases, blocked, cut int64
		done := r.Each(0, n, func(w, i int) {
			if enough() || atomic.LoadInt64(&blocked) > 3000 {
				atomic.AddInt64(&cut, 1)
				return
			}
			j, ids := mk(i)
			j.Until = until()
			var a *hans
			var err error
			if cold {
				a, err = fresh(bin, j.sub(ops, base, ids...))
			} else {
				if procs[w] == nil {
					if procs[w], err = startProc(bin); err != nil {
						broken(name, err)
						return
					}
					before[w] = nil
				}
				if !procs[w].told {
					j.Ops, j.Base = ops[:nAll], base[:nAll]
					procs[w].told = true
				}
				a, err = procs[w].ask(j)
				j.Ops, j.Base = nil, nil
			}
			if err != nil {
				broken(name, err)
				if !cold && procs[w] != nil {
					procs[w].stop()
					procs[w] = nil
				}
				return
			}
			atomic.AddInt64(&cases, int64(a.Done))
			atomic.AddInt64(&blocked, int64(a.Blocked))
			r.Add(int64(a.Done), int64(a.Steps), int64(a.Done))
			r.NonTrivial(eng.Hash(fmt.Sprint(name, i)))
			if a.Cut {
				atomic.AddInt64(&cut, 1)
			}
			if a.Bad != "" {
				atomic.AddInt64(&found, 1)
				if a.Plan != nil && j.Do == "sched" {
					j.Plan = a.Plan
				}
				if !cold {
					procs[w].stop()
					procs[w] = nil
				}
				if a.Seq == nil {
					fail(name, mode, j, string(a.Bad), ids...)
					return
				}
				// As short a history as fails in a new process.
				flat := append([]int{}, a.Seq...)
				h := &hjob{Do: "hist", C: -1}
				tryIt := func(s []int) bool {
					h.Seqs, h.Until = [][]int{s}, until()
					b, err := fresh(work.plain, h.sub(ops, base, s...))
					return err == nil && b.Bad != ""
				}
				var prefix []int
				for _, s := range before[w] {
					prefix = append(prefix, s...)
				}
				for _, s := range j.Seqs {
					prefix = append(prefix, s...)
				}
				for k := 0; !tryIt(flat) && k < len(prefix); k = 2*k + 8 {
					if k > len(prefix) {
						k = len(prefix)
					}
					flat = append(append([]int{}, prefix[len(prefix)-k:]...), a.Seq...)
				}
				h.Seqs = [][]int{flat}
				fail(name, mode, h, string(a.Bad), flat...)
				return
			}
			if !cold {
				before[w] = append(before[w], j.Seqs...)
				if j.Do == "pairs" {
					for b := 0; b < nAll; b++ {
						before[w] = append(before[w], []int{j.A, b})
					}
				}
				if len(before[w]) > 20000 {
					before[w] = before[w][len(before[w])-10000:]
				}
			}
		})
		for _, p := range procs {
			if p != nil {
				p.stop()
			}
		}
		if cut > 0 || lost > 0 {
			r.Cut(fmt.Sprintf("%s: %d jobs (%d blocked schedules, %d without an answer)", name, cut, blocked, lost))
		}
		r.Set(name, map[string]int64{"jobs": int64(done), "executions": cases, "blocked": blocked})
		part(name, mode, n, done, t0)
	}

	// 2. Histories.
	nf := len(midOps)
	if r.Thorough {
		nf = 120
	}
	space("pairs in new processes", "hist", work.plain, true, nf*nf, func(i int) (*hjob, []int) {
		s := []int{i / nf, i % nf}
		return &hjob{Do: "hist", Seqs: [][]int{s}, C: -1}, s
	})
	space("pairs", "hist", work.plain, false, nAll, func(i int) (*hjob, []int) {
		return &hjob{Do: "pairs", A: i, C: -1}, nil
	})
	tuples := func(name string, n, depth int) {
		// One job for each beginning of length depth-1... of two less.
		jobs := 1
		for k := 0; k < depth-2; k++ {
			jobs *= n
		}
		space(name, "hist", work.plain, false, jobs, func(i int) (*hjob, []int) {
			pre := make([]int, depth-2)
			for k, x := 0, i; k < depth-2; k++ {
				pre[k] = x % n
				x /= n
			}
			j := &hjob{Do: "hist", C: -1}
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					j.Seqs = append(j.Seqs, append(append([]int{}, pre...), a, b))
				}
			}
			return j, nil
		})
	}
	tuples("three calls", nf, 3)
	tuples("four calls", len(smallOps), 4)
	if r.Thorough {
		tuples("five calls", len(smallOps), 5)
	}
	// Long ones: all ops there and back, each one again and again.
	order := upTo(len(ops))
	back := make([]int, len(order))
	for i, x := range order {
		back[len(order)-1-i] = x
	}
	probes := upTo(len(midOps))
	longs := [][]int{append(append(append([]int{}, order...), back...), probes...), append(append(append([]int{}, back...), order...), probes...)}
	for i := 0; i < len(midOps); i++ {
		var s []int
		for k := 0; k < 1100; k++ {
			s = append(s, i)
		}
		longs = append(longs, append(s, probes...))
	}
	for i := 0; i < len(midOps); i++ { // two in turns
		var s []int
		for k := 0; k < 600; k++ {
			s = append(s, i, (i+1+k/20)%len(midOps))
		}
		longs = append(longs, s)
	}
	space("long histories", "hist", work.plain, true, len(longs), func(i int) (*hjob, []int) {
		return &hjob{Do: "hist", Seqs: [][]int{longs[i]}, C: -1}, longs[i]
	})

	// 3. A call inside a callback of another.
	space("calls inside callbacks", "nest", work.plain, false, nf*nf, func(i int) (*hjob, []int) {
		return &hjob{Do: "nest", A: i / nf, B: i % nf, C: -1}, []int{i / nf, i % nf}
	})

	// 4. Two goroutines with no order between them, under the race detector.
	if work.race == "" {
		r.Set("race_detector", "not available: "+clip(work.noRace))
	} else {
		nr := len(midOps)
		space("calls without order", "race", work.race, true, 2*nr*nr, func(i int) (*hjob, []int) {
			j := &hjob{Do: "race", A: i / 2 / nr, B: i / 2 % nr, C: -1, Order: []string{"AB", "par"}[i%2]}
			return j, []int{j.A, j.B}
		})
		// ... and each with many, in processes that have run others.
		with := nr
		if r.Thorough {
			with = nAll
		}
		space("calls without order among others", "race", work.race, false, nAll, func(i int) (*hjob, []int) {
			j := &hjob{Do: "raceall", A: i, B: with, C: -1}
			return j, append(upTo(with), i)
		})
	}

	// 5. All schedules with few preemptions.
	if work.sched == "" {
		r.Set("schedules", "not available: "+clip(work.noSched))
		return
	}
	r.Set("scheduling_points_in_source", work.points)
	ns, max := 18, 30000
	if r.Thorough {
		ns, max = nf, 1000000
		if nf > len(midOps) {
			ns = len(midOps)
		}
	}
	space("schedules", "sched", work.sched, false, ns*ns, func(i int) (*hjob, []int) {
		j := &hjob{Do: "sched", A: i / ns, B: i % ns, C: -1, Depth: 2, Max: max}
		return j, []int{j.A, j.B}
	})
	nt := 6
	space("schedules of three", "sched", work.sched, false, nt*nt*nt, func(i int) (*hjob, []int) {
		j := &hjob{Do: "sched", A: i / nt / nt, B: i / nt % nt, C: i % nt, Depth: 1}
		return j, []int{j.A, j.B, j.C}
	})
	if r.Thorough && work.fine != "" {
		r.Set("scheduling_points_at_statements", work.finePts)
		space("schedules, every statement", "sched", work.fine, false, ns*ns, func(i int) (*hjob, []int) {
			j := &hjob{Do: "sched", A: i / ns, B: i % ns, C: -1, Depth: 1, Fine: true}
			return j, []int{j.A, j.B}
		})
	}
}

func init() {
	add(&eng.Check{
		ID:    "C14",
		Rule:  "histories: all sequences of calls up to a length over an alphabet of calls (parsing in each mode, with good and bad input, failing readers, and everything that can be done with a tree), in fresh and in used processes, and calls inside callbacks; schedules: all pairs of calls switched at every point where a function starts or shared state is touched, with one or two preemptions, and all pairs without any order under the race detector. Each result must be the one of the call in a process of its own. Non-trivial: all",
		Hang:  400 * time.Second,
		Extra: histories,
		Eval:  replay14,
	})
}
