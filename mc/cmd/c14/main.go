// Command c14 runs histories and schedules of calls in a process of its own,
// for check C14.  It reads jobs from standard input, one per line, and writes
// one answer per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"

	"github.com/vim-jp/go-vimlparser/compiler"

	"mc/wire"
)

// Op is one call and everything that is done with its result.
type Op struct {
	Kind string
	Text wire.Raw
}

// Job is a list of histories or a space of schedules.
type Job struct {
	Do    string
	Ops   []Op
	Base  []wire.Raw // what each op yields on its own
	Seqs  [][]int    // hist
	A, B  int        // sched, race, nest
	C     int        // sched: third thread, or -1
	Depth int        // sched: how many preemptions
	Plan  []int      // one schedule; nil: all of them
	Max   int        // sched: no more points than this for two preemptions
	Order string     // race
	Until int64      // unix time
}

// Answer is the outcome of a job.
type Answer struct {
	Res     []wire.Raw
	Done    int // histories or schedules
	Steps   int
	Blocked int
	Cut     bool
	Bad     wire.Raw
	Plan    []int
	Seq     []int
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	j := i - 60
	if j < 0 {
		j = 0
	}
	cut := func(s string) string {
		if len(s) < j {
			return ""
		}
		s = s[j:]
		if len(s) > 200 {
			s = s[:200]
		}
		return s
	}
	return fmt.Sprintf("at byte %d:\nwant %q\n got %q", i, cut(want), cut(got))
}

// history runs ops one after the other, and looks at each result right away
// and again at the end.
func history(j *Job, seq []int, steps *int) string {
	kept := make([]*held, len(seq))
	comp := &compiler.Compiler{Config: compiler.Config{Indent: "\t"}}
	for k, i := range seq {
		kept[k] = run(j.Ops[i])
		*steps++
		want := string(j.Base[i])
		if got := kept[k].now; got != section(want, 0) {
			return fmt.Sprintf("call %d gives another result than on its own, %s", k+1, diff(section(want, 0), got))
		}
	}
	for k, i := range seq {
		h := kept[k]
		h.comp = comp
		*steps++
		if got := h.again(); got != h.now {
			return fmt.Sprintf("the result of call %d has changed, %s", k+1, diff(h.now, got))
		}
		if got, want := h.late(), section(string(j.Base[i]), 1); got != want {
			return fmt.Sprintf("compiling, walking or printing the result of call %d gives another result than on its own, %s", k+1, diff(want, got))
		}
		if got := h.again(); got != h.now {
			return fmt.Sprintf("the result of call %d has changed after compiling, walking or printing it, %s", k+1, diff(h.now, got))
		}
	}
	return ""
}

const sep = "\x00\x01\x00"

func section(base string, k int) string {
	p := strings.SplitN(base, sep, 2)
	if k < len(p) {
		return p[k]
	}
	return ""
}

func whole(op Op) string {
	h := run(op)
	return h.now + sep + h.late()
}

func main() {
	debug.SetGCPercent(400)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	var ops []Op
	var base []wire.Raw
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 0 {
			j := &Job{}
			if err := json.Unmarshal(line, j); err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(3)
			}
			if j.Ops == nil {
				j.Ops, j.Base = ops, base
			} else {
				ops, base = j.Ops, j.Base
			}
			a := &Answer{}
			do(j, a)
			b, _ := json.Marshal(a)
			out.Write(append(b, '\n'))
			out.Flush()
		}
		if err != nil {
			return
		}
	}
}

func do(j *Job, a *Answer) {
	switch j.Do {
	case "base":
		for _, op := range j.Ops {
			a.Res = append(a.Res, wire.Raw(whole(op)))
		}
	case "hist":
		for _, s := range j.Seqs {
			if time.Now().Unix() > j.Until {
				a.Cut = true
				return
			}
			if bad := history(j, s, &a.Steps); bad != "" {
				a.Bad, a.Seq = wire.Raw(bad), s
				return
			}
			a.Done++
		}
	case "pairs": // every op after op A
		for b := range j.Ops {
			if time.Now().Unix() > j.Until {
				a.Cut = true
				return
			}
			s := []int{j.A, b}
			if bad := history(j, s, &a.Steps); bad != "" {
				a.Bad, a.Seq = wire.Raw(bad), s
				return
			}
			a.Done++
		}
	case "nest":
		nest(j, a)
	case "race":
		race(j, a)
	case "raceall": // op A, again and again, with no order to all the first B
		raceall(j, a)
	case "sched":
		sched(j, a)
	default:
		fmt.Fprintln(os.Stderr, "no job", j.Do)
		os.Exit(3)
	}
}

// nest runs op B inside each callback of op A: its reader, its visitors and
// the writer its tree is compiled to.
func nest(j *Job, a *Answer) {
	for k := 0; k < 40; k++ {
		n := 0
		bad := ""
		hook = func() {
			n++
			if n != k+1 {
				return
			}
			h := hook
			hook = nil
			if got := whole(j.Ops[j.B]); got != string(j.Base[j.B]) {
				bad = "the inner call gives another result than on its own, " + diff(string(j.Base[j.B]), got)
			}
			hook = h
		}
		got := whole(j.Ops[j.A])
		hook = nil
		a.Done++
		a.Steps += n
		if bad == "" && got != string(j.Base[j.A]) {
			bad = "the outer call gives another result than on its own, " + diff(string(j.Base[j.A]), got)
		}
		if bad != "" {
			a.Bad, a.Plan = wire.Raw(bad), []int{k}
			return
		}
		if n <= k {
			return
		}
	}
}

// A turn is passed without the race detector seeing an order in it.
var turn int

//go:norace
//go:noinline
func peek() int { return turn }

//go:norace
//go:noinline
func poke(v int) { turn = v }

// race runs two ops in two goroutines with no order between them.
func race(j *Job, a *Answer) {
	var wg sync.WaitGroup
	res := make([]string, 2)
	poke(-1)
	for t, i := range []int{j.A, j.B} {
		wg.Add(1)
		go func(t int, op Op) {
			defer wg.Done()
			switch j.Order {
			case "AB":
				for peek() != t {
					runtime.Gosched()
				}
			default:
				for peek() < 0 {
				}
			}
			res[t] = whole(op)
			poke(t + 1)
		}(t, j.Ops[i])
	}
	time.Sleep(time.Millisecond)
	poke(0)
	wg.Wait()
	a.Done++
	for t, i := range []int{j.A, j.B} {
		if res[t] != string(j.Base[i]) {
			a.Bad = wire.Raw(fmt.Sprintf("call %d gives another result than on its own, %s", t+1, diff(string(j.Base[i]), res[t])))
		}
	}
}

func raceall(j *Job, a *Answer) {
	var wg sync.WaitGroup
	bads := make([]string, 2)
	list := func(t int, is []int) {
		defer wg.Done()
		for peek() < 0 {
		}
		for _, i := range is {
			if got := whole(j.Ops[i]); got != string(j.Base[i]) {
				bads[t] = fmt.Sprintf("call of %q among others gives another result than on its own, %s", j.Ops[i].Text, diff(string(j.Base[i]), got))
			}
		}
	}
	poke(-1)
	var one, all []int
	for i := 0; i < j.B; i++ {
		one, all = append(one, j.A), append(all, i)
	}
	wg.Add(2)
	go list(0, one)
	go list(1, append(all, j.A))
	time.Sleep(time.Millisecond)
	poke(0)
	wg.Wait()
	a.Done++
	a.Bad = wire.Raw(bads[0] + bads[1])
}
