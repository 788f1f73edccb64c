package eng

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Part is one enumerated space of a check.
type Part struct {
	Name string
	Mode string // how the text is to be used; part of the case
	S    Space
}

// Case is one element of a part.
type Case struct{ Mode, Text string }

// Out is what the evaluation of one case yields.
type Out struct {
	Bad        string // description of the violation, or ""
	Outcome    uint64 // hash of the reference outcome: counted as state
	Steps      int    // reference steps taken: counted as transitions
	NonTrivial bool
	Compared   bool // the implementation's result was compared with the reference
}

// Check decides one property.
type Check struct {
	ID    string
	Rule  string // how cases are made, what is non-trivial
	Level string
	Parts func(thorough bool) []Part
	Eval  func(Case) Out
	// Extra runs after the parts: explorations which are not text spaces.
	Extra       func(r *Run)
	Assumptions []string
	// Hang is how long a case may take; 0 is the default.
	Hang time.Duration
}

// Bad is a violation.
type Bad struct {
	Part, Mode, Text, Why string
}

// Run is one run of a check.
type Run struct {
	C        *Check
	Thorough bool
	Deadline time.Time

	mu       sync.Mutex
	bads     []Bad
	nbad     int
	evals    int64
	steps    int64
	compared int64
	nontriv  []uint64
	states   map[uint64]struct{}
	samples  []interface{}
	cut      []string
	parts    []map[string]interface{}
	extra    map[string]interface{}
	start    time.Time
	cur      []byte // shared: per worker part and index of the case at hand
	known    []Known
}

// Known is a recorded finding.
type Known struct {
	Property string `json:"property"`
	Mode     string `json:"mode"`
	Text     string `json:"text"`
	What     string `json:"what"`
}

const (
	hang    = 30 * time.Second
	maxHeap = 6 << 30
	workers = 8
)

// Root is /verif.
func Root() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(id string) []Known {
	var all struct {
		Findings []Known `json:"findings"`
	}
	b, err := ioutil.ReadFile(filepath.Join(Root(), "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(b, &all); err != nil {
			fmt.Fprintln(os.Stderr, "known_findings.json:", err)
			os.Exit(2)
		}
	}
	var out []Known
	for _, k := range all.Findings {
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

// Hash hashes a text.
func Hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Bad records a violation.
func (r *Run) Bad(b Bad) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nbad++
	r.bads = append(r.bads, b)
	if len(r.bads) > 400 {
		r.sortBads()
		r.bads = r.bads[:200]
	}
}

func (r *Run) sortBads() {
	sort.SliceStable(r.bads, func(i, j int) bool {
		a, b := r.bads[i], r.bads[j]
		if len(a.Text) != len(b.Text) {
			return len(a.Text) < len(b.Text)
		}
		return a.Text < b.Text
	})
}

// Add counts the work of an extra exploration.
func (r *Run) Add(evals, steps, compared int64) {
	atomic.AddInt64(&r.evals, evals)
	atomic.AddInt64(&r.steps, steps)
	atomic.AddInt64(&r.compared, compared)
}

// State counts a distinct reference state.
func (r *Run) State(h uint64) {
	r.mu.Lock()
	r.states[h] = struct{}{}
	r.mu.Unlock()
}

// NonTrivial counts a distinct non-trivial case by its hash.
func (r *Run) NonTrivial(h uint64) {
	r.mu.Lock()
	r.nontriv = append(r.nontriv, h)
	r.mu.Unlock()
}

// Sample records a case in the evidence.
func (r *Run) Sample(x interface{}) {
	r.mu.Lock()
	if len(r.samples) < 40 {
		r.samples = append(r.samples, x)
	}
	r.mu.Unlock()
}

// Set puts an extra key in the evidence.
func (r *Run) Set(k string, v interface{}) { r.mu.Lock(); r.extra[k] = v; r.mu.Unlock() }

// Failed reports that there is a violation.
func (r *Run) Failed() bool { r.mu.Lock(); defer r.mu.Unlock(); return r.nbad > 0 }

// Cut notes an exploration stopped before its end.
func (r *Run) Cut(what string) { r.mu.Lock(); r.cut = append(r.cut, what); r.mu.Unlock() }

// Late reports the deadline has passed.
func (r *Run) Late() bool { return time.Now().After(r.Deadline) }

// Part records a space explored by an extra exploration.
func (r *Run) Part(p Part, cases, done, compared int, t0 time.Time) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.parts = append(r.parts, map[string]interface{}{
		"space": p.Name, "mode": p.Mode, "cases": cases, "done": done, "compared": compared,
		"wall_s": round(time.Since(t0).Seconds()),
	})
	for _, k := range []int{cases / 3, cases - 1} {
		if cases > 0 && len(r.samples) < 40 {
			t := p.S.At(k)
			if len(t) > 200 {
				t = t[:200] + "..."
			}
			r.samples = append(r.samples, map[string]string{"space": p.Name, "mode": p.Mode, "text": t})
		}
	}
}

// Each evaluates f for 0..n-1 on all workers; slot identifies the running case
// for the watchdog.  It returns how many were done.
func (r *Run) Each(part int, n int, f func(worker, i int)) int {
	var next, done int64
	chunk := int64(n/workers/64 + 1)
	if chunk > 256 {
		chunk = 256
	}
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			cell := r.cur[w*32:]
			for {
				lo := atomic.AddInt64(&next, chunk) - chunk
				if lo >= int64(n) || r.Late() {
					break
				}
				for i := lo; i < lo+chunk && i < int64(n); i++ {
					binary.LittleEndian.PutUint64(cell[8:], uint64(part)+1)
					binary.LittleEndian.PutUint64(cell[16:], uint64(i))
					atomic.AddUint64(&ticks[w], 1)
					f(w, int(i))
					atomic.AddInt64(&done, 1)
				}
			}
			binary.LittleEndian.PutUint64(cell[8:], 0)
			atomic.AddUint64(&ticks[w], 1)
		}(w)
	}
	wg.Wait()
	return int(done)
}

var ticks [workers]uint64

func (r *Run) watchdog(parts []Part) {
	hang := hang
	if r.C.Hang > 0 {
		hang = r.C.Hang
	}
	var last [workers]uint64
	var since [workers]time.Time
	for {
		time.Sleep(300 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		longest, at := time.Duration(0), -1
		for w := 0; w < workers; w++ {
			t := atomic.LoadUint64(&ticks[w])
			if t != last[w] || binary.LittleEndian.Uint64(r.cur[w*32+8:]) == 0 {
				last[w], since[w] = t, time.Now()
				continue
			}
			if d := time.Since(since[w]); d > longest {
				longest, at = d, w
			}
		}
		if at < 0 || longest < hang && (ms.HeapAlloc < maxHeap || longest < 2*time.Second) {
			continue
		}
		p := int(binary.LittleEndian.Uint64(r.cur[at*32+8:])) - 1
		i := int(binary.LittleEndian.Uint64(r.cur[at*32+16:]))
		b := Bad{Why: fmt.Sprintf("no answer after %v (heap %d MB)", longest.Round(time.Second), ms.HeapAlloc>>20)}
		if p >= 0 && p < len(parts) {
			b.Part, b.Mode, b.Text = parts[p].Name, parts[p].Mode, parts[p].S.At(i)
		} else {
			b.Part, b.Text = "extra", fmt.Sprintf("step %d", i)
		}
		r.Bad(b)
		r.Cut("stopped by the watchdog")
		os.Exit(r.finish())
	}
}

func (r *Run) runParts(parts []Part) {
	type local struct {
		nontriv []uint64
		states  map[uint64]struct{}
		_       [64]byte
	}
	for pi, p := range parts {
		n := p.S.Len()
		t0 := time.Now()
		var ls [workers]local
		for w := range ls {
			ls[w].states = map[uint64]struct{}{}
		}
		var steps, compared int64
		done := r.Each(pi, n, func(w, i int) {
			c := Case{p.Mode, p.S.At(i)}
			o := r.C.Eval(c)
			if o.Bad != "" {
				r.Bad(Bad{p.Name, c.Mode, c.Text, o.Bad})
			}
			if o.Compared {
				atomic.AddInt64(&compared, 1)
			}
			atomic.AddInt64(&steps, int64(o.Steps))
			l := &ls[w]
			if o.Outcome != 0 {
				l.states[o.Outcome] = struct{}{}
			}
			if o.NonTrivial {
				l.nontriv = append(l.nontriv, Hash(c.Mode+"\x00"+c.Text))
			}
		})
		r.evals += int64(done)
		r.steps += steps
		r.compared += compared
		for w := range ls {
			r.nontriv = append(r.nontriv, ls[w].nontriv...)
			for h := range ls[w].states {
				r.states[h] = struct{}{}
			}
		}
		if len(r.nontriv) > 1<<24 {
			r.nontriv = uniq(r.nontriv)
		}
		r.parts = append(r.parts, map[string]interface{}{
			"space": p.Name, "mode": p.Mode, "cases": n, "done": done, "compared": compared,
			"wall_s": round(time.Since(t0).Seconds()),
		})
		if done < n {
			r.cut = append(r.cut, fmt.Sprintf("%s: %d of %d cases", p.Name, done, n))
		}
		for _, k := range []int{n / 3, n - 1} {
			if n > 0 && len(r.samples) < 24 {
				t := p.S.At(k)
				if len(t) > 200 {
					t = t[:200] + "..."
				}
				r.samples = append(r.samples, map[string]string{"space": p.Name, "mode": p.Mode, "text": t})
			}
		}
	}
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func uniq(h []uint64) []uint64 {
	sort.Slice(h, func(i, j int) bool { return h[i] < h[j] })
	k := 0
	for i, x := range h {
		if i == 0 || x != h[k-1] {
			h[k] = x
			k++
		}
	}
	return h[:k]
}

func (r *Run) tier() string {
	if r.Thorough {
		return "thorough"
	}
	return "quick"
}

func (r *Run) finish() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	var open []Bad
	knownHit := map[int]bool{}
	for _, b := range r.bads {
		hit := false
		for i, k := range r.known {
			if k.Mode == b.Mode && k.Text == b.Text {
				hit, knownHit[i] = true, true
			}
		}
		if !hit {
			open = append(open, b)
		}
	}
	r.bads = open
	r.sortBads()
	for i, k := range r.known {
		if knownHit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.C.ID, k.What)
		}
	}
	cov := map[string]interface{}{
		"evaluations":                   atomic.LoadInt64(&r.evals),
		"states":                        len(r.states),
		"transitions":                   atomic.LoadInt64(&r.steps),
		"traces_validated_against_impl": atomic.LoadInt64(&r.compared),
		"distinct_nontrivial":           len(uniq(r.nontriv)),
		"rule":                          r.C.Rule,
		"samples":                       r.samples,
		"spaces":                        r.parts,
		"exhaustive":                    len(r.cut) == 0,
	}
	if len(r.cut) > 0 {
		cov["cut_short"] = r.cut
	}
	for k, v := range r.extra {
		cov[k] = v
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{
		"property": r.C.ID, "tier": r.tier(), "seed": seed, "level": r.C.Level,
		"coverage": cov, "assumptions": r.C.Assumptions,
		"wall_s": round(time.Since(r.start).Seconds()), "violations": len(r.bads),
	}
	writeJSON(filepath.Join(Root(), "evidence", r.C.ID+".json"), ev)
	fmt.Printf("%s %s: %d evaluations, %d states, %d transitions, %d compared, %.1f s%s\n", r.C.ID, r.tier(),
		r.evals, len(r.states), r.steps, r.compared, time.Since(r.start).Seconds(), map[bool]string{true: "", false: ", cut short: " + strings.Join(r.cut, "; ")}[len(r.cut) == 0])
	if len(r.bads) == 0 {
		return 0
	}
	show := 5
	fmt.Sscan(os.Getenv("MC_SHOW"), &show)
	for i, b := range r.bads {
		if i == show {
			break
		}
		fmt.Printf("--- %s [%s %s] %s\n%s\n", r.C.ID, b.Part, b.Mode, Quote(b.Text), clip(b.Why))
	}
	b := r.bads[0]
	path := filepath.Join(Root(), "evidence", "replay-"+r.C.ID+".json")
	writeJSON(path, map[string]interface{}{
		"property": r.C.ID, "space": b.Part, "mode": b.Mode, "text": b.Text, "text_bytes": []byte(b.Text), "why": b.Why,
		"replay": "bash /verif/check.sh replay " + path,
	})
	fmt.Printf("%d violations in %d evaluations\n", r.nbad, r.evals)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.C.ID, path)
	return 1
}

func clip(s string) string {
	if len(s) > 2000 {
		return s[:2000] + "..."
	}
	return s
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		os.MkdirAll(filepath.Dir(path), 0777)
		err = ioutil.WriteFile(path, append(b, '\n'), 0666)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// Main runs checks: "ID [-thorough]", "replay FILE".
func Main(checks []*Check) {
	child := flag.String("child", "", "progress file (internal)")
	thorough := flag.Bool("thorough", false, "thorough tier")
	budget := flag.Duration("budget", 0, "time budget")
	one := flag.String("one", "", "evaluate one case from a JSON file (internal)")
	stride := flag.Int("scan", 0, "look for one violation at every n-th element of the spaces of all given checks (for tools/mut)")
	flag.Parse()
	if os.Getenv("VERIF_TIER") == "thorough" {
		*thorough = true
	}
	find := func(id string) *Check {
		for _, c := range checks {
			if c.ID == id {
				return c
			}
		}
		fmt.Fprintln(os.Stderr, "no such check:", id)
		os.Exit(2)
		return nil
	}
	if *stride > 0 {
		for _, id := range flag.Args() {
			scan(find(id), *stride, *thorough)
		}
		os.Exit(0)
	}
	if flag.Arg(0) == "replay" || *one != "" {
		f := flag.Arg(1)
		if *one != "" {
			f = *one
		}
		var b struct {
			Property, Mode, Text string
			Bytes                []byte `json:"text_bytes"`
		}
		d, err := ioutil.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(d, &b)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if b.Bytes != nil {
			b.Text = string(b.Bytes)
		}
		debug.SetMaxStack(256 << 20)
		hang := hang
		if h := find(b.Property).Hang; h > 0 {
			hang = h
		}
		done := make(chan Out, 1)
		go func() { done <- find(b.Property).Eval(Case{b.Mode, b.Text}) }()
		select {
		case o := <-done:
			if o.Bad != "" {
				fmt.Printf("%s\n%s\n", Quote(b.Text), o.Bad)
				os.Exit(1)
			}
		case <-time.After(hang):
			fmt.Printf("%s\nno answer after %v\n", Quote(b.Text), hang)
			os.Exit(1)
		}
		fmt.Println("holds")
		os.Exit(0)
	}
	c := find(flag.Arg(0))
	if *budget == 0 {
		*budget = 600 * time.Second
		if *thorough {
			*budget = 840 * time.Second
		}
	}
	r := &Run{C: c, Thorough: *thorough, start: time.Now(), states: map[uint64]struct{}{},
		extra: map[string]interface{}{}, known: loadKnown(c.ID)}
	r.Deadline = r.start.Add(*budget)
	if c.Level == "" {
		c.Level = "model_checking"
	}
	var parts []Part
	if c.Parts != nil {
		parts = c.Parts(*thorough)
	}
	if *child == "" {
		os.Exit(r.parent(parts))
	}
	f, err := os.OpenFile(*child, os.O_RDWR, 0)
	if err == nil {
		r.cur, err = syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	go r.watchdog(parts)
	r.runParts(parts)
	if c.Extra != nil && !r.Late() {
		c.Extra(r)
	}
	os.Exit(r.finish())
}

// scan stops at the first violation.
func scan(c *Check, stride int, thorough bool) {
	debug.SetGCPercent(400)
	if c.Parts == nil {
		return
	}
	for _, p := range c.Parts(thorough) {
		p := p
		n := (p.S.Len() + stride - 1) / stride
		var next int64 = -1
		var wg sync.WaitGroup
		for w := 0; w < runtime.GOMAXPROCS(0); w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					i := atomic.AddInt64(&next, 1)
					if i >= int64(n) {
						return
					}
					k := int(i) * stride
					t := p.S.At(k)
					timer := time.AfterFunc(20*time.Second, func() {
						fmt.Printf("SCAN %s [%s] %s: hangs\n", c.ID, p.Name, Quote(t))
						os.Exit(1)
					})
					o := c.Eval(Case{p.Mode, t})
					timer.Stop()
					if o.Bad != "" {
						fmt.Printf("SCAN %s [%s] %s\n", c.ID, p.Name, Quote(t))
						os.Exit(1)
					}
				}
			}()
		}
		wg.Wait()
	}
}

// parent runs the exploration in a child process, so that a crash of the code
// under check is a finding too.
func (r *Run) parent(parts []Part) int {
	tmp, err := ioutil.TempDir("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	cur := filepath.Join(tmp, "cur")
	if err := ioutil.WriteFile(cur, make([]byte, 4096), 0666); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	args := append([]string{"-child", cur}, os.Args[1:]...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.Stdout = os.Stdout
	errFile, _ := os.Create(filepath.Join(tmp, "stderr"))
	cmd.Stderr = errFile
	err = cmd.Run()
	code := cmd.ProcessState.ExitCode()
	stderr, _ := ioutil.ReadFile(filepath.Join(tmp, "stderr"))
	if len(stderr) > 4000 {
		stderr = stderr[:4000]
	}
	os.Stderr.Write(stderr)
	if code == 0 || code == 1 {
		return code
	}
	// The child died: find the case.
	b, _ := ioutil.ReadFile(cur)
	for w := 0; w < workers && len(b) >= 4096; w++ {
		p := int(binary.LittleEndian.Uint64(b[w*32+8:])) - 1
		i := int(binary.LittleEndian.Uint64(b[w*32+16:]))
		if p < 0 || p >= len(parts) {
			continue
		}
		text := parts[p].S.At(i)
		caseFile := filepath.Join(tmp, "case.json")
		writeJSON(caseFile, map[string]interface{}{"property": r.C.ID, "mode": parts[p].Mode, "text_bytes": []byte(text)})
		cmd := exec.Command(os.Args[0], "-one", caseFile)
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.Bad(Bad{parts[p].Name, parts[p].Mode, text, "the process dies:\n" + clip(string(out))})
			break
		}
	}
	if r.nbad == 0 {
		if strings.Contains(string(stderr), "go-vimlparser") && (strings.Contains(string(stderr), "fatal error") || strings.Contains(string(stderr), "panic:")) {
			r.Bad(Bad{"", "", "", "the process dies:\n" + string(stderr)})
		} else {
			fmt.Fprintln(os.Stderr, "check died:", err)
			return 2
		}
	}
	r.Cut("the process died")
	return r.finish()
}
