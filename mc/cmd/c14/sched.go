//go:build c14sched

package main

import (
	"fmt"
	"time"

	"github.com/vim-jp/go-vimlparser/verifsched"

	"mc/wire"
)

// sched runs the ops A, B and perhaps C in threads of which only one runs at a
// time.  A plan [i, j, ...] lets the first run up to its i-th point, then the
// next up to its j-th, and so on around; what is left then runs to its end.
func sched(j *Job, a *Answer) {
	ids := []int{j.A, j.B}
	if j.C >= 0 {
		ids = append(ids, j.C)
	}
	one := func(plan []int) bool {
		res, steps, blocked, ok := threads(j, ids, plan)
		a.Done++
		for _, n := range steps {
			a.Steps += n
		}
		if blocked {
			a.Blocked++
		}
		if !ok {
			a.Bad, a.Plan = "no end: the calls block each other", plan
			return false
		}
		for t, i := range ids {
			if res[t] != string(j.Base[i]) {
				a.Bad = wire.Raw(fmt.Sprintf("thread %d gives another result than on its own, %s", t+1, diff(string(j.Base[i]), res[t])))
				a.Plan = append([]int{}, plan...)
				return false
			}
		}
		return true
	}
	late := func() bool {
		if time.Now().Unix() > j.Until || a.Blocked > 300 {
			a.Cut = true
		}
		return a.Cut
	}
	if j.Plan != nil {
		for k := 0; k < 20; k++ { // a cold and a warm run
			if !one(j.Plan) {
				return
			}
		}
		return
	}
	// How many points each has when it runs on its own.
	n := make([]int, len(ids))
	for t, i := range ids {
		_, steps, _, _ := threads(j, []int{i}, nil)
		n[t] = steps[0]
	}
	for i := 0; i <= n[0]; i++ {
		if late() || !one([]int{i}) {
			return
		}
	}
	if j.Depth < 2 || n[0]*n[1] > j.Max {
		return
	}
	for i := 1; i <= n[0]; i++ {
		for k := 1; k <= n[1]; k++ {
			if late() || !one([]int{i, k}) {
				return
			}
		}
	}
}

func threads(j *Job, ids []int, plan []int) (res []string, steps []int, blocked, ok bool) {
	res = make([]string, len(ids))
	var fs []func()
	for t, i := range ids {
		t, op := t, j.Ops[i]
		fs = append(fs, func() { res[t] = whole(op) })
	}
	steps, blocked, ok = verifsched.Run(fs, plan)
	return
}
