package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/vsched"
)

// ---- C32: what has ended leaves nothing behind ---------------------------------------------

type leakConf struct {
	name string
	ctrl core.CtrlConf
	mock func() *mock
}

func leakConfs() []leakConf {
	var second = time.Second
	return []leakConf{
		{"two iterations", core.CtrlConf{Iter: 2}, func() *mock { return &mock{} }},
		{"endless", core.CtrlConf{IterFreq: 5}, func() *mock { return &mock{} }},
		{"endless until a timeout", core.CtrlConf{IterFreq: 5, Timeout: second}, func() *mock { return &mock{} }},
		{"two iterations with a timeout", core.CtrlConf{Iter: 2, Timeout: 2 * second}, func() *mock { return &mock{} }},
		{"started by data", core.CtrlConf{Iter: 1, DataPerIter: 1}, func() *mock { return &mock{} }},
		{"failing initialization", core.CtrlConf{Iter: 2}, func() *mock { return &mock{initErr: 2} }},
		{"panicking initialization", core.CtrlConf{Iter: 2}, func() *mock { return &mock{initPanic: 1} }},
		{"failing iteration", core.CtrlConf{Iter: 3, Timeout: second}, func() *mock { return &mock{failAt: 2} }},
		{"panicking iteration", core.CtrlConf{Iter: 3}, func() *mock { return &mock{panicAt: 2} }},
	}
}

// keeps tells how many threads an algorithm needs between its runs.
func keeps() int {
	var before = len(vsched.Threads())
	var r = newRig(core.CtrlConf{Iter: 1}, &mock{})
	r.algo.Init()
	settle()
	return len(vsched.Threads()) - before
}

func leftBehind(when string, n, most int, story string) {
	if n > most {
		vsched.Fail("%d threads live %s, at most %d are needed: %s: %s", n, when, most, strings.Join(vsched.Threads(), ", "), story)
	}
}

// leftovers counts the threads that live after each operation.
func leftovers(c leakConf, depth, times int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, %d operations%s", c.name, depth, repeated(times)),
		Opt:  wordOptions(times, 30000),
		Body: func() {
			var base = keeps()
			var before = len(vsched.Threads())
			var r = newRig(c.ctrl, c.mock())
			var op = word([]string{"Init", "Play", "Pause", "Stop", "WaitT", "Batch", "Push", "Copy"}, depth)
			for i := 0; i < depth*times && !vsched.Failed(); i++ {
				r.do(0, op(i))
				settle()
				var n = len(vsched.Threads()) - before
				switch st := r.algo.Status(); st.Value {
				case core.Created:
					leftBehind("before the initialization", n, 0, r.historyOps())
				case core.Running, core.Idle:
					leftBehind("while it runs", n, base+1, r.historyOps())
				default:
					leftBehind("while nothing runs", n, base, r.historyOps())
				}
			}
			r.algo.Stop()
			settle()
			leftBehind("at the end", len(vsched.Threads())-before, base, r.historyOps())
			vsched.SetOutcome(r.historyOps())
		},
	}
}

// leftoversConc does so after clients gave commands at the same time.
func leftoversConc(c leakConf, setup []string, progs [][]string, max [2]int) Scenario {
	var names []string
	for _, p := range progs {
		names = append(names, strings.Join(p, " "))
	}
	return Scenario{
		Name: fmt.Sprintf("%s, after [%s], clients: %s", c.name, strings.Join(setup, " "), strings.Join(names, " | ")),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 8000},
		Body: func() {
			var base = keeps()
			var before = len(vsched.Threads())
			var r = newRig(c.ctrl, c.mock())
			for _, op := range setup {
				r.do(0, op)
			}
			var ts []vsched.Thread
			for i, p := range progs {
				ts = append(ts, vsched.GoNamed(fmt.Sprint("client", i+1), func() {
					for _, op := range p {
						r.do(i+1, op)
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			settle()
			r.algo.Stop()
			settle()
			leftBehind("at the end", len(vsched.Threads())-before, base, r.history())
			vsched.SetOutcome(r.notifications())
		},
	}
}

// leftoversPar counts the threads that live after a parallel computation.
func leftoversPar(size, degree, fails int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%d elements by %d tasks, task %d fails", size, degree, fails),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 4000},
		Body: func() {
			var before = len(vsched.Threads())
			func() {
				defer func() { _ = recover() }()
				core.Par(func(start, end, rank int) {
					vsched.Yield()
					if rank == fails {
						panic("failed")
					}
				}, size, degree)
			}()
			vsched.Sleep(time.Millisecond)
			leftBehind("after a parallel computation", len(vsched.Threads())-before, 0, "")
		},
	}
}

func regC32() {
	register(&Property{
		ID: "C32",
		Scenarios: func(thorough bool) (out []Scenario) {
			var depth = 4
			if thorough {
				depth = 5
			}
			for _, c := range leakConfs() {
				out = append(out, leftovers(c, depth, 1), leftovers(c, 1, 25), leftovers(c, 2, 10))
			}
			for i, c := range leakConfs()[:5] {
				for _, s := range setups {
					var most = 2
					if i != 1 && i != 2 || len(s) == 0 {
						most = 1
					}
					for _, p := range multisets([]string{"Play", "Pause", "Stop", "Push", "Init", "Batch", "WaitT", "Copy"}, 2) {
						out = append(out, leftoversConc(c, s, [][]string{{p[0]}, {p[1]}}, [2]int{1, most}))
					}
				}
			}
			for _, size := range []int{0, 1, 3, 5, 9, 40} {
				for _, degree := range []int{4, 5, 8, 9, 12} {
					for _, fails := range []int{-1, 0, degree - 1} {
						out = append(out, leftoversPar(size, degree, fails, [2]int{0, 0}))
					}
				}
			}
			for size := 0; size <= 4; size++ {
				for degree := 1; degree <= 3; degree++ {
					for fails := -1; fails < degree; fails++ {
						out = append(out, leftoversPar(size, degree, fails, [2]int{2, 3}))
					}
				}
			}
			return
		},
		Rule: "every sequence of operations up to the depth, parallel computations of up to 12 parts, and every schedule up to the deviation bound of two clients; threads are counted when nothing can move; words of 1 and 2 operations repeated 25 and 10 times",
	})
}

func init() { regC32() }
