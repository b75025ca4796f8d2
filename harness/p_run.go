package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/kmeans"
	"verif/harness/probe"
	"verif/vsched"
)

// atLeast is a finishing of a client: the number of iterations.
type atLeast struct{ n int }

func (a atLeast) IsFinished(m core.OCModel) bool { return probe.Iterations(m.RuntimeFigures()) >= a.n }

type panicking struct{ n int }

func (a panicking) IsFinished(m core.OCModel) bool {
	if probe.Iterations(m.RuntimeFigures()) >= a.n {
		panic("finishing panicked")
	}
	return false
}

// ---- C04 ------------------------------------------------------------------------

// accounting runs an algorithm under a configuration and checks when it iterates and
// when it stops doing so.
func accounting(iter, ipd, fin, nilEvery int, depth, times int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("iter %d, per data %d, finishing at %d, skipped every %d, %d operations%s", iter, ipd, fin, nilEvery, depth, repeated(times)),
		Max:  max,
		Opt:  wordOptions(times, 6000),
		Body: func() {
			var ctrl = core.CtrlConf{Iter: iter, IterPerData: ipd}
			if fin > 0 {
				ctrl.Finishing = atLeast{fin}
			}
			var m = &mock{nilEvery: nilEvery}
			var r = newRig(ctrl, m)
			var started, done = 0, 0 // pushes since the last initialization
			var doneAtEnd = 0        // pushes answered when the last iteration ended
			var need = func(n, p int) bool {
				// whether n iterations are not enough for p pushes
				var plain = (iter > 0 || ipd > 0) && n >= iter+p*ipd
				return !plain && !(fin > 0 && n >= fin)
			}
			m.onIter = func(m *mock, model core.OCModel) {
				// the condition is a disjunction that pushes can only make harder
				if !need(m.iters, started) {
					vsched.Fail("an iteration starts after %d iterations and %d pushed data", m.iters, started)
				}
				if n := probe.Iterations(model.RuntimeFigures()); n != m.iters {
					vsched.Fail("the model given to the implementation counts %d iterations, not %d", n, m.iters)
				}
				if c := model.Centroids(); m.iters > 0 && (len(c) != 1 || probe.Elemt(c[0])[0] != float64(m.iters)) {
					vsched.Fail("iteration %d starts from %v", m.iters+1, c)
				}
			}
			m.afterIter = func() { doneAtEnd = done }
			var op = word([]string{"Play", "Push", "Pause", "Stop", "Sleep", "Init"}, depth)
			for i := 0; i < depth*times; i++ {
				var op = op(i)
				if op == "Push" {
					started++
				}
				var inits = m.inits
				r.do(0, op)
				if op == "Push" {
					done++
				}
				if m.inits > inits {
					if inits > 0 { // a new life
						started, done, doneAtEnd = 0, 0, 0
					}
				}
				r.checkFigures(done)
			}
			settle()
			r.checkFigures(done)
			var st = r.algo.Status()
			if st.Value == core.Ready && st.Error == nil && r.ran() && need(m.iters, doneAtEnd) {
				vsched.Fail("the run ended after %d iterations with %d pushed data: %s", m.iters, doneAtEnd, r.historyOps())
			}
			if st.Value == core.Running && !need(m.iters, started) {
				vsched.Fail("still running after %d iterations with %d pushed data: %s", m.iters, started, r.historyOps())
			}
			r.do(0, "Stop")
			r.checkFigures(done)
			vsched.SetOutcome(fmt.Sprint(r.historyOps(), m.iters))
		},
	}
}

// ran tells whether the last notified life had a run.
func (r *rig) ran() (yes bool) {
	for _, s := range r.notif {
		switch s.Value {
		case core.Initializing:
			yes = false
		case core.Running:
			yes = true
		}
	}
	return
}

// checkFigures compares the figures with what the implementation did.
func (r *rig) checkFigures(pushed int) {
	var still = r.algo.Status().Value != core.Running
	var before = r.m.iters
	var f = probe.Figures(r.algo.RuntimeFigures())
	var c = r.algo.Centroids()
	var n = int(f[core.Iterations])
	if n > r.m.iters || n < before-1 || still && n != r.m.iters {
		vsched.Fail("%d iterations are counted and %d were done (%s)", n, r.m.iters, r.historyOps())
	}
	if int(f[core.PushedData]) != pushed {
		vsched.Fail("%v pushed data are counted and %d were pushed (%s)", f[core.PushedData], pushed, r.historyOps())
	}
	if n > 0 && f["mine"] != float64(n) {
		vsched.Fail("after iteration %d the figure of the implementation is %v", n, f["mine"])
	}
	if n > 0 {
		if v := int(probe.Elemt(c[0])[0]); v < n || v > r.m.iters {
			vsched.Fail("after iteration %d the centroids are those of iteration %d", n, v)
		}
	}
	if d := f[core.Duration]; d < 0 || d > float64(vsched.Clock()) {
		vsched.Fail("a duration of %v after %v", d, vsched.Clock())
	}
}

func regC04() {
	register(&Property{
		ID: "C04",
		Scenarios: func(thorough bool) (out []Scenario) {
			var d = 4
			if thorough {
				d = 5
			}
			out = append(out, manyIterations(300)...)
			out = append(out, giantRun("limits")...)
			for _, iter := range []int{0, 1, 2, 3} {
				for _, ipd := range []int{0, 1, 2} {
					for _, fin := range []int{0, 2} {
						for _, nilEvery := range []int{0, 2} {
							out = append(out, accounting(iter, ipd, fin, nilEvery, d, 1, [2]int{0, 0}))
							out = append(out, accounting(iter, ipd, fin, nilEvery, 1, 30, [2]int{0, 0}), accounting(iter, ipd, fin, nilEvery, 2, 12, [2]int{0, 0}))
							out = append(out, accounting(iter, ipd, fin, nilEvery, 3, 1, [2]int{1, 1}))
							if thorough {
								out = append(out, accounting(iter, ipd, fin, nilEvery, 3, 1, [2]int{-1, 2}))
							}
						}
					}
				}
			}
			return
		},
		Rule:   "every sequence of operations up to the stated depth under every combination of iteration limits; each iteration that starts, each end of a run and each reading of the figures is compared with the count of iterations and pushes; every limit up to 300, words repeated up to 30 times",
		Assume: []string{"iteration limits up to 3, up to 2 iterations per data, except in the sweeps"},
	})
}

// ---- C05 ------------------------------------------------------------------------

type fault struct {
	name  string
	conf  func(c *core.CtrlConf)
	mk    func() *mock
	err   string // reported error
	init  bool   // the initialization fails
	good  int    // iterations before the failure, -1: no centroids
	other bool   // one of many errors
}

func faults() []fault {
	var l = []fault{
		{name: "init error", mk: func() *mock { return &mock{initErr: 1} }, err: "init failed", init: true},
		{name: "init panic", mk: func() *mock { return &mock{initPanic: 1} }, err: "init panicked", init: true},
	}
	for n := 1; n <= 3; n++ {
		var n = n
		l = append(l,
			fault{name: fmt.Sprintf("error at iteration %d", n), mk: func() *mock { return &mock{failAt: n} }, err: "impl failed", good: n - 1},
			fault{name: fmt.Sprintf("panic at iteration %d", n), mk: func() *mock { return &mock{panicAt: n} }, err: "impl panicked", good: n - 1},
			fault{name: fmt.Sprintf("finishing panics at %d", n-1), mk: func() *mock { return &mock{} }, err: "finishing panicked", good: n - 1,
				conf: func(c *core.CtrlConf) { c.Finishing = panicking{n - 1} }},
		)
	}
	// whatever the error is
	for _, err := range []error{core.ErrTimeout, core.ErrAlreadyCreated, core.ErrRunning, core.ErrNotRunning, core.ErrIdle, core.ErrNotAlive, core.ErrNeverFinish,
		core.ErrFinished, core.ErrElapsedIter, core.ErrNotIterate, core.ErrInitializing, core.ErrSleeping, core.ErrNotIdle, core.ErrReconfiguring, errors.New("")} {
		var err = err
		l = append(l,
			fault{name: fmt.Sprintf("init error %q", err), mk: func() *mock { return &mock{initErr: 1, err: err} }, err: err.Error(), init: true, other: true},
			fault{name: fmt.Sprintf("error %q", err), mk: func() *mock { return &mock{failAt: 2, err: err} }, err: err.Error(), good: 1, other: true})
	}
	l = append(l,
		fault{name: "error without centroids", mk: func() *mock { return &mock{failAt: 1, noClust: true} }, err: "impl failed", good: -1},
		fault{name: "panic without centroids", mk: func() *mock { return &mock{panicAt: 1, noClust: true} }, err: "impl panicked", good: -1},
		fault{name: "panic after no centroids", mk: func() *mock { return &mock{panicAt: 2, nilEvery: 1, noClust: true} }, err: "impl panicked", good: -1},
		fault{name: "finishing panics without centroids", mk: func() *mock { return &mock{noClust: true} }, err: "finishing panicked", good: -1,
			conf: func(c *core.CtrlConf) { c.Finishing = panicking{0} }})
	return l
}

func containment(f fault, ops []string, depth int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, %d operations", f.name, depth),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 6000},
		Body: func() {
			var ctrl core.CtrlConf
			ctrl.Iter = 5
			if f.conf != nil {
				f.conf(&ctrl)
			}
			var m = f.mk()
			var r = newRig(ctrl, m)
			var isErr = func(err error) bool { return err != nil && err.Error() == f.err }
			var failed = func(when string) bool {
				var st = r.algo.Status()
				if st.Value != core.Finished || !isErr(st.Error) {
					vsched.Fail("%s: the status is %s", when, statusName(st))
					return false
				}
				return true
			}
			// the failure
			if f.init {
				var first = []string{"Init", "Play", "Batch"}[vsched.Choose(3, 0, "first")]
				if k := r.do(0, first); !isErr(k.err) {
					vsched.Fail("%s answers %v", first, k.err)
					return
				}
			} else {
				var first = []string{"Play", "Batch"}[vsched.Choose(2, 0, "first")]
				var k = r.do(0, first)
				if first == "Play" && k.err != nil {
					vsched.Fail("play answers %v", k.err)
				}
				var over = false
				if first == "Play" {
					k = r.do(0, "Wait")
					over = k.err == nil // it had failed already
				}
				if !isErr(k.err) && !over {
					vsched.Fail("the wait answers %v", k.err)
				}
			}
			if !failed("after the failure") {
				return
			}
			// what was found before the failure is still there
			var c = probe.Clust(r.algo.Centroids())
			switch {
			case f.init && len(c) != 0:
				vsched.Fail("an initialization failed and the centroids are %v", c)
			case f.good < 0 && len(c) != 0:
				vsched.Fail("there were no centroids and they are %v", c)
			case !f.init && f.good >= 0 && (len(c) != 1 || c[0][0] != float64(f.good)):
				vsched.Fail("%d iterations succeeded and the centroids are %v", f.good, c)
			}
			var done = f.good
			if done < 0 {
				done = 0
			}
			if !f.init && probe.Iterations(r.algo.RuntimeFigures()) != done {
				vsched.Fail("%d iterations succeeded and %d are counted", done, probe.Iterations(r.algo.RuntimeFigures()))
			}
			var e, l, _ = r.algo.Predict(vec(1))
			if none := f.init || f.good < 0; none != (l < 0) || none != (e == nil) {
				vsched.Fail("after the failure a prediction answers %v %d", e, l)
			}
			// the algorithm answers and can be started again
			for i := 0; i < depth; i++ {
				var op = ops[vsched.Choose(len(ops), 0, "op")]
				var was = r.algo.Status()
				var k = r.do(0, op)
				var bad = false
				switch op {
				case "Stop":
					bad = was.Value == core.Finished && !sameErr(k.err, core.ErrNotAlive)
				case "Pause":
					bad = was.Value == core.Finished && !sameErr(k.err, core.ErrNotRunning)
				case "Push", "Predict", "Figures", "Sleep":
					bad = k.err != nil
				case "Wait":
					bad = was.Value == core.Finished && k.err != nil || k.err != nil && !isErr(k.err) && k.err != core.ErrIdle && k.err != core.ErrNeverFinish
				case "Play", "Init":
					bad = was.Value == core.Finished && k.err != nil
				}
				if bad {
					vsched.Fail("after the failure and [%s], %s", r.historyOps(), k)
				}
				var now = r.algo.Status()
				if now.Error != nil && !isErr(now.Error) {
					vsched.Fail("after the failure and %s the status is %s", r.historyOps(), statusName(now))
				}
				if (op == "Stop" || op == "Pause" || op == "Predict" || op == "Push") && was.Value == core.Finished &&
					(now.Value != core.Finished || !sameErr(was.Error, now.Error)) {
					vsched.Fail("%s changes the status from %s to %s", op, statusName(was), statusName(now))
				}
			}
			settle()
			r.checkNotifications(r.algo.Status())
			r.algo.Stop()
			vsched.SetOutcome(r.history())
		},
	}
}

// brokenSpace fails for one element.
type brokenSpace struct{ line }

func (b brokenSpace) Dist(x, y core.Elemt) float64 {
	if x.([]float64)[0] == 13 || y.([]float64)[0] == 13 {
		panic("space panicked")
	}
	return b.line.Dist(x, y)
}

// broken data in a real algorithm, sequential or parallel
func brokenData(par bool, degree, at int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("k-means over data that cannot be compared, parallel %v of degree %d, pushed at %d", par, degree, at),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 8000},
		Body: func() {
			var conf = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 20, IterFreq: 10}, K: 2, NumCPU: degree, Par: par, RGen: newTape(nil)}
			var algo = kmeans.NewAlgo(conf, brokenSpace{}, []core.Elemt{vec(0), vec(1), vec(10), vec(11)}, kmeans.GivenInitializer)
			if at == 0 {
				algo.Push(vec(13))
			}
			if err := algo.Play(); err != nil {
				vsched.Fail("play answers %v", err)
				return
			}
			if at > 0 {
				vsched.Sleep(time.Duration(at) * 100 * time.Millisecond)
				algo.Push(vec(13))
			}
			var err = algo.Wait(nil, 0)
			var st = algo.Status()
			if st.Value != core.Finished || st.Error == nil || !strings.Contains(st.Error.Error(), "space panicked") || err != nil && !sameErr(err, st.Error) {
				vsched.Fail("the wait answers %v and the status is %s", err, statusName(st))
			}
			if len(algo.Centroids()) != 2 {
				vsched.Fail("the centroids are %v", algo.Centroids())
			}
			if err = algo.Stop(); err != core.ErrNotAlive {
				vsched.Fail("stop answers %v", err)
			}
		},
	}
}

func regC05() {
	register(&Property{
		ID: "C05",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Play", "Init", "Stop", "Pause", "Push", "Wait", "Predict", "Sleep"}
			var d = 3
			if thorough {
				d = 4
			}
			out = append(out, lateFailures(60)...)
			out = append(out, boundedWaits())
			for _, f := range faults() {
				if f.other {
					out = append(out, containment(f, ops, d-2, [2]int{0, 0}))
					continue
				}
				out = append(out, containment(f, ops, d, [2]int{0, 0}), containment(f, ops, 1, [2]int{1, 2}))
				// a failure at the same time as a command
				for _, s := range setups {
					for _, p := range multisets([]string{"Play", "Pause", "Stop", "Init", "WaitT"}, 2) {
						var f = f
						var v = variant{name: f.name, mk: f.mk}
						if f.conf != nil {
							f.conf(&v.ctrl)
						}
						v.spec = specConf{fails: strings.Contains(f.name, "error at"), panics: strings.Contains(f.name, "panic at")}
						if f.init || f.good < 0 || strings.Contains(f.name, "finishing") {
							continue
						}
						out = append(out, concurrent{v: v, setup: s, progs: threads(p), check: linearizes(v.spec), max: [2]int{1, 2}}.scenario())
					}
				}
			}
			for at := 0; at < 3; at++ {
				out = append(out, brokenData(false, 3, at, [2]int{1, 2}))
				for _, degree := range []int{3, 1, 2, 8} {
					var max = [2]int{1, 2}
					if degree != 3 {
						max = [2]int{0, 1}
					}
					out = append(out, brokenData(true, degree, at, max))
				}
			}
			// a push that fails changes nothing
			for _, s := range setups {
				var v = variant{name: "push fails", mk: func() *mock { return &mock{pushErr: true} }, ctrl: core.CtrlConf{DataPerIter: 1}}
				out = append(out, concurrent{v: v, setup: s, progs: [][]string{{"Push", "Push", "Push"}, {"Status"}}, max: [2]int{1, 2},
					check: func(r *rig, init sst, last core.OCStatus) {
						for _, c := range r.hist {
							if c.op == "Push" && c.err != errPush {
								vsched.Fail("a push that fails answers %v", c.err)
							}
						}
						if f := r.algo.RuntimeFigures(); f[core.PushedData] != 0 {
							vsched.Fail("pushes failed and %v are counted", f[core.PushedData])
						}
						var before = r.hist[len(r.hist)-1]
						_ = before
						if !linearOK(r, specConf{}) {
							vsched.Fail("pushes that fail changed the status: %s", r.historyThreads())
						}
					}}.scenario())
			}
			return
		},
		Rule:   "every failure point (initialization, each iteration, finishing condition; error or panic; sequential or parallel work) followed by every sequence of operations up to the stated depth, and together with concurrent commands; failures at every iteration up to 60, up to 60 failing initializations; every error that the core exports; algorithms without centroids",
		Assume: []string{"failures in the first three iterations, except in the sweeps"},
	})
}

func linearOK(r *rig, c specConf) bool { return c.linearizable(r.hist, sst{v: core.Created}) }

// ---- C06 ------------------------------------------------------------------------

const runTimeout = 350 * time.Millisecond

// timeouts runs sequences of commands on an algorithm with a timeout, and predicts the
// status at every moment from the dates of the commands.
func timeouts(iter int, iterTime time.Duration, ops []string, depth, times int, max [2]int) Scenario {
	return failingTimeouts(iter, iterTime, 0, ops, depth, times, max)
}

// failingTimeouts is the same with iterations that fail, from some rank on.
func failingTimeouts(iter int, iterTime time.Duration, failing int, ops []string, depth, times int, max [2]int) Scenario {
	var what = ""
	if failing > 0 {
		what = fmt.Sprintf(", failing at the %dth", failing)
	}
	return Scenario{
		Name: fmt.Sprintf("timeout, %d iterations of %v%s, %d operations%s of %s", iter, iterTime, what, depth, repeated(times), strings.Join(ops, " ")),
		Max:  max,
		Opt:  wordOptions(times, 8000),
		Body: func() {
			var m = &mock{}
			m.onIter = func(m *mock, model core.OCModel) { vsched.Sleep(iterTime) }
			m.failAt = failing
			var r = newRig(core.CtrlConf{Iter: iter, Timeout: runTimeout}, m)
			// date of the start of the current run, and whether it is alive
			var start, startTo = time.Duration(-1), time.Duration(-1)
			var op = word(ops, depth)
			for i := 0; i < depth*times; i++ {
				var op = op(i)
				var was, lives = r.algo.Status().Value, m.inits
				var k = r.do(0, op)
				if op == "Play" && k.err == nil && (was != core.Idle || m.inits > lives) { // it may time out just before
					start, startTo = k.start, k.end
				}
				if op == "Stop" && k.err == nil || op == "Init" && k.err == nil {
					start, startTo = -1, -1
				}
				if !r.timely(&start, startTo, iterTime) {
					return
				}
			}
			for i := 0; i < 12; i++ {
				vsched.Sleep(100 * time.Millisecond)
				if !r.timely(&start, startTo, iterTime) {
					return
				}
			}
			r.do(0, "Stop")
			vsched.SetOutcome(r.history())
		},
	}
}

func (r *rig) timely(from *time.Duration, startTo, iterTime time.Duration) bool {
	var st = r.algo.Status()
	var now, start = vsched.Clock(), *from
	if (st.Value == core.Ready || st.Error != nil && st.Error != core.ErrTimeout) && now < start+runTimeout {
		*from = -1 // over before its timeout
	}
	if st.Error != nil && st.Error != core.ErrTimeout && r.m.failAt == 0 {
		vsched.Fail("status %s after %s", statusName(st), r.historyOps())
		return false
	}
	if st.Error == core.ErrTimeout && (start < 0 || now < start+runTimeout) {
		vsched.Fail("at %v a run that began at %v has timed out: %s", now, start, r.historyOps())
		return false
	}
	if start >= 0 && st.Value.String() != "Finished" && st.Value != core.Ready && now > startTo+runTimeout+iterTime+200*time.Millisecond {
		vsched.Fail("at %v a run that began at %v is still %s: %s", now, start, statusName(st), r.historyOps())
		return false
	}
	return true
}

func waits(iter int, iterTime time.Duration, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("bounded waits, %d iterations of %v", iter, iterTime),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 12000},
		Body: func() {
			var m = &mock{}
			m.onIter = func(m *mock, model core.OCModel) { vsched.Sleep(iterTime) }
			var r = newRig(core.CtrlConf{Iter: iter}, m)
			r.algo.Play()
			var from = vsched.Clock()
			var d = []time.Duration{0, 50, 100, 250, 1000, 5000}[vsched.Choose(6, 0, "duration")] * time.Millisecond
			var fin core.Finishing
			var n = vsched.Choose(4, 0, "finishing")
			if n > 0 {
				fin = atLeast{n}
			}
			// a command of another client while waiting
			var cmd = []string{"", "Pause", "Stop"}[vsched.Choose(3, 0, "command")]
			var cmdAt = time.Duration(-1)
			var t = vsched.GoNamed("aside", func() {
				if cmd != "" {
					vsched.Sleep(180 * time.Millisecond)
					r.do(1, cmd)
					cmdAt = vsched.Clock()
				}
			})
			if d == 0 && iter == 0 && n == 0 {
				if err := r.algo.Wait(fin, d); err != core.ErrNeverFinish {
					vsched.Fail("waiting for ever answers %v", err)
				}
				t.Join()
				r.algo.Stop()
				return
			}
			if d == 0 && n > 0 && cmd != "" {
				t.Join() // may wait for ever: nothing to say
				r.algo.Stop()
				return
			}
			if d == 0 && n > 0 && (iter > 0 && n > iter) {
				t.Join()
				r.algo.Stop()
				return
			}
			var err = r.algo.Wait(fin, d)
			var took = vsched.Clock() - from
			const slack = 210 * time.Millisecond
			var st = r.algo.Status()
			switch {
			case err == core.ErrTimeout:
				if d <= 0 || took < d {
					vsched.Fail("a wait of %v timed out after %v", d, took)
				}
				if n == 0 && took > 0 && iter > 0 && time.Duration(iter)*iterTime+slack+100*time.Millisecond < d && cmd == "" {
					vsched.Fail("a wait of %v timed out and the run lasts %v", d, time.Duration(iter)*iterTime)
				}
				if n > 0 && (iter == 0 || n <= iter) && time.Duration(n)*iterTime+slack+100*time.Millisecond < d && cmd == "" {
					vsched.Fail("a wait of %v timed out and its condition is true after %v", d, time.Duration(n)*iterTime)
				}
			case err == nil:
				if n > 0 && m.iters < n {
					vsched.Fail("the wait ended before its condition, after %d iterations", m.iters)
				}
				if n == 0 && st.Value == core.Running {
					vsched.Fail("the wait ended while the run goes on")
				}
			default:
				if err != core.ErrIdle {
					vsched.Fail("the wait answers %v", err)
				}
			}
			if d > 0 && took > d+slack {
				vsched.Fail("a wait of %v lasted %v", d, took)
			}
			t.Join()
			_ = cmdAt
			r.algo.Stop()
			vsched.SetOutcome(fmt.Sprint(d, n, cmd, err))
		},
	}
}

func regC06() {
	register(&Property{
		ID: "C06",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Play", "Pause", "Stop", "Sleep", "Init"}
			var d = 6
			if thorough {
				d = 7
			}
			out = append(out, manyTimeouts(), exactTimeouts())
			for _, failing := range []int{1, 2, 3, 4, 6} {
				out = append(out, failingTimeouts(0, 40*time.Millisecond, failing, ops, 5, 1, [2]int{0, 0}))
			}
			for _, it := range []time.Duration{0, 40 * time.Millisecond, 120 * time.Millisecond} {
				out = append(out, timeouts(0, it, ops, d, 1, [2]int{0, 0}), timeouts(0, it, ops, 2, 12, [2]int{0, 0}), timeouts(0, it, ops, 3, 6, [2]int{0, 0}))
				out = append(out, timeouts(2, it, ops, d, 1, [2]int{0, 0}), timeouts(2, it, ops, 2, 12, [2]int{0, 0}), timeouts(2, it, ops, 3, 6, [2]int{0, 0}))
				out = append(out, timeouts(0, it, ops, 4, 1, [2]int{1, 1}))
				out = append(out, timeouts(2, it, ops, 4, 1, [2]int{1, 1}))
				for _, iter := range []int{0, 1, 3} {
					if it > 0 {
						out = append(out, waits(iter, it, [2]int{0, 1}))
					}
				}
			}
			if thorough {
				for _, it := range []time.Duration{0, 120 * time.Millisecond} {
					out = append(out, timeouts(0, it, ops, 3, 1, [2]int{-1, 2}))
				}
			}
			return
		},
		Rule:   "every sequence of commands and delays up to the stated depth under a virtual clock; the dates of the commands predict when a run has to time out and when it must not; timeouts from a nanosecond to a week, words repeated up to 12 times",
		Assume: []string{"the virtual clock only moves when every thread is waiting; 200 ms of slack"},
	})
}

// ---- C12 ------------------------------------------------------------------------

func autoPlay(dpi, iter int, depth, times int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("started by %d data, %d iterations, %d operations%s", dpi, iter, depth, repeated(times)),
		Max:  max,
		Opt:  wordOptions(times, 6000),
		Body: func() {
			var m = &mock{onIter: func(*mock, core.OCModel) { vsched.Sleep(40 * time.Millisecond) }}
			var r = newRig(core.CtrlConf{Iter: iter, DataPerIter: dpi}, m)
			var starts = func() (n int) {
				for _, s := range r.notif {
					if s.Value == core.Running {
						n++
					}
				}
				return
			}
			var counted = 0 // successful pushes since it last started by itself
			var op = word([]string{"Push", "Init", "Play", "Pause", "Stop", "Settle", "Push that fails"}, depth)
			for i := 0; i < depth*times; i++ {
				var op = op(i)
				vsched.Sleep(300 * time.Millisecond) // statuses are stable
				vsched.Sleep(300 * time.Millisecond)
				var was = r.algo.Status().Value
				var before = starts()
				var k call
				if op == "Push that fails" {
					m.pushErr = true
					k = r.do(0, "Push")
					m.pushErr = false
					r.nPush-- // refused
					if k.err != errPush {
						vsched.Fail("a push that fails answers %v: %s", k.err, r.historyOps())
					}
				} else {
					k = r.do(0, op)
				}
				var now = r.algo.Status()
				vsched.Sleep(300 * time.Millisecond)
				vsched.Sleep(300 * time.Millisecond)
				var began = starts() - before
				var due = op == "Push" && k.err == nil && was == core.Ready && dpi > 0 && counted >= dpi
				switch {
				case op == "Play":
				case due && now.Value != core.Running:
					vsched.Fail("a push that follows %d other ones returns in status %s: %s", counted, statusName(now), r.historyOps())
				case due && began != 1:
					vsched.Fail("a push that follows %d other ones starts %d runs: %s", counted, began, r.historyOps())
				case !due && began > 0:
					vsched.Fail("%s starts a run from %s, %d data before: %s", op, was, counted, r.historyOps())
				}
				if due {
					counted = 0
				} else if op == "Push" && k.err == nil {
					counted++
				}
			}
			if n := len(m.pushed); n != r.nPush {
				vsched.Fail("%d data reached the implementation of %d", n, r.nPush)
			}
			r.do(0, "Stop")
			vsched.SetOutcome(r.historyOps())
		},
	}
}

// concurrent pushes start at most one run at a time and lose no data
func autoPlayConc(dpi, iter, pushers, each int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("started by %d data, %d iterations, %d clients push %d", dpi, iter, pushers, each),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 8000},
		Body: func() {
			var m = &mock{}
			var r = newRig(core.CtrlConf{Iter: iter, DataPerIter: dpi}, m)
			r.do(0, "Init")
			var ts []vsched.Thread
			for i := 0; i < pushers; i++ {
				ts = append(ts, vsched.GoNamed(fmt.Sprint("pusher", i), func() {
					for j := 0; j < each; j++ {
						if k := r.do(i+1, "Push"); k.err != nil {
							vsched.Fail("a push answers %v", k.err)
						}
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			settle()
			var n = 0
			for _, s := range r.notif {
				if s.Value == core.Running {
					n++
				}
			}
			if n*(dpi+1) > pushers*each || dpi == 0 && n > 0 {
				vsched.Fail("%d pushed data started %d runs", pushers*each, n)
			}
			if dpi > 0 && pushers*each > dpi && n == 0 {
				vsched.Fail("%d pushed data started no run", pushers*each)
			}
			if m := chain(r.notif); m != "" {
				vsched.Fail("%s (%s)", m, r.notifications())
			}
			if len(m.pushed) != pushers*each || r.algo.RuntimeFigures()[core.PushedData] != float64(pushers*each) {
				vsched.Fail("%d data were pushed, %d arrived, %v counted", pushers*each, len(m.pushed), r.algo.RuntimeFigures()[core.PushedData])
			}
			r.do(0, "Stop")
			vsched.SetOutcome(r.notifications())
		},
	}
}

func regC12() {
	register(&Property{
		ID: "C12",
		Scenarios: func(thorough bool) (out []Scenario) {
			var d = 5
			if thorough {
				d = 7
			}
			out = append(out, giantLimits(), dataInAnyState(7))
			out = append(out, manyData(map[bool]int{false: 40, true: 100}[thorough]))
			for _, dpi := range []int{0, 1, 2, 3} {
				for _, iter := range []int{1, 2} {
					out = append(out, autoPlay(dpi, iter, d, 1, [2]int{0, 0}))
					out = append(out, autoPlay(dpi, iter, 2, 10, [2]int{0, 0}), autoPlay(dpi, iter, 3, 6, [2]int{0, 0}))
					out = append(out, autoPlayConc(dpi, iter, 2, 2, [2]int{2, 3}), autoPlayConc(dpi, iter, 2, 3, [2]int{1, 2}), autoPlayConc(dpi, iter, 3, 2, [2]int{1, 2}))
				}
			}
			return
		},
		Rule:   "every sequence of operations up to the stated depth for limits 0 to 3, concurrent pushes from a ready algorithm; every limit up to 40 (100), words repeated up to 10 times",
		Assume: []string{"the run starts at the push that follows n others, as the code does: a minimum of n data before iterating"},
	})
}

// ---- C13 ------------------------------------------------------------------------

func frequency(freq float64, depth int, nilEvery int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("at most %v iterations per second, skipped every %d, %d choices", freq, nilEvery, depth),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 8000},
		Body: func() {
			var period = time.Duration(float64(time.Second) / freq)
			var times = []time.Duration{0, period / 2, period * 3 / 2, period * 3}
			var m = &mock{nilEvery: nilEvery}
			var last, lastEnd = time.Duration(-1), time.Duration(-1)
			var paused = false
			var left = depth
			m.onIter = func(m *mock, model core.OCModel) {
				var now = vsched.Clock()
				if last >= 0 && now-last < period {
					vsched.Fail("two iterations start within %v, the period is %v", now-last, period)
				}
				// nothing but the period holds an iteration back
				if last >= 0 && !paused {
					var due = last + period
					if lastEnd > due {
						due = lastEnd
					}
					if now > due+period {
						vsched.Fail("an iteration starts at %v, due at %v", now, due)
					}
				}
				paused = false
				last = now
				if left > 0 {
					left--
					vsched.Sleep(times[vsched.Choose(len(times), 0, "duration of the iteration")])
				}
			}
			m.afterIter = func() { lastEnd = vsched.Clock() }
			var r = newRig(core.CtrlConf{IterFreq: freq, Iter: depth + 4}, m)
			r.do(0, "Play")
			switch vsched.Choose(3, 0, "pause") {
			case 1:
				vsched.Sleep(period * 5 / 4)
				paused = true
				r.do(0, "Pause")
				vsched.Sleep(period / 4)
				paused = true
				r.do(0, "Play")
			case 2:
				paused = true
				r.do(0, "Pause")
				paused = true
				vsched.Sleep(period * 2)
				r.do(0, "Play")
			}
			vsched.Sleep(period * 30)
			if st := r.algo.Status(); st.Value != core.Ready {
				vsched.Fail("after %v only %d iterations were done", period*30, m.iters)
			}
			if fin := float64(m.calls-1) / freq; vsched.Clock().Seconds() < fin*0.999 {
				vsched.Fail("%d iterations in %v", m.calls, vsched.Clock())
			}
			r.do(0, "Stop")
			vsched.SetOutcome(fmt.Sprint(m.starts))
		},
	}
}

func regC13() {
	register(&Property{
		ID: "C13",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, manyFrequencies(map[bool]int{false: 30, true: 80}[thorough])...)
			out = append(out, longFrequencies())
			for _, f := range []float64{0.5, 1, 3, 5, 7, 20} {
				for _, nilEvery := range []int{0, 2} {
					out = append(out, frequency(f, 4, nilEvery, [2]int{0, 0}), frequency(f, 2, nilEvery, [2]int{1, 2}))
					if thorough {
						out = append(out, frequency(f, 6, nilEvery, [2]int{-1, 0}))
					}
				}
			}
			return
		},
		Rule:   "every combination of iteration durations (instantaneous, shorter, longer and much longer than the period) with and without a pause, under a virtual clock; 13 frequencies from 0.001 to a million along 30 (80) iterations with a pause at many of them",
		Assume: []string{"the virtual clock only moves when every thread is waiting"},
	})
}

var _ = errors.New
var _ = math.Inf

func init() {
	regC04()
	regC05()
	regC06()
	regC12()
	regC13()
}
