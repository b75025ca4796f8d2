package main

import (
	"fmt"
	"math"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// Long histories and large limits: the scenarios below take every value of a parameter up to
// bounds far beyond those of the exhaustive histories, along a few deterministic histories.

// word chooses the first operations of a history, which are then repeated.
func word(ops []string, depth int) func(i int) string {
	var chosen []string
	return func(i int) string {
		if i < depth {
			chosen = append(chosen, ops[vsched.Choose(len(ops), 0, "op")])
		}
		return chosen[i%depth]
	}
}

func repeated(times int) string {
	if times == 1 {
		return ""
	}
	return fmt.Sprintf(" repeated %d times", times)
}

// wordOptions are those of histories that are repeated, where cases of selects are deviations.
func wordOptions(times, steps int) vsched.Options {
	var opt = vsched.Options{MaxSteps: steps * times}
	if times > 1 {
		opt.SelectCost = 1
	}
	return opt
}

// sweepSteps is the horizon of a sweep, far beyond what one takes.
const sweepSteps = 1 << 22

func long(name string, body func()) Scenario {
	return Scenario{Name: name, Opt: vsched.Options{MaxSteps: sweepSteps, SelectCost: 1}, Body: body}
}

// C04
func manyIterations(most int) (out []Scenario) {
	var check = func(r *rig, want int, what string) bool {
		var n = probe.Iterations(r.algo.RuntimeFigures())
		var c = r.algo.Centroids()
		if r.m.iters != want || n != want || len(c) != 1 || probe.Elemt(c[0])[0] != float64(want) {
			vsched.Fail("%s: %d iterations were done, %d are counted, the centroids are %v", what, r.m.iters, n, c)
			return false
		}
		return true
	}
	out = append(out, long(fmt.Sprintf("every limit up to %d iterations", most), func() {
		for iter := 1; iter <= most; iter++ {
			Eval(1)
			var r = newRig(core.CtrlConf{Iter: iter}, &mock{noYield: true})
			for life := 1; life <= 2; life++ {
				if err := r.algo.Batch(); err != nil {
					vsched.Fail("%v", err)
				}
				if !check(r, iter, fmt.Sprintf("limit %d, life %d", iter, life)) {
					return
				}
				r.algo.Stop()
			}
		}
	}))
	out = append(out, long(fmt.Sprintf("up to %d pushed data, up to 7 iterations for each", most/4), func() {
		for ipd := 1; ipd <= 7; ipd++ {
			for iter := 0; iter <= 2; iter++ {
				for n := 0; n <= most/4; n += 1 + n/8 {
					Eval(1)
					var r = newRig(core.CtrlConf{Iter: iter, IterPerData: ipd}, &mock{noYield: true})
					var what = fmt.Sprintf("%d iterations, %d per data, %d data", iter, ipd, n)
					if err := r.algo.Init(); err != nil {
						vsched.Fail("%v", err)
					}
					for i := 0; i < n; i++ {
						r.algo.Push(vec(1))
					}
					if err := r.algo.Play(); err != nil {
						vsched.Fail("%v", err)
					}
					r.algo.Wait(nil, 0)
					if !check(r, iter+ipd*n, what) {
						return
					}
					// and some more
					for i := 0; i < 3; i++ {
						r.algo.Push(vec(1))
					}
					if err := r.algo.Play(); err != nil {
						vsched.Fail("%v", err)
					}
					r.algo.Wait(nil, 0)
					if !check(r, iter+ipd*(n+3), what+", then 3") {
						return
					}
					r.algo.Stop()
				}
			}
		}
	}))
	out = append(out, long("paused after every iteration, for up to 60 iterations", func() {
		for iter := 1; iter <= 60; iter++ {
			Eval(1)
			var m = &mock{onIter: func(*mock, core.OCModel) { vsched.Sleep(100 * time.Millisecond) }}
			var r = newRig(core.CtrlConf{Iter: iter}, m)
			for r.algo.Status().Value != core.Ready || m.iters == 0 {
				if err := r.algo.Play(); err != nil {
					vsched.Fail("play answers %v after %d iterations of %d", err, m.iters, iter)
					return
				}
				vsched.Sleep(50 * time.Millisecond)
				r.algo.Pause()
				vsched.Sleep(150 * time.Millisecond)
				var st = r.algo.Status().Value
				if m.iters > iter || m.iters < iter && st != core.Idle {
					vsched.Fail("%s after %d iterations of %d", st, m.iters, iter)
					return
				}
				if st == core.Idle && m.iters == iter { // the end of the run is seen when it goes on
					r.algo.Play()
					r.algo.Wait(nil, 0)
				}
			}
			if !check(r, iter, fmt.Sprintf("limit %d, pauses", iter)) {
				return
			}
			r.algo.Stop()
		}
	}))
	return
}

// C05
func lateFailures(most int) (out []Scenario) {
	for _, kind := range []string{"error", "panic", "finishing"} {
		var kind = kind
		out = append(out, long(fmt.Sprintf("%s at every iteration up to %d, in three lives", kind, most), func() {
			for n := 1; n <= most; n++ {
				Eval(1)
				var ctrl = core.CtrlConf{Iter: most + 1}
				var m = &mock{noYield: true}
				var want = "impl failed"
				switch kind {
				case "error":
					m.failAt = n
				case "panic":
					m.panicAt, want = n, "impl panicked"
				default:
					ctrl.Finishing, want = panicking{n - 1}, "finishing panicked"
				}
				var r = newRig(ctrl, m)
				for life := 1; life <= 3; life++ {
					var err = r.algo.Play()
					if err != nil {
						vsched.Fail("play answers %v in life %d", err, life)
						return
					}
					vsched.Sleep(time.Second)
					var st = r.algo.Status()
					var c = r.algo.Centroids()
					if st.Value != core.Finished || st.Error == nil || st.Error.Error() != want {
						vsched.Fail("%s at %d, life %d: the status is %s", kind, n, life, statusName(st))
						return
					}
					if got := probe.Iterations(r.algo.RuntimeFigures()); len(c) != 1 || probe.Elemt(c[0])[0] != float64(n-1) || got != n-1 {
						vsched.Fail("%s at %d, life %d: the centroids are %v, %d iterations are counted", kind, n, life, c, got)
						return
					}
				}
				// healed
				m.failAt, m.panicAt = 0, 0
				if kind != "finishing" {
					if err := r.algo.Batch(); err != nil || m.iters != most+1 {
						vsched.Fail("%s at %d: the life after answers %v after %d iterations", kind, n, err, m.iters)
						return
					}
				}
				r.algo.Stop()
			}
		}))
	}
	out = append(out, long(fmt.Sprintf("up to %d initializations that fail, then one that does not", most), func() {
		for n := 1; n <= most; n++ {
			for _, panics := range []bool{false, true} {
				Eval(1)
				var m = &mock{noYield: true}
				if panics {
					m.initPanic = n
				} else {
					m.initErr = n
				}
				var r = newRig(core.CtrlConf{Iter: 2}, m)
				for i := 1; i <= n+1; i++ {
					var op = []string{"Play", "Init", "Batch"}[i%3]
					var k = r.do(0, op)
					if (k.err != nil) != (i <= n) {
						vsched.Fail("initialization %d of which %d fail: %s", i, n, k)
						return
					}
					if st := r.algo.Status(); i <= n && (st.Value != core.Finished || st.Error == nil || k.err.Error() != st.Error.Error()) {
						vsched.Fail("initialization %d of which %d fail: %s, status %s", i, n, k, statusName(st))
						return
					}
				}
				r.algo.Stop()
			}
		}
	}))
	return
}

// C06
func manyTimeouts() Scenario {
	const ms = time.Millisecond
	return long("timeouts from a millisecond to a week, of each of three runs, with and without pauses", func() {
		for _, limit := range []time.Duration{1, ms, 10 * ms, 99 * ms, 100 * ms, 101 * ms, 333 * ms, 999 * ms, time.Second, 1500 * ms, 2700 * ms, 59*time.Second + 999*ms, 90 * time.Second, 61*time.Minute + 7*time.Second + 777*ms, time.Hour, 25 * time.Hour, 7 * 24 * time.Hour} {
			for _, part := range []time.Duration{3, 10, 37} {
				for _, pause := range []int{0, 1, 2} {
					Eval(1)
					var iterTime = limit/part + 1
					var m = &mock{onIter: func(*mock, core.OCModel) { vsched.Sleep(iterTime) }}
					var r = newRig(core.CtrlConf{Timeout: limit}, m)
					for run := 1; run <= 3; run++ {
						var what = fmt.Sprintf("timeout of %v, iterations of %v, %d pauses, run %d", limit, iterTime, pause, run)
						if err := r.algo.Play(); err != nil {
							vsched.Fail("%s: play answers %v", what, err)
							return
						}
						var start = vsched.Clock()
						for i := 0; i < pause; i++ {
							vsched.Sleep(limit / 10)
							if err := r.algo.Pause(); err != nil && limit > 500*ms {
								vsched.Fail("%s: pause answers %v", what, err)
								return
							}
							vsched.Sleep(limit / 10)
							r.algo.Play()
						}
						// not before
						if rest := start + limit - vsched.Clock() - limit/8; rest > 0 {
							vsched.Sleep(rest)
							if st := r.algo.Status(); st.Value == core.Finished && limit > ms && vsched.Clock() < start+limit {
								vsched.Fail("%s: the status is %s after %v", what, statusName(st), vsched.Clock()-start)
								return
							}
						}
						// not after
						vsched.Sleep(start + limit + iterTime + 400*ms - vsched.Clock())
						if st := r.algo.Status(); limit > 500*ms && (st.Value != core.Finished || st.Error != core.ErrTimeout) {
							vsched.Fail("%s: the status is %s after %v", what, statusName(st), vsched.Clock()-start)
							return
						}
						if run == 2 { // a life without a timeout in between
							r.algo.Init()
							r.algo.Play()
							vsched.Sleep(limit / 2)
						}
						r.algo.Stop()
					}
				}
			}
		}
	})
}

// C07
func longStories(most int) (out []Scenario) {
	var all []int
	for n := 1; n <= most; n++ {
		all = append(all, n)
	}
	return []Scenario{lateCallback(fmt.Sprintf("by up to %d statuses", most), all)}
}

// lateCallback gives commands while a callback does not return.
func lateCallback(what string, counts []int) Scenario {
	return long("a callback that is late "+what, func() {
		for _, late := range counts {
			Eval(1)
			var r = newRig(core.CtrlConf{}, &mock{onIter: func(*mock, core.OCModel) { vsched.Sleep(10 * time.Millisecond) }})
			var free = false
			r.on = func(r *rig, oc core.OnlineClust, s core.OCStatus) {
				for !free {
					vsched.Sleep(time.Second)
				}
			}
			var begin = vsched.Clock()
			var words = [][]string{{"Play", "Pause"}, {"Play", "Stop"}, {"Play", "Pause", "Play", "Stop"}, {"Init", "Play", "Stop"}}[late%4]
			for i := 0; i < late; i++ {
				r.do(0, words[i%len(words)])
			}
			if took := vsched.Clock() - begin; took > time.Duration(late+1)*300*time.Millisecond {
				vsched.Fail("%d commands take %v when the callback is slow", late, took)
				return
			}
			free = true
			vsched.Sleep(3 * time.Second)
			r.checkNotifications(r.algo.Status())
			if vsched.Failed() {
				return
			}
			r.algo.Stop()
		}
	})
}

// C12
func manyData(most int) Scenario {
	return long(fmt.Sprintf("started by up to %d data", most), func() {
		for dpi := 1; dpi <= most; dpi++ {
			for _, iter := range []int{1, 2, 3} {
				for _, restart := range []bool{false, true} {
					Eval(1)
					var m = &mock{noYield: true}
					var r = newRig(core.CtrlConf{Iter: iter, DataPerIter: dpi}, m)
					r.algo.Init()
					var runs, counted = 0, 0
					for i := 0; i < 4*(dpi+1)+dpi/2; i++ {
						if err := r.algo.Push(vec(1)); err != nil {
							vsched.Fail("a push answers %v", err)
						}
						var due = counted >= dpi
						counted++
						if due {
							runs, counted = runs+1, 0
						}
						vsched.Sleep(500 * time.Millisecond)
						var n = 0
						for _, s := range r.notif {
							if s.Value == core.Running {
								n++
							}
						}
						if n != runs {
							vsched.Fail("started by %d data, %d iterations: %d runs after %d data (restarted %v), not %d", dpi, iter, n, i+1, restart, runs)
							return
						}
						if restart && i == 2*(dpi+1)+dpi/2 { // the count goes on in the next life
							r.algo.Stop()
							r.algo.Init()
						}
					}
					r.algo.Stop()
				}
			}
		}
	})
}

// C13
func manyFrequencies(iterations int) (out []Scenario) {
	for _, freq := range []float64{0.001, 0.03, 0.9, 1.7, 12, 33, 60, 144, 500, 1000, 1500, 44100, 1e6} {
		var freq = freq
		out = append(out, long(fmt.Sprintf("%d iterations, at most %v per second, with a pause after every one", iterations, freq), func() {
			var period = time.Duration(float64(time.Second) / freq)
			for seed := 0; seed < 6; seed++ {
				for pause := 0; pause <= iterations; pause += 1 + pause/4 {
					Eval(1)
					var last, due = time.Duration(-1), time.Duration(0)
					var m = &mock{noYield: true}
					var held, reached = false, false
					m.onIter = func(m *mock, model core.OCModel) {
						var now = vsched.Clock()
						if last >= 0 && now-last < period-1 {
							vsched.Fail("iterations %d and %d start within %v, the period is %v (pattern %d, pause after %d)", m.calls-1, m.calls, now-last, period, seed, pause)
						}
						if last >= 0 && !held && now > due+period {
							vsched.Fail("iteration %d starts at %v, due at %v, the period is %v (pattern %d, pause after %d)", m.calls, now, due, period, seed, pause)
						}
						last, held = now, false
						if m.calls == pause {
							reached = true
						}
						vsched.Sleep(period * time.Duration([]int{0, 1, 1, 3, 9, 0}[(m.calls*seed+m.calls/3)%6]) / 2)
						due = last + period
						if end := vsched.Clock(); end > due {
							due = end
						}
					}
					var r = newRig(core.CtrlConf{IterFreq: freq, Iter: iterations}, m)
					if err := r.algo.Play(); err != nil {
						vsched.Fail("play answers %v", err)
					}
					if pause > 0 {
						for !reached && r.algo.Status().Value == core.Running {
							vsched.Sleep(period)
						}
						held = true
						if r.algo.Pause() == nil {
							held = true
							vsched.Sleep(period / 8)
							r.algo.Play()
							held = true
						}
					}
					for i := 0; i < 20*iterations && r.algo.Status().Value == core.Running; i++ {
						vsched.Sleep(period)
					}
					if vsched.Failed() {
						return
					}
					if m.calls != iterations {
						vsched.Fail("%d iterations instead of %d (pause after %d)", m.calls, iterations, pause)
						return
					}
					r.algo.Stop()
				}
			}
		}))
	}
	return
}

// C08
func manyStops(most int) Scenario {
	return long(fmt.Sprintf("up to %d pauses in a run, elements pushed while it is idle", most), func() {
		for n := 1; n <= most; n += 1 + n/10 {
			for _, end := range []string{"Pause", "Stop"} {
				Eval(1)
				var m = &mock{}
				var still = false
				m.onIter = func(m *mock, model core.OCModel) {
					if still {
						vsched.Fail("an iteration starts after the answer to a command (%d pauses)", n)
					}
					vsched.Sleep(30 * time.Millisecond)
				}
				var r = newRig(core.CtrlConf{}, m)
				for i := 1; i <= n; i++ {
					if err := r.algo.Play(); err != nil {
						vsched.Fail("play %d answers %v", i, err)
						return
					}
					vsched.Sleep(time.Duration(1+i%5) * 20 * time.Millisecond)
					var op = "Pause"
					if i == n {
						op = end
					}
					if k := r.do(0, op); k.err != nil {
						vsched.Fail("%s, number %d: %v", op, i, k.err)
						return
					}
					still = true
					var calls, c, f = m.calls, fmt.Sprint(probe.Clust(r.algo.Centroids())), r.algo.RuntimeFigures()
					for j := 0; j < i%7; j++ {
						r.algo.Push(vec(1))
					}
					vsched.Sleep(time.Duration(1+i%4) * 150 * time.Millisecond)
					var g = r.algo.RuntimeFigures()
					if m.calls != calls || m.inside != 0 || fmt.Sprint(probe.Clust(r.algo.Centroids())) != c || g[core.Iterations] != f[core.Iterations] || g["mine"] != f["mine"] || g[core.Duration] != f[core.Duration] {
						vsched.Fail("the model changes after the answer to %s, number %d: %v, then %v", op, i, f, g)
						return
					}
					still = false
				}
				r.algo.Stop()
			}
		}
	})
}

// C09
type crowd struct {
	mock
	k int
}

func (p *crowd) clust(n int) (c core.Clust) {
	for i := 0; i < p.k; i++ {
		c = append(c, vec(float64(1000*n+i)))
	}
	return
}

func (p *crowd) Init(model core.OCModel) (core.Clust, error) {
	p.mock.Init(model)
	return p.clust(0), nil
}

func (p *crowd) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	vsched.Sleep(10 * time.Millisecond)
	var _, f, err = p.mock.Iterate(model)
	return p.clust(p.iters), f, err
}

func crowds(sizes []int, iters int) Scenario {
	return long(fmt.Sprintf("models of up to %d centroids read along %d iterations", sizes[len(sizes)-1], iters), func() {
		for _, k := range sizes {
			Eval(1)
			var p = &crowd{k: k}
			p.noYield = true
			var algo = core.NewAlgo(&mockConf{CtrlConf: core.CtrlConf{Iter: iters}}, p, line{})
			if err := algo.Play(); err != nil {
				vsched.Fail("play answers %v", err)
			}
			var kept []core.Clust
			var texts []string
			var figs []core.RuntimeFigures
			var last = -1
			for i := 0; i < iters+20; i++ {
				vsched.Sleep(time.Duration(3+i%11) * time.Millisecond)
				var c = algo.Centroids()
				var l = probe.Clust(c)
				if len(l) != k {
					vsched.Fail("%d centroids of %d are read", len(l), k)
					return
				}
				var n = int(l[0][0]) / 1000
				for j, x := range l {
					if x[0] != float64(1000*n+j) {
						vsched.Fail("of %d centroids, number %d is %v, which is not of iteration %d", k, j, x, n)
						return
					}
				}
				if n < last {
					vsched.Fail("iteration %d is read after iteration %d", n, last)
					return
				}
				last = n
				kept, texts = append(kept, c), append(texts, fmt.Sprint(l))
				var f = algo.RuntimeFigures()
				if got := probe.Iterations(f); got < n || got > 0 && f["mine"] != float64(got) {
					vsched.Fail("figures %v after the centroids of iteration %d", f, n)
					return
				}
				figs = append(figs, f)
				for _, at := range []int{0, k / 2, k - 1} {
					var x = float64(1000*n + at)
					var e, label, d = algo.Predict(vec(x))
					var now = int(probe.Elemt(e)[0]) / 1000
					if want := 1000*now + label; int(probe.Elemt(e)[0]) != want || d != (line{}).Dist(e, vec(x)) || now == n && label != at {
						vsched.Fail("of %d centroids, the prediction of %v is %v, label %d, distance %v", k, x, e, label, d)
						return
					}
				}
			}
			algo.Wait(nil, 0)
			if last != iters {
				vsched.Fail("iteration %d is read at the end, not %d", last, iters)
			}
			for i, c := range kept {
				if fmt.Sprint(probe.Clust(c)) != texts[i] {
					vsched.Fail("centroids that were read as %s are %v now", texts[i], probe.Clust(c))
					return
				}
			}
			for i := range figs {
				if i > 0 && figs[i][core.Iterations] < figs[i-1][core.Iterations] {
					vsched.Fail("figures go from %v back to %v", figs[i-1], figs[i])
				}
			}
			algo.Stop()
		}
	})
}

// realHistories keeps what the real algorithms published along many iterations, while they are fed.
func realHistories(iters int) (out []Scenario) {
	for _, k := range realKinds() {
		var k = k
		out = append(out, long(fmt.Sprintf("%s, what was read along %d iterations", k.name, iters), func() {
			Eval(1)
			var data []core.Elemt
			for i := 0; i < 15; i++ {
				data = append(data, vec(pattern(2, i)))
			}
			var before = fmt.Sprint(data)
			var ctrl = core.CtrlConf{Iter: iters, IterFreq: 50}
			var algo, _ = k.mk(ctrl, data)
			var kept []core.Clust
			var texts []string
			var pushed []core.Elemt
			var pushedc []string
			if err := algo.Play(); err != nil {
				vsched.Fail("play answers %v", err)
			}
			for i := 0; i < iters; i++ {
				vsched.Sleep(20 * time.Millisecond)
				if i%2 == 0 {
					var e = vec(pattern(5, i))
					if algo.Push(e) == nil {
						pushed, pushedc = append(pushed, e), append(pushedc, fmt.Sprint(e))
					}
				}
				var c = algo.Centroids()
				kept, texts = append(kept, c), append(texts, fmt.Sprint(probe.Clust(c)))
				if e, _, _ := algo.Predict(vec(pattern(7, i))); e != nil {
					kept, texts = append(kept, core.Clust{e}), append(texts, fmt.Sprint(probe.Clust(core.Clust{e})))
				}
			}
			algo.Stop()
			if n := len(texts); n < iters {
				vsched.Fail("%d models were read", n)
			}
			for i, c := range kept {
				if s := fmt.Sprint(probe.Clust(c)); s != texts[i] {
					vsched.Fail("centroids that were read as %s are %s now", texts[i], s)
					return
				}
			}
			for i, e := range pushed {
				if s := fmt.Sprint(e); s != pushedc[i] {
					vsched.Fail("an element that was pushed as %s is %s now", pushedc[i], s)
					return
				}
			}
			if fmt.Sprint(data) != before {
				vsched.Fail("the data of the client were modified: %s, now %v", before, data)
			}
		}))
	}
	return
}

// C24
func manyConditions(most int) Scenario {
	return pure(fmt.Sprintf("conditions of up to %d terms, one of which differs, limits up to a billion", most), func() {
		var m = core.NewSimpleOCModel(&mockConf{}, line{}, core.NewOCStatus(core.Running), core.RuntimeFigures{core.Iterations: 3}, nil)
		var yes, no = core.NewIterFinishing(3, 0), core.NewIterFinishing(4, 0)
		for n := 1; n <= most; n++ {
			for at := -1; at < n; at++ {
				Eval(1)
				var and, or []core.Finishing
				for i := 0; i < n; i++ {
					if i == at {
						and, or = append(and, no), append(or, yes)
					} else {
						and, or = append(and, yes), append(or, no)
					}
				}
				if core.IsFinished(core.NewAndFinishing(and...), m) != (at < 0) {
					vsched.Fail("a conjunction of %d conditions, number %d does not hold: %v", n, at, at >= 0)
				}
				if core.IsFinished(core.NewOrFinishing(or...), m) != (at >= 0) {
					vsched.Fail("a disjunction of %d conditions, number %d holds: %v", n, at, at < 0)
				}
				// nested as deep
				var a, o core.Finishing = yes, no
				for i := 0; i < n; i++ {
					if i == at {
						a, o = core.NewAndFinishing(a, no), core.NewOrFinishing(o, yes)
					} else {
						a, o = core.NewAndFinishing(yes, a), core.NewOrFinishing(no, o)
					}
				}
				if core.IsFinished(a, m) != (at < 0) || core.IsFinished(o, m) != (at >= 0) {
					vsched.Fail("%d nested conditions, number %d differs: %v and %v", n, at, core.IsFinished(a, m), core.IsFinished(o, m))
				}
				// as many statuses
				var l []core.ClustStatus
				for i := 0; i < n; i++ {
					if i == at {
						l = append(l, core.Running)
					} else {
						l = append(l, []core.ClustStatus{core.Created, core.Ready, core.Idle, core.Finished}[i%4])
					}
				}
				if core.IsFinished(core.NewStatusFinishing(false, l...), m) != (at >= 0) {
					vsched.Fail("status %v when running: %v", l, at < 0)
				}
			}
		}
		for _, base := range []int{1, 10, 127, 128, 255, 256, 999, 1000, 32767, 32768, 65535, 65536, 1000000, 16777216, 16777217, 1000000000} {
			for iter := base - 1; iter <= base+1; iter++ {
				for _, ipd := range []int{0, 1, 3} {
					for _, data := range []int{0, 1, 7, 70000} {
						var limit = iter + ipd*data
						for n := limit - 2; n <= limit+2; n++ {
							if n < 0 {
								continue
							}
							Eval(1)
							var m = core.NewSimpleOCModel(&mockConf{}, line{}, core.NewOCStatus(core.Running),
								core.RuntimeFigures{core.Iterations: float64(n), core.PushedData: float64(data)}, nil)
							if got, want := core.IsFinished(core.NewIterFinishing(iter, ipd), m), (iter > 0 || ipd > 0) && n >= limit; got != want {
								vsched.Fail("%d iterations, %d data: a limit of %d and %d per data is reached: %v", n, data, iter, ipd, got)
								return
							}
						}
					}
				}
			}
		}
	})
}

// C27, C31
func largeCopies(most int) (out []Scenario) {
	var kinds = append([]copied{}, copiedKinds()...)
	for _, k := range kinds {
		var k = k
		if k.name == "streaming" {
			continue
		}
		out = append(out, long(fmt.Sprintf("%s, copied after up to %d elements", k.name, most), func() {
			for n := 0; n <= most && !expired() && !vsched.Failed(); n++ {
				Eval(1)
				var all, data = []core.Elemt{}, []core.Elemt{}
				for i := 0; i < 3+n/3; i++ {
					data = append(data, vec(pattern(1, i)))
					all = append(all, vec(pattern(1, i)))
				}
				var orig = k.mk(k.conf(false), &scaled{scale: 1}, data)
				orig.Init()
				for i := len(data); i < 3+n; i++ {
					if err := orig.Push(vec(pattern(1, i))); err != nil {
						vsched.Fail("%v", err)
					}
					all = append(all, vec(pattern(1, i)))
					if i == 3+n/2 { // some are staged, some are not
						orig.Play()
						settle()
					}
				}
				var cp, err = orig.Copy(k.conf(true), &scaled{scale: 3})
				if err != nil {
					vsched.Fail("%v", err)
					return
				}
				var window = all
				if k.frame > 0 && len(all) > k.frame {
					window = all[len(all)-k.frame:]
				}
				var twin = k.mk(k.conf(true), &scaled{scale: 3}, window)
				for step := 0; step < 3; step++ {
					var x, y = float64(step), float64(step)
					applyOp(orig, []string{"Push", "Play", "Stop"}[step], &x)
					x = y
					for _, op := range []string{"Play", "Push", "Play"} {
						applyOp(cp, op, &x)
						applyOp(twin, op, &y)
						if a, b := picture(cp), picture(twin); a != b {
							vsched.Fail("%s: a copy of %d elements is %s, an algorithm made by hand is %s", k.name, len(all), a, b)
							return
						}
					}
				}
				for _, a := range []core.OnlineClust{orig, cp, twin} {
					a.Stop()
				}
			}
		}))
	}
	return
}

func largeLives(most int) (out []Scenario) {
	for _, k := range livesKinds() {
		var k = k
		out = append(out, long(fmt.Sprintf("%s, up to %d elements, lives one after the other", k.name, most), func() {
			for n := 0; n <= most && !expired() && !vsched.Failed(); n += 1 + n/6 {
				Eval(1)
				var src = &script{}
				var all []core.Elemt
				var add = func() core.Elemt {
					var e = vec(pattern(3, len(all)))
					all = append(all, vec(pattern(3, len(all))))
					return e
				}
				var data []core.Elemt
				for i := 0; i < 4; i++ {
					data = append(data, add())
				}
				var algo = k.mk(src, data)
				var spent = 0
				for life := 1; life <= 4 && !vsched.Failed(); life++ {
					for i := 0; i < n; i++ {
						var e = add()
						if algo.Push(e) != nil {
							all = all[:len(all)-1]
						}
					}
					var held = all
					if k.queue {
						held = all[spent:]
					} else if k.frame > 0 && len(all) > k.frame {
						held = all[len(all)-k.frame:]
					}
					var twin = k.mk(&script{n: src.n}, append([]core.Elemt{}, held...))
					var x, y = float64(life), float64(life)
					for _, op := range []string{"Play", "Play", "Stop"} {
						var e1, e2 = applyOp(algo, op, &x), applyOp(twin, op, &y)
						if a, b := picture(algo), picture(twin); life > 1 && a != b || !sameErr(e1, e2) {
							vsched.Fail("%s, life %d with %d elements: %s answers %v and makes %s, by hand %v and %s", k.name, life, len(all), op, e1, a, e2, b)
							return
						}
					}
					if k.queue {
						spent += 1 + probe.Iterations(algo.RuntimeFigures())
						if len(held) == 0 {
							spent--
						}
					}
					twin.Stop()
				}
				algo.Stop()
			}
		}))
	}
	return
}

func longLives(times []int) (out []Scenario) {
	for _, times := range times {
		for _, k := range longLivesKinds(times, 3*times) {
			var k, times = k, times
			out = append(out, long(fmt.Sprintf("%s, %d times longer runs, lives one after the other", k.name, times), func() {
				Eval(1)
				var src = &script{}
				var all []core.Elemt
				var add = func() core.Elemt {
					all = append(all, vec(pattern(5, len(all))))
					return vec(pattern(5, len(all)-1))
				}
				var algo = k.mk(src, []core.Elemt{add(), add(), add()})
				var spent = 0
				for life := 1; life <= 4 && !vsched.Failed(); life++ {
					var n = 4
					if k.queue {
						n = 2 * times
					}
					for i := 0; i < n; i++ {
						if algo.Push(add()) != nil {
							all = all[:len(all)-1]
						}
					}
					var held = all
					if k.queue {
						held = all[spent:]
					} else if k.frame > 0 && len(all) > k.frame {
						held = all[len(all)-k.frame:]
					}
					var twin = k.mk(&script{n: src.n}, append([]core.Elemt{}, held...))
					for _, op := range []string{"Play", "Play", "Stop"} {
						var e1, e2 error
						for i, a := range []*core.Algo{algo, twin} {
							var err error
							switch op {
							case "Play":
								err = a.Play()
								vsched.Sleep(time.Duration(times) * 100 * time.Millisecond)
								settle()
							default:
								err = a.Stop()
							}
							if i == 0 {
								e1 = err
							} else {
								e2 = err
							}
						}
						if a, b := picture(algo), picture(twin); life > 1 && a != b || !sameErr(e1, e2) {
							vsched.Fail("%s, life %d: %s answers %v and makes %s, by hand %v and %s", k.name, life, op, e1, a, e2, b)
							return
						}
					}
					if k.queue {
						spent += 1 + probe.Iterations(algo.RuntimeFigures())
						if len(held) == 0 {
							spent--
						}
					}
				}
			}))
		}
	}
	return
}

// C28
func manyTimes() Scenario {
	return pure("times up to 3000, dimensions up to 40, degrees of freedom up to 60", func() {
		for _, dim := range append(upTo(16)[1:], 20, 31, 32, 33, 40) {
			for _, nu := range []float64{2, 2.5, 3, 4, 7, 30, 60} {
				var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: scripted()})
				var mu, x = make([]float64, dim), make([]float64, dim)
				for j := range mu {
					mu[j] = float64(j) - 3
					x[j] = mu[j] + float64(j%3)/2
				}
				var shift = 0.
				for j := range mu {
					shift += (x[j] - mu[j]) * (x[j] - mu[j])
				}
				var unit []float64
				for t := 1; t <= 3000; t += 1 + t/7 {
					Eval(1)
					for _, s := range []float64{0, shift} {
						var e = x
						if s == 0 {
							e = mu
						}
						if got, want := m.Pdf(e, mu, t), refLogT(dim, nu, s, t); !near(got, want) {
							vsched.Fail("dimension %d, %v degrees, time %d: the density of %v is %v instead of %v", dim, nu, t, e, got, want)
							return
						}
					}
					var seq = make([]uint64, 3*dim+9)
					for i := range seq {
						seq[i] = uint64(i+1) * 0x9E3779B97F4A7C15
					}
					var fresh = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: scripted(seq...)})
					var s, ok = fresh.Sample(mu, t).([]float64)
					if !ok || len(s) != dim {
						vsched.Fail("dimension %d: the sample is %v", dim, s)
						return
					}
					for j := range s {
						s[j] = (s[j] - mu[j]) * math.Sqrt(float64(t))
					}
					if unit == nil {
						unit = s
					}
					for j := range s {
						if !(math.Abs(s[j]-unit[j]) <= 1e-7*(1+math.Abs(unit[j]))) {
							vsched.Fail("dimension %d, %v degrees, time %d: the samples do not shrink as its square root: %v, then %v", dim, nu, t, unit, s)
							return
						}
					}
				}
			}
		}
	})
}

// C25
func manyClients(clients, each int) Scenario {
	return long(fmt.Sprintf("up to %d clients, up to %d uses by each", clients, each), func() {
		for n := 1; n <= clients; n++ {
			for k := 1; k <= each; k++ {
				Eval(1)
				var builds, first = 0, -1.
				var late = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
					builds++
					vsched.Sleep(time.Millisecond)
					first = e.([]float64)[0]
					return &builtFor{first, 1}
				})
				var ts []vsched.Thread
				for i := 0; i < n; i++ {
					var i = i
					ts = append(ts, vsched.GoNamed(fmt.Sprint("client", i), func() {
						for j := 0; j < k; j++ {
							var c = float64(100*(i+1) + j)
							if (i+j)%2 == 0 {
								if s := late.Sample(vec(c), j).([]float64); fmt.Sprint(s) != fmt.Sprint([]float64{first, 1, c, float64(j)}) {
									vsched.Fail("%d clients: sample %d of client %d is %v, built for %v", n, j, i, s, first)
								}
							} else {
								if d, want := late.Pdf(vec(c), vec(c+.5), j), (&builtFor{first, 1}).Pdf(vec(c), vec(c+.5), j); d != want {
									vsched.Fail("%d clients: density %d of client %d is %v, not %v", n, j, i, d, want)
								}
							}
						}
					}))
				}
				for _, t := range ts {
					t.Join()
				}
				if builds != 1 {
					vsched.Fail("%d clients: built %d times", n, builds)
					return
				}
			}
		}
	})
}

// C30
func largeSeeds(thorough bool) (out []Scenario) {
	var iters = 12
	var data []core.Elemt
	for i := 0; i < 60; i++ {
		data = append(data, vec(pattern(1, i), pattern(8, i)))
	}
	for _, kind := range []string{"k-means", "mcmc"} {
		for _, initializer := range []string{"given", "rand", "kmeans_pp", "pp"} {
			var in = kmeans.CreateInitializer(initializer)
			if in == nil {
				continue
			}
			var kind, initializer = kind, initializer
			out = append(out, long(fmt.Sprintf("%s %s, 60 elements, degrees up to 16, many seeds", kind, initializer), func() {
				var mk = func(par bool, cpus int, seed uint64, ctrl core.CtrlConf) *core.Algo {
					var src = rand.New(rand.NewSource(seed))
					if kind == "k-means" {
						return kmeans.NewAlgo(kmeans.Conf{CtrlConf: ctrl, K: 4, Par: par, NumCPU: cpus, RGen: src}, euclid.NewSpace(), data, in)
					}
					return mcmc.NewAlgo(mcmc.Conf{CtrlConf: ctrl, InitK: 3, MaxK: 7, Amp: 1, B: .001, Par: par, NumCPU: cpus, RGen: src}, euclid.NewSpace(), data, in,
						mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 3, RGen: rand.New(rand.NewSource(seed + 1))}))
				}
				for seed := uint64(1); seed <= 6; seed++ {
					var first result
					for degree := 0; degree <= 16; degree++ {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var ctrl = core.CtrlConf{Iter: iters}
						if degree%3 == 1 {
							ctrl.IterFreq = 100
						}
						var algo = mk(degree > 0, degree, seed, ctrl)
						if degree%3 == 1 {
							algo.Play()
							for algo.Status().Value == core.Running {
								vsched.Sleep(25 * time.Millisecond)
								if algo.Pause() == nil {
									algo.Play()
								}
							}
							algo.Wait(nil, 0)
						} else if err := algo.Batch(); err != nil {
							vsched.Fail("%v", err)
						}
						var got = resultOf(algo.Centroids(), algo.RuntimeFigures())
						if degree == 0 {
							first = got
						} else if !first.near(got) {
							vsched.Fail("%s, seed %d, degree %d: %v instead of %v", kind, seed, degree, got, first)
							return
						}
						algo.Stop()
					}
				}
			}))
		}
	}
	return
}

// C26
func largeConfs() Scenario {
	return pure("large values", func() {
		var data = []core.Elemt{vec(0), vec(1), vec(5)}
		var space = euclid.NewSpace()
		for _, n := range []int{1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 1000, 1024, 4097, 65536, 1 << 20, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt64} {
			Eval(1)
			var size = n
			if size > 5000 { // that is allocated
				size = 5000
			}
			var ctrl = core.CtrlConf{Iter: n, IterPerData: n, DataPerIter: n, IterFreq: float64(n) / 1000, Timeout: time.Duration(n)}
			var a = kmeans.Conf{CtrlConf: ctrl, K: n, NumCPU: n, FrameSize: size, RGen: scripted()}
			var b = a
			if err := core.PrepareConf(&b); err != nil || b.K != n || b.NumCPU != n || b.FrameSize != size || !sameCtrl(b.CtrlConf, ctrl) {
				vsched.Fail("k-means: %+v becomes %+v, %v", a, b, err)
			}
			var kalgo *core.Algo
			if p := panics(func() { kalgo = kmeans.NewAlgo(a, space, data, kmeans.GivenInitializer) }); p != "" {
				vsched.Fail("k-means: %+v is refused: %s", a, p)
				return
			}
			if c := kalgo.Conf().(*kmeans.Conf); c.K != n || c.NumCPU != n || c.FrameSize != size || !sameCtrl(c.CtrlConf, ctrl) {
				vsched.Fail("k-means: %+v becomes %+v", a, c)
			}
			for _, k := range []int{1, n / 2, n - 1, n} {
				if k < 1 {
					continue
				}
				var c = mcmc.Conf{CtrlConf: ctrl, InitK: k, MaxK: n, NumCPU: n, FrameSize: size, Norm: float64(n), B: float64(n), Amp: float64(n), ProbaK: []float64{1, float64(n), 3}, RGen: scripted()}
				var d = c
				if err := core.PrepareConf(&d); err != nil || d.InitK != k || d.MaxK != n || d.NumCPU != n || d.FrameSize != size ||
					d.Norm != float64(n) || d.B != float64(n) || d.Amp != float64(n) || fmt.Sprint(d.ProbaK) != fmt.Sprint(c.ProbaK) || !sameCtrl(d.CtrlConf, ctrl) {
					vsched.Fail("mcmc: %+v becomes %+v, %v", c, d, err)
				}
				if k+1 > 0 && k == n && n < math.MaxInt64 {
					c.InitK = n + 1
					if core.PrepareConf(&c) == nil {
						vsched.Fail("mcmc: %+v is accepted", c)
					}
				}
			}
			var s = streaming.Conf{CtrlConf: ctrl, BufferSize: size, Mu: float64(n), Sigma: float64(n), OutRatio: float64(n), OutAfter: n + 1, RGen: scripted()}
			if n == math.MaxInt64 {
				s.OutAfter = n
			}
			var t = s
			if err := core.PrepareConf(&t); err != nil || t.BufferSize != size || t.Mu != s.Mu || t.Sigma != s.Sigma || t.OutRatio != s.OutRatio || t.OutAfter != s.OutAfter || !sameCtrl(t.CtrlConf, ctrl) {
				vsched.Fail("streaming: %+v becomes %+v, %v", s, t, err)
			}
			var algo *core.Algo
			if size < 3 {
				continue
			}
			if p := panics(func() { algo = streaming.NewAlgo(s, space, data) }); p != "" {
				vsched.Fail("streaming: %+v is refused: %s", s, p)
				return
			}
			for i := 3; i < size; i++ {
				if err := algo.Push(vec(1)); err != nil {
					vsched.Fail("streaming: push %d of %d answers %v", i+1, size, err)
					return
				}
			}
			if algo.Push(vec(1)) == nil {
				vsched.Fail("streaming: more than %d elements wait", size)
			}
			// and the same, out of range
			for name, bad := range map[string]core.CtrlConf{"iter": {Iter: -n}, "per data": {IterPerData: -n}, "data": {DataPerIter: -n}, "frequency": {IterFreq: -float64(n)}, "timeout": {Timeout: -time.Duration(n)}} {
				if core.PrepareConf(&mockConf{CtrlConf: bad}) == nil {
					vsched.Fail("a %s of %d is accepted", name, -n)
				}
			}
		}
	})
}
