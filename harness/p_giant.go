package main

import (
	"fmt"
	"math"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// The scenarios of this file go beyond what fits in 16 bits: one or two histories each, along
// which every step is checked.

const giant = 1<<16 + 4000

// giantRun does a number of iterations in one or several runs, and counts pushes.
func giantRun(what string) (out []Scenario) {
	for _, c := range []struct {
		name string
		ctrl core.CtrlConf
		runs int
	}{
		{"limited", core.CtrlConf{Iter: giant}, 1},
		{"limited by data", core.CtrlConf{IterPerData: 1}, 3},
	} {
		var c = c
		out = append(out, Scenario{
			Name: fmt.Sprintf("%s, %s, %d iterations in %d runs", what, c.name, giant, c.runs),
			Opt:  vsched.Options{MaxSteps: 1 << 24, SelectCost: 1},
			Body: func() {
				var m = &mock{noYield: true}
				var r = newRig(c.ctrl, m)
				r.algo.Init()
				var done, pushed, seen = 0, 0, 0
				m.onIter = func(m *mock, model core.OCModel) {
					if seen++; seen%16 == 0 {
						vsched.Yield()
					}
					if f := model.RuntimeFigures(); int(f[core.Iterations]) != m.iters || int(f[core.PushedData]) != pushed {
						vsched.Fail("iteration %d sees the figures %v, %d data were pushed", m.iters+1, f, pushed)
					}
				}
				for run := 1; run <= c.runs && !vsched.Failed(); run++ {
					Eval(1)
					for pushed < giant*run/c.runs {
						pushed++
						if err := r.algo.Push(vec(1)); err != nil {
							vsched.Fail("%v", err)
						}
						if n := int(r.algo.RuntimeFigures()[core.PushedData]); n != pushed {
							vsched.Fail("%d pushed data are counted, not %d", n, pushed)
							return
						}
					}
					done = giant * run / c.runs
					if err := r.algo.Play(); err != nil {
						vsched.Fail("play answers %v", err)
					}
					if err := r.algo.Wait(nil, 0); err != nil {
						vsched.Fail("wait answers %v", err)
					}
					settle()
					var f = r.algo.RuntimeFigures()
					var x = probe.Elemt(r.algo.Centroids()[0])[0]
					if m.iters != done || int(f[core.Iterations]) != done || int(f[core.PushedData]) != pushed || x != float64(done) {
						vsched.Fail("%d iterations were done, not %d: the figures are %v and the centroid %v", m.iters, done, f, x)
					}
				}
				r.algo.Stop()
				r.algo.Init() // a new life
				m.onIter, done = nil, 0
				if c.ctrl.Iter > 0 {
					done = c.ctrl.Iter
				}
				for i := 1; i <= 3; i++ {
					r.algo.Push(vec(1))
					done += c.ctrl.IterPerData
				}
				if f := r.algo.RuntimeFigures(); f[core.Iterations] != 0 || f[core.PushedData] != 3 {
					vsched.Fail("a new life begins with the figures %v, 3 data were pushed", f)
				}
				r.algo.Play()
				r.algo.Wait(nil, 0)
				if f := r.algo.RuntimeFigures(); m.iters != done || int(f[core.Iterations]) != done {
					vsched.Fail("%d iterations were done in a new life, not %d: the figures are %v", m.iters, done, f)
				}
				r.algo.Stop()
			},
		})
	}
	return
}

// giantDurations is a run that lasts for weeks.
func giantDurations() Scenario {
	return long("runs of weeks", func() {
		var m = &mock{noYield: true}
		m.onIter = func(*mock, core.OCModel) { vsched.Sleep(7 * time.Hour) }
		var r = newRig(core.CtrlConf{IterPerData: 100}, m)
		r.algo.Init()
		for run := 1; run <= 8 && !vsched.Failed(); run++ {
			Eval(1)
			r.algo.Push(vec(1))
			r.algo.Play()
			for i := 0; i < 90; i++ {
				vsched.Sleep(7*time.Hour + time.Second)
				var n = probe.Iterations(r.algo.RuntimeFigures())
				var d = r.algo.RuntimeFigures()[core.Duration]
				if want := 7 * time.Hour * time.Duration(n); d < float64(want) || d > float64(want+time.Minute) {
					vsched.Fail("the duration of %d iterations of 7 hours is %v", n, time.Duration(d))
					return
				}
			}
			vsched.Sleep(80 * time.Hour)
			if n := probe.Iterations(r.algo.RuntimeFigures()); n != 100*run {
				vsched.Fail("%d iterations, not %d", n, 100*run)
			}
		}
		r.algo.Stop()
	})
}

// giantLimits starts runs by the data.
func giantLimits() Scenario {
	return Scenario{
		Name: "started by thousands of data",
		Opt:  vsched.Options{MaxSteps: 1 << 24, SelectCost: 1},
		Body: func() {
			for _, dpi := range []int{255, 256, 300, 1000, 4096, giant} {
				Eval(1)
				var m = &mock{noYield: true}
				var r = newRig(core.CtrlConf{Iter: 1, DataPerIter: dpi}, m)
				r.algo.Init()
				for i := 1; i <= dpi+2; i++ {
					if err := r.algo.Push(vec(1)); err != nil {
						vsched.Fail("a push answers %v", err)
					}
					if i >= dpi-1 {
						settle()
					}
					if i <= dpi && m.calls > 0 || i == dpi+1 && m.calls == 0 {
						vsched.Fail("started by %d data: %d iterations after %d data", dpi, m.calls, i)
						return
					}
				}
				r.algo.Stop()
			}
		},
	}
}

// giantAssign has more centroids, and more elements, than small integers can number.
func giantAssign() Scenario {
	return pure(fmt.Sprintf("the nearest of %d centroids, assignments of %d elements", giant, giant), func() {
		var e = vec(1)
		for _, k := range []int{129, 257, 1025, 32769, giant} {
			var clust = core.Clust(tableElemts(k, -1))
			for _, at := range []int{0, 1, 127, 128, 255, 256, 1024, 32767, 32768, 65535, 65536, k - 1} {
				if at >= k {
					continue
				}
				var d = make([]float64, k)
				for i := range d {
					d[i] = 2 + float64((i*7)%5)
				}
				d[at], d[k-1] = 1, 1
				Eval(1)
				var c, label, dist = clust.Assign(e, table{d: [][]float64{d}})
				if label != at || dist != 1 || c == nil || c.([]float64)[0] != float64(-at-1) {
					vsched.Fail("%d centroids, the nearest one is %d: the answer is %v, label %d, distance %v", k, at, c, label, dist)
					return
				}
			}
		}
		var clust = core.Clust{vec(-1), vec(0), vec(1000)}
		var data []core.Elemt
		var losses, cards = make([]float64, 3), make([]int, 3)
		for i := 0; i < giant; i++ {
			var x = float64(1 + i%3)
			var l = 1
			if i%11 == 3 {
				x, l = 1000+x, 2
			}
			data = append(data, vec(x))
			losses[l] += float64((1 + i%3) * (1 + i%3))
			cards[l]++
		}
		Eval(1)
		var sp = euclid.NewSpace()
		var labels, dists = clust.MapLabel(data, sp)
		for i := range data {
			if want := 1 + labelOf(i); labels[i] != want || dists[i] != float64(1+i%3) {
				vsched.Fail("element %d of %d: label %d at %v, not %d", i, giant, labels[i], dists[i], want)
				return
			}
		}
		var gl, gc = clust.ReduceLoss(data, sp, 2)
		var fl, fc = clust.ReduceLossForLabels(data, labels, sp, 2)
		if !nearVec(gl, losses) || fmt.Sprint(gc) != fmt.Sprint(cards) || !nearVec(fl, losses) || fmt.Sprint(fc) != fmt.Sprint(cards) ||
			!near(clust.TotalLoss(data, sp, 2), losses[1]+losses[2]) {
			vsched.Fail("%d elements: losses %v of %v and %v of %v, not %v of %v", giant, gl, gc, fl, fc, losses, cards)
		}
	})
}

func labelOf(i int) int {
	if i%11 == 3 {
		return 1
	}
	return 0
}

// giantSpaces are vectors of thousands of dimensions.
func giantSpaces() Scenario {
	return pure("vectors of up to 5000 dimensions", func() {
		for _, dim := range []int{63, 64, 65, 128, 129, 255, 256, 257, 511, 513, 1000, 1024, 1025, 5000} {
			for _, first := range []int{0, dim / 2, dim - 1} { // where they begin to differ
				Eval(1)
				var a, b = make([]float64, dim), make([]float64, dim)
				var sq, dot, na, nb = 0., 0., 0., 0.
				for i := range a {
					a[i] = float64(i%7) - 2
					b[i] = a[i]
					if i >= first {
						b[i] = float64((i*3)%11) - 4
					}
					sq += (a[i] - b[i]) * (a[i] - b[i])
					dot += a[i] * b[i]
					na += a[i] * a[i]
					nb += b[i] * b[i]
				}
				for name, sp := range map[string]vectorSpace{"euclid": euclid.NewSpace(), "cosinus": cosinus.NewSpace()} {
					var want = math.Sqrt(sq)
					if name == "cosinus" {
						want = 1 - dot/math.Sqrt(na*nb)
					}
					if d := sp.Dist(a, b); !near(d, want) {
						vsched.Fail("%s: the distance of two vectors of dimension %d that differ from %d on is %v, not %v", name, dim, first, d, want)
						return
					}
					var c, e = probe.Elemt(sp.Combine(a, 2, b, 3)), probe.Elemt(sp.Copy(b))
					if len(c) != dim || len(e) != dim || sp.Dim([]core.Elemt{a}) != dim {
						vsched.Fail("%s: the dimensions are %d, %d and %d, not %d", name, len(c), len(e), sp.Dim([]core.Elemt{a}), dim)
						return
					}
					for i := range c {
						if !near(c[i], (2*a[i]+3*b[i])/5) || e[i] != b[i] {
							vsched.Fail("%s: coordinate %d of %d: combined %v, copied %v, of %v and %v", name, i, dim, c[i], e[i], a[i], b[i])
							return
						}
					}
				}
			}
		}
	})
}

// giantSeries are long series.
func giantSeries(average bool) Scenario {
	return pure("series of up to 700 points", func() {
		var inner = euclid.NewSpace()
		for _, l := range [][3]int{{130, 129, 0}, {257, 260, 0}, {300, 300, 9}, {700, 3, 0}, {2, 600, 0}, {260, 300, 100}, {300, 260, 130}, {300, 40, 130}, {20, 400, 257}} {
			if expired() || vsched.Failed() {
				return
			}
			Eval(1)
			var s1, s2 = scattered(2, l[0], 1), scattered(7, l[1], 1)
			var window = l[2]
			var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
			var what = fmt.Sprintf("lengths %d and %d, window %d", l[0], l[1], window)
			var a, b = shrunk(s1, s2, window)
			var t = dtw.NewDTWWindow(a, b, inner, window)
			if average {
				for _, w := range [][2]int{{1, 1}, {1, 3}, {70000, 1}} {
					var want = pathAverage(t.Path(), a, b, w[0], w[1])
					if d := t.DBA(w[0], w[1]); !nearSeries(d, want) {
						vsched.Fail("%s, weights %v: the average is %v, not %v", what, w, d, want)
					}
					if c := sp.Combine(s1, w[0], s2, w[1]).([][]float64); len(c) != len(want) {
						vsched.Fail("%s, weights %v: the average has %d points, not %d", what, w, len(c), len(want))
					}
				}
				if l[1] > 1 {
					if r := dtw.Resize(s2, l[0], inner); !nearSeries(r, resized(s2, l[0])) {
						vsched.Fail("a series of %d resized to %d: %v, not %v", l[1], l[0], r, resized(s2, l[0]))
					}
				}
				if c := sp.Copy(s1).([][]float64); fmt.Sprint(c) != fmt.Sprint(s1) {
					vsched.Fail("%s: a copy is %v", what, c)
				}
				continue
			}
			var want = dynamic(a, b, inner.PointDist, window)
			if d, back := sp.Dist(s1, s2), sp.Dist(s2, s1); !near(d, want) || !near(back, want) {
				vsched.Fail("%s: the distances are %v and %v, not %v", what, d, back, want)
			}
			var cost, bad = checkPath(t.Path(), a, b, inner.PointDist, window)
			if bad != "" || !near(cost, want) || !near(t.Dist(), want) {
				vsched.Fail("%s: the path costs %v and the distance is %v, not %v %s", what, cost, t.Dist(), want, bad)
			}
		}
	})
}

// giantInits draws among many elements.
func giantInits() Scenario {
	return Scenario{Name: fmt.Sprintf("initializers of %d elements", giant), Opt: vsched.Options{MaxSteps: sweepSteps}, Body: func() {
		var sp = euclid.NewSpace()
		var data []core.Elemt
		for i := 0; i < giant; i++ {
			data = append(data, vec(float64(i)))
		}
		for _, name := range []string{"given", "rand", "pp"} {
			for _, k := range []int{1, 3, 300, 2000} {
				if name == "pp" && k > 3 {
					continue
				}
				Eval(1)
				var c, err = kmeans.CreateInitializer(name)(k, data, sp, rand.New(rand.NewSource(uint64(k))))
				if err != nil || len(c) != k {
					vsched.Fail("%d %s out of %d: %d centroids, %v", k, name, giant, len(c), err)
					return
				}
				var used = map[float64]bool{}
				var high = false
				for i, e := range c {
					var x = e.([]float64)[0]
					if used[x] || x < 0 || x >= giant || x != math.Trunc(x) || name == "given" && x != float64(i) {
						vsched.Fail("%d %s out of %d: centroid %d is %v", k, name, giant, i, x)
						return
					}
					used[x] = true
					high = high || x >= giant-4000
				}
				if name == "rand" && k == 2000 && !high {
					vsched.Fail("%d elements out of %d: none of the last 4000 ones", k, giant)
				}
			}
		}
		var w = make([]float64, giant)
		for i := range w {
			w[i] = 1
		}
		for _, at := range []int{0, 1, 255, 256, 32767, 32768, 65535, 65536, giant - 1} {
			Eval(1)
			if i, err := kmeans.WeightedChoice(w, newScripted((float64(at)+.5)/giant)); i != at || err != nil {
				vsched.Fail("the middle of the share of %d among %d chooses %d, %v", at, giant, i, err)
			}
		}
	}}
}

// giantSteps are iterations of k-means with many elements, and many centroids.
func giantSteps() Scenario {
	return Scenario{Name: fmt.Sprintf("iterations on %d elements, and with 300 and 5000 centroids", giant), Opt: vsched.Options{MaxSteps: sweepSteps}, Body: func() {
		var sp = euclid.NewSpace()
		for _, c := range []struct{ n, k int }{{giant, 3}, {3000, 300}, {5003, 5000}} {
			for _, degree := range []int{0, 1, 3, 8} {
				if expired() || vsched.Failed() || c.k > 1000 && degree > 1 && degree < 8 {
					return
				}
				Eval(1)
				// centroid i has the elements of value near 10 i, but the second one, that has none
				var sum, cards = make([]float64, c.k), make([]int, c.k)
				var data []core.Elemt
				var clust core.Clust
				for i := 0; i < c.k; i++ {
					clust = append(clust, vec(float64(10*i)))
				}
				for i := 0; i < c.n; i++ {
					var l = i % c.k
					if l == 1 {
						l = c.k - 1
					}
					var x = float64(10*l) + float64(i%7-3)
					data = append(data, vec(x))
					sum[l] += x
					cards[l]++
				}
				var strategy kmeans.Strategy = &kmeans.SeqStrategy{}
				if degree > 0 {
					strategy = kmeans.ParStrategy{Degree: degree}
				}
				var got = strategy.Iterate(sp, clust, data)
				if len(got) != c.k {
					vsched.Fail("%d elements, %d centroids, degree %d: %d centroids", c.n, c.k, degree, len(got))
					return
				}
				for i, g := range got {
					var want = float64(10 * i)
					if cards[i] > 0 {
						want = sum[i] / float64(cards[i])
					}
					if x := probe.Elemt(g)[0]; !near(x, want) {
						vsched.Fail("%d elements, %d centroids, degree %d: centroid %d is %v, not %v", c.n, c.k, degree, i, x, want)
						return
					}
				}
			}
		}
	}}
}

// giantStream is a stream whose elements join the same cluster, but outliers, that are
// accepted after a large number of elements.
func giantStream() Scenario {
	return pure(fmt.Sprintf("streams of %d elements", giant), func() {
		var space = euclid.NewSpace()
		for _, after := range []int{200, 256, 300, 1000, 32768, 66000} {
			Eval(1)
			var conf = streaming.Conf{BufferSize: 3, Mu: 1e6, Sigma: 1e-12, OutRatio: 1.5, OutAfter: after, RGen: scripted()}
			var impl = streaming.NewImpl(conf, nil)
			var model = core.NewSimpleOCModel(&conf, space, core.NewOCStatus(core.Running), core.RuntimeFigures{}, nil)
			var iterate = func(x float64) core.Clust {
				if err := impl.Push(vec(x), model); err != nil {
					vsched.Fail("push answers %v", err)
				}
				var c, _, err = impl.Iterate(model)
				if err != nil {
					vsched.Fail("%v", err)
				}
				return c
			}
			impl.Push(vec(0), model)
			impl.Init(model)
			var sum, n, max = 0., 1, 0.
			for i := 0; i < giant && !vsched.Failed(); i++ {
				var x = float64(i%7 - 3)
				if i > 0 && i == after-1 { // too early
					x = 20
				}
				var out = i > 0 && i == after
				if out { // not any more
					x = 1e6
				}
				var d = math.Abs(x - sum/float64(n))
				var c = iterate(x)
				if out {
					if len(c) != 2 || probe.Elemt(c[1])[0] != x {
						vsched.Fail("outliers after %d elements: %v after %d", after, c, i)
					}
					break
				}
				sum, n, max = sum+x, n+1, math.Max(max, d)
				if len(c) != 1 || math.Abs(probe.Elemt(c[0])[0]-sum/float64(n)) > 1e-7 || !near(impl.GetMaxDistance(), max) {
					vsched.Fail("outliers after %d elements: the center is %v after %d elements, not %v, the largest distance %v, not %v", after, c, i+1, sum/float64(n), impl.GetMaxDistance(), max)
				}
			}
		}
	})
}

// giantTimes are densities and samples late in a chain, and of many dimensions.
func giantTimes() Scenario {
	return pure("times up to a billion, dimensions up to 150", func() {
		for _, dim := range []int{1, 2, 64, 65, 100, 128, 150} {
			var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: 3, RGen: scripted()})
			var mu, x = make([]float64, dim), make([]float64, dim)
			var shift = 0.
			for j := range mu {
				mu[j] = float64(j%9) - 3
				x[j] = mu[j] + float64(j%3)/2
				shift += (x[j] - mu[j]) * (x[j] - mu[j])
			}
			for _, t := range []int{1, 255, 256, 32768, 65535, 65536, 70000, 1e6, 1e7, 1e8 + 7, 1e9} {
				Eval(1)
				if got, want := m.Pdf(x, mu, t), refLogT(dim, 3, shift, t); !near(got, want) {
					vsched.Fail("dimension %d, time %d: the density is %v instead of %v", dim, t, got, want)
					return
				}
			}
		}
	})
}

// giantCopies copies an algorithm that has many elements.
func giantCopies() (out []Scenario) {
	for _, k := range copiedKinds() {
		var k = k
		if k.name == "streaming" || k.frame > 0 {
			continue
		}
		out = append(out, long(fmt.Sprintf("%s, copied after %d elements", k.name, giant), func() {
			Eval(1)
			var all []core.Elemt
			for i := 0; i < giant; i++ {
				all = append(all, vec(float64(i%100)+float64(i)/giant))
			}
			var orig = k.mk(k.conf(false), &scaled{scale: 1}, all[:100])
			orig.Init()
			for _, e := range all[100:] {
				if err := orig.Push(e); err != nil {
					vsched.Fail("%v", err)
				}
			}
			var cp, err = orig.Copy(k.conf(true), &scaled{scale: 3})
			if err != nil {
				vsched.Fail("%v", err)
				return
			}
			var twin = k.mk(k.conf(true), &scaled{scale: 3}, all)
			var x, y float64
			applyOp(cp, "Play", &x)
			applyOp(twin, "Play", &y)
			if a, b := picture(cp), picture(twin); a != b {
				vsched.Fail("%s: a copy of %d elements is %s, an algorithm made by hand is %s", k.name, len(all), a, b)
			}
			for _, a := range []core.OnlineClust{orig, cp, twin} {
				a.Stop()
			}
		}))
	}
	return
}

// boundedWaits waits, in several ways, for runs that fail while it waits: the failure is
// reported to the waiter whatever the limit of the wait and its condition are.
func boundedWaits() Scenario {
	return long("waits of all kinds for runs that fail in the meantime", func() {
		var status = core.NewStatusFinishing
		var conds = []core.Finishing{nil, status(true), status(false, core.Finished), status(true, core.Ready, core.Finished),
			core.NewOrFinishing(core.NewIterFinishing(1000, 0), status(true)), core.NewAndFinishing(status(true), status(false, core.Finished))}
		for at := 1; at <= 40; at += 1 + at/4 {
			for _, d := range []time.Duration{0, time.Second / 2, time.Second, 10 * time.Second, time.Minute, time.Hour, 24 * 365 * time.Hour} {
				for i, cond := range conds {
					for _, panics := range []bool{false, true} {
						if d > 0 && d < time.Duration(at)*70*time.Millisecond+300*time.Millisecond {
							continue // too short
						}
						if cond == nil && d == 0 && i > 0 {
							continue
						}
						Eval(1)
						var m = &mock{noYield: true}
						var want = errImpl
						if m.failAt = at; panics {
							m.failAt, m.panicAt, want = 0, at, errPanic
						}
						m.onIter = func(*mock, core.OCModel) { vsched.Sleep(70 * time.Millisecond) }
						var r = newRig(core.CtrlConf{Iter: 5000}, m)
						r.algo.Play()
						if err := r.algo.Wait(cond, d); !sameErr(err, want) {
							vsched.Fail("a wait of at most %v for condition %d of a run that fails at iteration %d answers %v", d, i, at, err)
							return
						}
						if st := r.algo.Status(); st.Value != core.Finished || !sameErr(st.Error, want) {
							vsched.Fail("the status is %s", statusName(st))
							return
						}
						if err := r.algo.Wait(cond, d); err != nil {
							vsched.Fail("a wait of at most %v for a run that failed answers %v", d, err)
							return
						}
						settle()
					}
				}
			}
		}
	})
}

// longFrequencies follows runs of thousands of periods.
func longFrequencies() Scenario {
	return long("runs of thousands of periods", func() {
		for _, freq := range []float64{0.01, 1, 8, 100, 1000, 100000} {
			for _, work := range []float64{0, .25, 1, 1.5} {
				Eval(1)
				var period = time.Duration(float64(time.Second) / freq)
				var m = &mock{noYield: true}
				m.onIter = func(*mock, core.OCModel) { vsched.Sleep(time.Duration(work * float64(period))) }
				var r = newRig(core.CtrlConf{IterFreq: freq, Iter: 3000}, m)
				r.algo.Play()
				vsched.Sleep(period*5000 + time.Second)
				if m.calls != 3000 || r.algo.Status().Value != core.Ready {
					vsched.Fail("%d iterations at most per second, %v periods each: %d iterations out of 3000 in 5000 periods", int(freq), work, m.calls)
					return
				}
				var due = time.Duration(math.Max(1, work) * float64(period))
				for i := 1; i < len(m.starts); i++ {
					if d := m.starts[i] - m.starts[i-1]; d < period || d > due+period/1000+time.Nanosecond {
						vsched.Fail("%v iterations at most per second, %v periods each: iterations %d and %d start within %v", freq, work, i, i+1, d)
						return
					}
				}
				r.algo.Stop()
			}
		}
	})
}

// failingBuilders fail the first times: what was not built is not used.
func failingBuilders() Scenario {
	return Scenario{
		Name: "builders that fail the first times",
		Body: func() {
			for fails := 0; fails <= 3; fails++ {
				for _, op := range []string{"Sample", "Pdf"} {
					Eval(1)
					var calls = 0
					var late = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
						if calls++; calls <= fails {
							panic("cannot be built")
						}
						return &builtFor{e.([]float64)[0], calls}
					})
					var use = func(c float64) (ok bool) {
						defer func() {
							if r := recover(); r != nil {
								if fmt.Sprint(r) != "cannot be built" {
									vsched.Fail("%d failures: a distribution that was not built is used: %v", fails, r)
								}
								ok = false
							}
						}()
						if op == "Sample" {
							var s = late.Sample(vec(c), 1).([]float64)
							return s[1] == float64(fails+1) && s[2] == c
						}
						late.Pdf(vec(c), vec(c), 1)
						return true
					}
					for i := 1; i <= fails+3; i++ {
						if use(float64(i)) != (i > fails) {
							vsched.Fail("%d failures of the builder: use %d", fails, i)
						}
					}
					if calls != fails+1 {
						vsched.Fail("built %d times", calls)
					}
				}
			}
		},
	}
}

// exactTimeouts have limits of every precision: none elapses before its time.
func exactTimeouts() Scenario {
	return long("timeouts of any precision, to the nanosecond", func() {
		const ms = time.Millisecond
		for _, limit := range []time.Duration{1500 * time.Microsecond, 333333, 999999, 10*ms + 1, 1234567891, 59*time.Second + 999999999,
			61*time.Second + 500*ms, time.Hour + 30*time.Second + 1, 25*time.Hour + 59*time.Minute + 59*time.Second + 999*ms + 999999} {
			for _, part := range []time.Duration{20, 300} {
				Eval(1)
				var m = &mock{noYield: true}
				m.onIter = func(*mock, core.OCModel) { vsched.Sleep(limit/part + 1) }
				var r = newRig(core.CtrlConf{Timeout: limit}, m)
				var start time.Duration
				r.on = func(_ *rig, _ core.OnlineClust, st core.OCStatus) {
					if now := vsched.Clock(); st.Value == core.Finished && now < start+limit {
						vsched.Fail("a run of at most %v is %s after %v", limit, statusName(st), now-start)
					}
				}
				for run := 1; run <= 2; run++ {
					start = vsched.Clock()
					r.algo.Play()
					vsched.Sleep(start + limit - 1 - vsched.Clock())
					if st := r.algo.Status(); st.Value != core.Running && vsched.Clock() < start+limit {
						vsched.Fail("a run of at most %v is %s after %v", limit, statusName(st), vsched.Clock()-start)
						return
					}
					vsched.Sleep(limit/part + 2 + 400*ms)
					if st := r.algo.Status(); st.Value != core.Finished || st.Error != core.ErrTimeout {
						vsched.Fail("a run of at most %v is %s after %v", limit, statusName(st), vsched.Clock()-start)
						return
					}
				}
			}
		}
	})
}

// dataInAnyState counts the data pushed before the first initialization, while a run goes on,
// while it is paused and once it is over.
func dataInAnyState(most int) Scenario {
	return long(fmt.Sprintf("started by up to %d data, pushed in any state before", most), func() {
		for dpi := 1; dpi <= most; dpi++ {
			for split := 0; split < 27*4; split++ {
				// shares of the data in each state: none, some or more than enough
				var share = func(i int) int {
					switch split / []int{1, 3, 9}[i] % 3 {
					case 1:
						return 1 + dpi/3
					case 2:
						return dpi + 2
					}
					return 0
				}
				Eval(1)
				var m = &mock{noYield: true}
				m.onIter = func(*mock, core.OCModel) { vsched.Sleep(time.Second) }
				var r = newRig(core.CtrlConf{Iter: 2, DataPerIter: dpi}, m)
				var pushed = 0
				var push = func() {
					pushed++
					if err := r.algo.Push(vec(1)); err != nil {
						vsched.Fail("a push answers %v", err)
					}
				}
				for i := 0; i < share(0); i++ {
					push()
				}
				r.algo.Play()
				for i := 0; i < share(1); i++ {
					push()
				}
				r.algo.Pause()
				for i := 0; i < share(2); i++ {
					push()
				}
				if split >= 27 { // once finished
					r.algo.Stop()
					for i := 0; i < split/27-1; i++ {
						push()
					}
				}
				r.algo.Play()
				vsched.Sleep(4 * time.Second)
				if st := r.algo.Status(); st.Value != core.Ready {
					vsched.Fail("the status is %s", statusName(st))
					return
				}
				var runs = len(r.notif)
				for started := 0; started < 2; {
					var first = pushed >= dpi // this push follows enough others
					push()
					var starts = false
					settle()
					for _, s := range r.notif[runs:] {
						starts = starts || s.Value == core.Running
					}
					if runs = len(r.notif); starts != first {
						vsched.Fail("started by %d data, after shares %d %d %d: a push that follows %d others starts a run: %v", dpi, share(0), share(1), share(2), pushed-1, starts)
						return
					}
					if starts {
						pushed = 0
						started++
					}
				}
				r.algo.Stop()
			}
		}
	})
}

// shortWaits are over before the algorithm can do anything.
func shortWaits() Scenario {
	return long("waits from a nanosecond on", func() {
		for _, d := range []time.Duration{1, 2, 100, 999, 1000, 1001, 1e4, 1e5, 999999, 1e6, 1e7, 99999999, 1e8, 1e8 + 1} {
			for i, cond := range []core.Finishing{nil, answer(false), core.NewIterFinishing(1<<40, 0), core.NewOrFinishing(), core.NewAndFinishing()} {
				Eval(1)
				var m = &mock{noYield: true}
				m.onIter = func(*mock, core.OCModel) { vsched.Sleep(30 * time.Millisecond) }
				var r = newRig(core.CtrlConf{}, m)
				r.algo.Play()
				var start = vsched.Clock()
				var over = false
				var t = vsched.GoNamed("aside", func() {
					vsched.Sleep(time.Second)
					if !over {
						vsched.Fail("a wait of at most %v for condition %d lasts more than a second", d, i)
					}
				})
				var err = r.algo.Wait(cond, d)
				over = true
				if took := vsched.Clock() - start; err != core.ErrTimeout || took < d || took > d+210*time.Millisecond {
					vsched.Fail("a wait of at most %v for condition %d answers %v after %v", d, i, err, took)
				}
				if st := r.algo.Status(); st.Value != core.Running {
					vsched.Fail("the status after a wait is %s", statusName(st))
				}
				t.Join()
				r.algo.Stop()
				if vsched.Failed() {
					return
				}
			}
		}
	})
}

// resumedConditions end runs that were paused and resumed before, and later runs too.
func resumedConditions() Scenario {
	return long("conditions on runs that are paused, read and resumed", func() {
		for _, limit := range []int{0, 9} { // iterations, beside the condition
			for n := 1; n <= 8; n++ {
				for pauses := 0; pauses <= 4; pauses++ {
					for _, kind := range []int{0, 1, 2} {
						Eval(1)
						var fin core.Finishing = atLeast{n}
						if kind == 1 {
							fin = core.NewAndFinishing(core.NewStatusFinishing(false, core.Running, core.Idle), atLeast{n})
						} else if kind == 2 {
							fin = core.NewOrFinishing(core.NewIterFinishing(1000, 0), atLeast{n})
						}
						var m = &mock{noYield: true}
						m.onIter = func(*mock, core.OCModel) { vsched.Sleep(100 * time.Millisecond) }
						var r = newRig(core.CtrlConf{Iter: limit, Finishing: fin}, m)
						for life := 1; life <= 2; life++ {
							r.algo.Play()
							for i := 0; i < pauses; i++ {
								vsched.Sleep(130 * time.Millisecond)
								if r.algo.Pause() == nil {
									vsched.Sleep(350 * time.Millisecond)
									r.algo.Play()
								}
							}
							vsched.Sleep(3 * time.Second)
							if st := r.algo.Status(); st.Value != core.Ready || st.Error != nil || m.iters != n {
								vsched.Fail("life %d: a run until iteration %d, %d pauses, is %s after %d iterations", life, n, pauses, statusName(st), m.iters)
								return
							}
							r.algo.Stop()
						}
					}
				}
			}
		}
	})
}

// noData runs k-means from centroids without any element: they stay, and it goes on.
func noData() Scenario {
	return long("k-means from given centroids, without elements or with late ones", func() {
		for _, par := range []bool{false, true} {
			for n := 1; n <= 5; n++ {
				for late := 0; late <= n; late++ {
					Eval(1)
					var first = core.Clust{vec(0), vec(10)}
					var algo *core.Algo
					var conf = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: n, IterFreq: 10}, K: 2, Par: par, NumCPU: 3, RGen: scripted()}
					algo = kmeans.NewAlgo(conf, euclid.NewSpace(), nil, first.Initializer)
					algo.Play()
					if late > 0 {
						vsched.Sleep(time.Duration(late)*100*time.Millisecond - 50*time.Millisecond)
						algo.Push(vec(7))
					}
					vsched.Sleep(2 * time.Second)
					var want = 10.
					if late > 0 && late < n {
						want = 7 // used from the next iteration on
					}
					var c = algo.Centroids()
					if st := algo.Status(); st.Value != core.Ready || probe.Iterations(algo.RuntimeFigures()) != n || len(c) != 2 || probe.Elemt(c[0])[0] != 0 || probe.Elemt(c[1])[0] != want && (late == 0 || late < n-1) {
						vsched.Fail("%d iterations without elements but one at iteration %d, parallel %v: the status is %s, the figures are %v, the centroids %v", n, late, par, statusName(st), algo.RuntimeFigures(), c)
						return
					}
					algo.Stop()
				}
			}
		}
	})
}

// tightCopies of a stream have room for exactly its clusters, for less or for more.
func tightCopies() Scenario {
	return long("copies of streams with room for their clusters, less or more", func() {
		for n := 1; n <= 8; n++ {
			for room := 1; room <= 10; room++ {
				Eval(1)
				var conf = streaming.Conf{CtrlConf: core.CtrlConf{Iter: n - 1}, BufferSize: 20, Mu: -10, Sigma: 1e-12, OutRatio: 1e9, OutAfter: 2, RGen: scripted()}
				var data []core.Elemt
				for i := 0; i < n; i++ { // each one is a cluster
					data = append(data, vec(float64(10*i)))
				}
				var algo = streaming.NewAlgo(conf, euclid.NewSpace(), data)
				algo.Init()
				if n > 1 {
					algo.Play()
					vsched.Sleep(time.Second)
				}
				if len(algo.Centroids()) != n {
					vsched.Fail("%d clusters, not %d", len(algo.Centroids()), n)
					return
				}
				var c = conf
				c.BufferSize, c.Iter = room, n-1
				var cp, err = algo.Copy(&c, euclid.NewSpace())
				if (err == nil) != (room >= n) {
					vsched.Fail("%d clusters copied with room for %d: %v", n, room, err)
					return
				}
				if err == nil {
					if err := cp.Init(); err != nil {
						vsched.Fail("the copy answers %v", err)
						return
					}
					// one of its elements is out of the buffer now
					for i := n - 1; i <= room; i++ {
						if err := cp.Push(vec(1)); (err == nil) != (i < room) {
							vsched.Fail("%d clusters copied with room for %d: element %d is pushed: %v", n, room, i+1, err)
							return
						}
					}
					cp.Stop()
				}
				algo.Stop()
			}
		}
	})
}
