package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/euclid"
	"verif/harness/probe"
	"verif/vsched"
)

// pure is a scenario whose body enumerates inputs by itself.
func pure(name string, body func()) Scenario {
	return Scenario{Name: name, Opt: vsched.Options{MaxSteps: 1 << 30}, Body: body}
}

// forAll calls f with every tuple of numbers below dims, until a failure.
func forAll(dims []int, f func(ix []int)) {
	var ix = make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for !vsched.Failed() && !expired() {
		f(ix)
		Eval(1)
		var i = len(dims) - 1
		for ; i >= 0 && ix[i] == dims[i]-1; i-- {
			ix[i] = 0
		}
		if i < 0 {
			return
		}
		ix[i]++
	}
}

// same is n times d.
func same(d, n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, d)
	}
	return
}

// near compares numbers up to rounding.
func near(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*(1+math.Abs(a)+math.Abs(b))
}

func nearVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !near(a[i], b[i]) {
			return false
		}
	}
	return true
}

// elemts makes one-dimensional elements.
func elemts(values []float64, ix []int) (out []core.Elemt) {
	for _, i := range ix {
		out = append(out, vec(values[i]))
	}
	return
}

// panics tells whether f panics.
func panics(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// ---- C14: nearest centroid and losses ---------------------------------------------------

// table is a space given by a table of distances between elements and centroids.
type table struct {
	euclid.Space
	d [][]float64
}

// elements are positive numbers, centroids negative ones
func (t table) Dist(a, b core.Elemt) float64 {
	var x, y = int(a.([]float64)[0]), int(b.([]float64)[0])
	if x < 0 {
		x, y = y, x
	}
	return t.d[x-1][-y-1]
}

func tableElemts(n int, sign float64) (out []core.Elemt) {
	for i := 1; i <= n; i++ {
		out = append(out, vec(sign*float64(i)))
	}
	return
}

func nearestOf(d []float64) (label int, min float64) {
	label = -1
	for i, x := range d {
		if label < 0 || x < min {
			label, min = i, x
		}
	}
	return
}

func regC14() {
	var dists = []float64{0, 0.5, 1, 2, math.Inf(1)}
	var one = func(k int) Scenario {
		return pure(fmt.Sprintf("an element and %d centroids at every distances", k), func() {
			var clust = core.Clust(tableElemts(k, -1))
			var e = vec(1)
			forAll(same(len(dists), k), func(ix []int) {
				var d = make([]float64, k)
				for i, x := range ix {
					d[i] = dists[x]
				}
				var sp = table{d: [][]float64{d}}
				var want, min = nearestOf(d)
				var c, label, dist = clust.Assign(e, sp)
				if label != want {
					vsched.Fail("distances %v: the label is %d, not %d", d, label, want)
					return
				}
				if k == 0 {
					if c != nil {
						vsched.Fail("no centroid: %v is answered", c)
					}
					return
				}
				if dist != min || c == nil || c.([]float64)[0] != float64(-want-1) {
					vsched.Fail("distances %v: the answer is %v, label %d, distance %v", d, c, label, dist)
				}
				var labels, ds = clust.MapLabel([]core.Elemt{e, e}, sp)
				if len(labels) != 2 || len(ds) != 2 || labels[1] != want || ds[1] != min || labels[0] != want {
					vsched.Fail("distances %v: the labels are %v at %v", d, labels, ds)
				}
				if e[0] != 1 {
					vsched.Fail("the element was modified")
				}
			})
		})
	}
	// the prediction of an algorithm
	var predict = Scenario{Name: "predictions of an algorithm", Opt: vsched.Options{MaxSteps: 2000}, Body: func() {
		var k = vsched.Choose(4, 0, "centroids")
		var d = make([]float64, k)
		for i := range d {
			d[i] = []float64{0, 1, 2, 2}[vsched.Choose(4, 0, "distance")]
		}
		var m = &fixed{clust: core.Clust(tableElemts(k, -1))}
		var algo = core.NewAlgo(&mockConf{}, m, table{d: [][]float64{d}})
		if c, l, _ := algo.Predict(vec(1)); c != nil || l != -1 {
			vsched.Fail("no centroids yet: the prediction is %v, %d", c, l)
		}
		algo.Init()
		var want, min = nearestOf(d)
		var c, label, dist = algo.Predict(vec(1))
		if label != want || k > 0 && (dist != min || c.([]float64)[0] != float64(-want-1)) {
			vsched.Fail("distances %v: the prediction is %v, label %d, distance %v", d, c, label, dist)
		}
	}}
	var losses = func(k, n int) Scenario {
		return pure(fmt.Sprintf("losses of %d elements and %d centroids", n, k), func() {
			var ds = []float64{0, 0.5, 2}
			var clust = core.Clust(tableElemts(k, -1))
			var data = tableElemts(n, 1)
			forAll(append(same(3, k*n), 3), func(ix []int) {
				var norm = []float64{1, 2, 0.5}[ix[k*n]]
				var sp table
				var wantL, wantC = make([]float64, k), make([]int, k)
				var total = 0.
				for i := 0; i < n; i++ {
					var d = make([]float64, k)
					for j := range d {
						d[j] = ds[ix[i*k+j]]
					}
					sp.d = append(sp.d, d)
					var l, min = nearestOf(d)
					wantL[l] += math.Pow(min, norm)
					wantC[l]++
					total += math.Pow(min, norm)
				}
				var l, c = clust.ReduceLoss(data, sp, norm)
				if !nearVec(l, wantL) || fmt.Sprint(c) != fmt.Sprint(wantC) {
					vsched.Fail("distances %v norm %v: losses %v %v, not %v %v", sp.d, norm, l, c, wantL, wantC)
				}
				if t := clust.TotalLoss(data, sp, norm); !near(t, total) {
					vsched.Fail("distances %v norm %v: loss %v, not %v", sp.d, norm, t, total)
				}
			})
		})
	}
	var forLabels = func(k, n int) Scenario {
		return pure(fmt.Sprintf("losses of %d labelled elements and %d centroids", n, k), func() {
			var ds = []float64{0, 0.5, 2}
			var clust = core.Clust(tableElemts(k, -1))
			var data = tableElemts(n, 1)
			forAll(append(same(3, n), append(same(k, n), 3)...), func(ix []int) {
				var norm = []float64{1, 2, 0.5}[ix[2*n]]
				var labels = append([]int{}, ix[n:2*n]...)
				var sp table
				var wantL, wantC = make([]float64, k), make([]int, k)
				for i := 0; i < n; i++ {
					// only the distance to the given label matters
					var d = make([]float64, k)
					for j := range d {
						d[j] = 0.25
					}
					d[labels[i]] = ds[ix[i]]
					sp.d = append(sp.d, d)
					wantL[labels[i]] += math.Pow(ds[ix[i]], norm)
					wantC[labels[i]]++
				}
				var l, c = clust.ReduceLossForLabels(data, labels, sp, norm)
				if !nearVec(l, wantL) || fmt.Sprint(c) != fmt.Sprint(wantC) {
					vsched.Fail("distances %v labels %v norm %v: losses %v %v, not %v %v", sp.d, labels, norm, l, c, wantL, wantC)
				}
			})
		})
	}
	register(&Property{
		ID: "C14",
		Scenarios: func(thorough bool) (out []Scenario) {
			var more = 0
			if thorough {
				more = 2
			}
			for k := 0; k <= 5+more; k++ {
				out = append(out, one(k))
			}
			out = append(out, predict)
			out = append(out, largeAssign(40+40*more, 150+100*more)...)
			out = append(out, giantAssign())
			for k := 1; k <= 4+more/2; k++ {
				out = append(out, scaledAssign(k))
			}
			for k := 1; k <= 3; k++ {
				for n := 1; n*k <= 6; n++ {
					out = append(out, scaledLosses(k, n))
				}
			}
			for k := 1; k <= 4; k++ {
				for n := 0; n*k <= 8+more; n++ {
					out = append(out, losses(k, n))
				}
				for n := 0; n <= 4+more/2; n++ {
					out = append(out, forLabels(k, n))
				}
			}
			return
		},
		Rule:   "every table of distances, ties, zeros and infinite distances included, between a few elements and a few centroids; labels, distances, centroids, losses and cardinalities against their definition; up to 40 (80) centroids and 150 (250) elements; distances at scales from 1e-300 to 1e300, infinite ones",
		Assume: []string{"up to 5 centroids for one element, tables of up to 8 distances for losses"},
	})
}

// fixed is an implementation with given centroids.
type fixed struct {
	mock
	clust core.Clust
}

func (f *fixed) Init(core.OCModel) (core.Clust, error) { return f.clust, nil }

// ---- C15: parallel computations -----------------------------------------------------------

func parPartition(size, degree int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%d elements in %d parts", size, degree),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 4000},
		Body: func() {
			var seen = make([]int, size)
			var ranks = make([]int, degree)
			core.Par(func(start, end, rank int) {
				if start < 0 || end > size || start > end || rank < 0 || rank >= degree {
					vsched.Fail("a part from %d to %d of rank %d, of %d elements in %d parts", start, end, rank, size, degree)
					return
				}
				ranks[rank]++
				for i := start; i < end; i++ {
					seen[i]++
				}
				vsched.Gosched()
				ranks[rank] += 10
			}, size, degree)
			for i, n := range seen {
				if n != 1 {
					vsched.Fail("element %d of %d is processed %d times in %d parts", i, size, n, degree)
				}
			}
			for r, n := range ranks {
				if n%10 > 1 || n/10 != n%10 {
					vsched.Fail("rank %d is used %d times, %d of them ended, in %d parts of %d elements", r, n%10, n/10, degree, size)
				}
			}
		},
	}
}

func parReductions(values []float64, n, k, degree int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%d elements, %d centroids, degree %d, %d values", n, k, degree, len(values)),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 20000},
		Body: func() {
			var sp = euclid.NewSpace()
			var ix = make([]int, n)
			for i := range ix {
				ix[i] = vsched.Choose(len(values), 0, "element")
			}
			var data = elemts(values, ix)
			var clust = core.Clust{vec(0), vec(2.5), vec(50), vec(100)}[:k]
			if k == 2 {
				clust[1] = vec(30)
			}
			var labels = make([]int, n)
			for i := range labels {
				labels[i] = int(data[i].([]float64)[0]) % k
			}
			var before = fmt.Sprint(data, clust, labels)
			var diff = func(what string, a, b interface{}) {
				vsched.Fail("data %v: %s in parallel are %v, not %v", data, what, a, b)
			}
			var sl, sd = clust.MapLabel(data, sp)
			var pl, pd = clust.ParMapLabel(data, sp, degree)
			if fmt.Sprint(sl) != fmt.Sprint(pl) || !nearVec(sd, pd) {
				diff("labels", []interface{}{pl, pd}, []interface{}{sl, sd})
			}
			for _, norm := range []float64{1, 2} {
				var a, ac = clust.ReduceLoss(data, sp, norm)
				var b, bc = clust.ParReduceLoss(data, sp, norm, degree)
				if !nearVec(a, b) || fmt.Sprint(ac) != fmt.Sprint(bc) {
					diff("losses", []interface{}{b, bc}, []interface{}{a, ac})
				}
				a, ac = clust.ReduceLossForLabels(data, labels, sp, norm)
				b, bc = clust.ParReduceLossForLabels(data, labels, sp, norm, degree)
				if !nearVec(a, b) || fmt.Sprint(ac) != fmt.Sprint(bc) {
					diff("losses of labels", []interface{}{b, bc}, []interface{}{a, ac})
				}
				if x, y := clust.TotalLoss(data, sp, norm), clust.ParTotalLoss(data, sp, norm, degree); !near(x, y) {
					diff("total loss", y, x)
				}
			}
			var sc, scards = clust.ReduceDBA(data, sp)
			var pc, pcards = clust.ParReduceDBA(data, sp, degree)
			var ok = fmt.Sprint(scards) == fmt.Sprint(pcards) && len(pc) == len(clust)
			for i := range clust {
				if ok && scards[i] > 0 {
					ok = nearVec(probe.Elemt(sc[i]), probe.Elemt(pc[i]))
				} else if ok {
					// an empty cluster keeps its centroid
					ok = nearVec(probe.Elemt(clust[i]), probe.Elemt(pc[i]))
				}
			}
			if !ok {
				diff("averages", []interface{}{pc, pcards}, []interface{}{sc, scards})
			}
			var sm, smc = clust.ReduceDBAForLabels(data, labels, sp)
			var pm, pmc = clust.ParReduceDBAForLabels(data, labels, sp, degree)
			ok = fmt.Sprint(smc) == fmt.Sprint(pmc) && len(sm) == len(pm)
			for i := range sm {
				ok = ok && nearVec(probe.Elemt(sm[i]), probe.Elemt(pm[i]))
			}
			if !ok {
				diff("averages of labels", []interface{}{pm, pmc}, []interface{}{sm, smc})
			}
			if fmt.Sprint(data, clust, labels) != before {
				vsched.Fail("the arguments were modified: %s", before)
			}
		},
	}
}

func regC15() {
	register(&Property{
		ID:   "C15",
		Race: true,
		Scenarios: func(thorough bool) (out []Scenario) {
			for size := 0; size <= 12; size++ {
				for degree := 1; degree <= 9; degree++ {
					var b = 0
					if degree <= 4 && size <= 6 {
						b = 1
					}
					out = append(out, parPartition(size, degree, [2]int{b, b + 1}))
				}
			}
			out = append(out, hugePartitions([]int{1 << 8, 1000, 1 << 12, 10000, 1 << 15, 1 << 16, 100000, 1 << 20}, []int{1, 2, 3, 7, 8, 16, 61, 100}))
			if thorough {
				out = append(out, largePartitions(140, 70), largeReductions(upTo(130), upTo(20)[1:], 3), largeReductions([]int{40, 200, 600}, upTo(40)[1:], 20), largeReductions(upTo(9), upTo(100)[1:], 2))
			} else {
				out = append(out, largePartitions(70, 20), largeReductions(upTo(70), []int{1, 2, 3, 5, 8, 16}, 3), largeReductions([]int{40, 200}, []int{1, 4, 7, 33}, 20), largeReductions([]int{0, 1, 2, 5, 9}, []int{9, 12, 17, 32, 33, 64, 65, 100}, 2))
			}
			out = append(out, heavyClusters([]int{999, 2500, 6000, giant}))
			for k := 1; k <= 3; k++ {
				for n := 0; n <= 5; n++ {
					for degree := 1; degree <= 4; degree++ {
						var values = []float64{0, 1, 3, 7, 40}
						if n >= 5 && !thorough {
							values = []float64{1, 3, 40}
						}
						if n == 4 && !thorough {
							values = []float64{1, 3, 7, 40}
						}
						out = append(out, parReductions(values, n, k, degree, [2]int{0, 0}))
					}
				}
				// long runs of the same cluster in the same part
				for n := 7; n <= 13; n++ {
					for degree := 2; degree <= 5; degree++ {
						if k == 2 && (n <= 10 || degree == 2 && n == 12 || thorough) {
							out = append(out, parReductions([]float64{1, 40}, n, k, degree, [2]int{0, 0}))
						}
						if k == 3 && thorough && n <= 9 {
							out = append(out, parReductions([]float64{1, 3, 40}, n, k, degree, [2]int{0, 0}))
						}
					}
				}
				out = append(out, parReductions([]float64{3}, 3, k, 3, [2]int{1, 2}))
				out = append(out, parReductions([]float64{1, 7}, 2, k, 2, [2]int{1, 2}))
			}
			return
		},
		Rule:   "every partition of up to 12 elements in up to 9 parts, and every small data set for every parallel computation, against the sequential one, under the race detector and with the orders of the parts explored up to the deviation bound; every size up to the bounds of the sweeps, up to 100 parts of few elements, up to a million elements (see the names of the scenarios)",
		Assume: []string{"data sets of up to 5 elements out of 3 to 5 values, up to 12 (13) out of 2"},
	})
}

// ---- C16: averages --------------------------------------------------------------------------

type vectorSpace interface {
	core.Space
	PointDist(a, b []float64) float64
	PointCombine(a []float64, wa int, b []float64, wb int) []float64
	PointCopy(a []float64) []float64
}

func regC16() {
	var values = []float64{-3, 0, 1, 10}
	var mean = func(data []core.Elemt, weights []int) []float64 {
		var sum = make([]float64, len(data[0].([]float64)))
		var w = 0.
		for i, e := range data {
			for j, x := range e.([]float64) {
				sum[j] += x * float64(weights[i])
			}
			w += float64(weights[i])
		}
		for j := range sum {
			sum[j] /= w
		}
		return sum
	}
	var averages = func(name string, sp vectorSpace, n, dim int) Scenario {
		return pure(fmt.Sprintf("%s averages of %d elements of dimension %d", name, n, dim), func() {
			if n == 0 {
				if d, err := core.DBA(nil, sp); err == nil || d != nil {
					vsched.Fail("the average of nothing is %v, %v", d, err)
				}
				if d, err := core.WeightedDBA(nil, nil, sp); err == nil || d != nil {
					vsched.Fail("the average of nothing is %v, %v", d, err)
				}
				return
			}
			forAll(append(same(len(values), n), same(3, n)...), func(ix []int) {
				var data []core.Elemt
				for i := 0; i < n; i++ {
					var v = []float64{values[ix[i]], 1 + float64(i) - values[ix[i]]}
					data = append(data, v[:dim])
				}
				var weights, ones = make([]int, n), make([]int, n)
				for i := range weights {
					weights[i], ones[i] = ix[n+i]+1, 1
				}
				var before = fmt.Sprint(data, weights)
				var d, err = core.WeightedDBA(data, weights, sp)
				if err != nil || !nearVec(probe.Elemt(d), mean(data, weights)) {
					vsched.Fail("the average of %v with %v is %v, %v", data, weights, d, err)
				}
				if weights[0] == 1 && weights[n-1] == 1 {
					d, err = core.DBA(data, sp)
					if err != nil || !nearVec(probe.Elemt(d), mean(data, ones)) {
						vsched.Fail("the average of %v is %v, %v", data, d, err)
					}
				}
				if fmt.Sprint(data, weights) != before {
					vsched.Fail("an average modified its arguments: %s", before)
				}
				// the average does not share memory with the data
				var v = d.([]float64)
				v[0] += 1
				if fmt.Sprint(data, weights) != before {
					vsched.Fail("an average shares memory with its arguments: %s", before)
				}
			})
		})
	}
	var clusters = func(n, k int) Scenario {
		return pure(fmt.Sprintf("averages of clusters, %d elements, %d centroids", n, k), func() {
			var sp = euclid.NewSpace()
			var clust = core.Clust{vec(0.4), vec(6), vec(-50)}[:k]
			forAll(append(same(len(values), n), same(k, n)...), func(ix []int) {
				var data = elemts(values, ix[:n])
				var before = fmt.Sprint(data, clust)
				for _, nearest := range []bool{true, false} {
					var members = make([][]core.Elemt, k)
					var labels = make([]int, n)
					for i, e := range data {
						labels[i] = ix[n+i]
						if nearest {
							var d []float64
							for _, c := range clust {
								d = append(d, math.Abs(c.([]float64)[0]-e.([]float64)[0]))
							}
							labels[i], _ = nearestOf(d)
						}
						members[labels[i]] = append(members[labels[i]], e)
					}
					var c []core.Elemt
					var cards []int
					if nearest {
						c, cards = clust.ReduceDBA(data, sp)
					} else {
						c, cards = clust.ReduceDBAForLabels(data, labels, sp)
					}
					if len(c) != k || len(cards) != k {
						vsched.Fail("%d averages, %d cardinalities of %d clusters", len(c), len(cards), k)
						return
					}
					for l := range members {
						if cards[l] != len(members[l]) || cards[l] > 0 && !nearVec(probe.Elemt(c[l]), mean(members[l], same(1, cards[l]))) {
							vsched.Fail("data %v labels %v: cluster %d is %v of %d", data, labels, l, c[l], cards[l])
						}
						for _, e := range c {
							if v, ok := e.([]float64); ok && v != nil {
								for _, x := range data {
									if &v[0] == &x.([]float64)[0] {
										vsched.Fail("an average is an element of the data")
									}
								}
							}
						}
					}
				}
				if fmt.Sprint(data, clust) != before {
					vsched.Fail("the arguments were modified: %s", before)
				}
			})
		})
	}
	register(&Property{
		ID: "C16",
		Scenarios: func(thorough bool) (out []Scenario) {
			var n = 4
			if thorough {
				n = 5
			}
			out = append(out, largeAverages(10*n, 3*n), heavyClusters([]int{99, 100, 101, 255, 256, 257, 300, 999, 1000, 1001, 1025, 2500, 4097, 6000, giant}))
			for i := 1; i <= n; i++ {
				out = append(out, weightedAverages(i))
			}
			for i := 0; i <= n; i++ {
				out = append(out, averages("euclid", euclid.NewSpace(), i, 1), averages("euclid", euclid.NewSpace(), i, 2), averages("cosinus", cosinus.NewSpace(), i, 2))
				for k := 1; k <= 3; k++ {
					out = append(out, clusters(i, k))
				}
			}
			return
		},
		Rule:   "every list of up to 4 (5) elements and weights: the weighted average, the averages and cardinalities of clusters against their definition; arguments unchanged; null and huge weights, clusters of up to 6000 elements; many elements and dimensions, along one data set each",
		Assume: []string{"weights up to 3, and null and large ones of up to 4 (5) elements, vector spaces"},
	})
}

// ---- C17: the vector spaces ------------------------------------------------------------------

func regC17() {
	var grid = func(dim int) []float64 {
		switch dim {
		case 1:
			return []float64{-1000, -2, -1, -0.5, 0, 0.25, 1, 3, 1e6}
		case 2:
			return []float64{-2, -0.5, 0, 1, 3}
		case 5:
			return []float64{-3, 1}
		}
		return []float64{-2, 0, 1}
	}
	var vectors = func(dim int) (out [][]float64) {
		var g = grid(dim)
		forAll(same(len(g), dim), func(ix []int) {
			var v = make([]float64, dim)
			for i, x := range ix {
				v[i] = g[x]
			}
			out = append(out, v)
		})
		return
	}
	var norm = func(v []float64) float64 {
		var s = 0.
		for _, x := range v {
			s += x * x
		}
		return math.Sqrt(s)
	}
	var euclidean = func(a, b []float64) float64 {
		var d = make([]float64, len(a))
		for i := range a {
			d[i] = a[i] - b[i]
		}
		return norm(d)
	}
	var cosine = func(a, b []float64) float64 {
		var s = 0.
		for i := range a {
			s += a[i] * b[i]
		}
		return 1 - s/(norm(a)*norm(b))
	}
	var distances = func(name string, sp vectorSpace, oracle func(a, b []float64) float64, dim int, metric bool) Scenario {
		return pure(fmt.Sprintf("%s distances in dimension %d", name, dim), func() {
			var vs = vectors(dim)
			for _, a := range vs {
				for _, b := range vs {
					if !metric && (norm(a) == 0 || norm(b) == 0) {
						continue // no direction
					}
					Eval(1)
					var d = sp.Dist(a, b)
					if !near(d, oracle(a, b)) {
						vsched.Fail("the distance of %v and %v is %v, not %v", a, b, d, oracle(a, b))
					}
					if d < 0 || math.IsNaN(d) || !near(d, sp.Dist(b, a)) || sp.PointDist(a, b) != d {
						vsched.Fail("the distances of %v and %v are %v, %v and %v", a, b, d, sp.Dist(b, a), sp.PointDist(a, b))
					}
					if metric && (d == 0) != (fmt.Sprint(a) == fmt.Sprint(b)) {
						vsched.Fail("the distance of %v and %v is %v", a, b, d)
					}
					if !metric {
						if d > 2+1e-12 {
							vsched.Fail("the distance of %v and %v is %v", a, b, d)
						}
						var twice = make([]float64, dim)
						for i := range a {
							twice[i] = 2 * a[i]
						}
						if !near(sp.Dist(twice, b), d) {
							vsched.Fail("the distance of %v and %v depends on a scale", a, b)
						}
						continue
					}
					for _, c := range vs {
						if !(sp.Dist(a, c) <= (d+sp.Dist(b, c))*(1+1e-12)) {
							vsched.Fail("no triangle inequality for %v, %v, %v", a, b, c)
						}
					}
				}
			}
		})
	}
	var combines = func(name string, sp vectorSpace, dim int) Scenario {
		return pure(fmt.Sprintf("%s combinations in dimension %d", name, dim), func() {
			var vs = vectors(dim)
			for _, va := range vs {
				for _, vb := range vs {
					for wa := 0; wa <= 4; wa++ {
						for wb := 0; wb <= 4; wb++ {
							if wa+wb == 0 {
								continue
							}
							Eval(1)
							var a, b = append([]float64{}, va...), append([]float64{}, vb...)
							var want = make([]float64, dim)
							for i := range want {
								want[i] = (a[i]*float64(wa) + b[i]*float64(wb)) / float64(wa+wb)
							}
							var c = sp.Combine(a, wa, b, wb).([]float64)
							var p = sp.PointCombine(a, wa, b, wb)
							if !nearVec(c, want) || !nearVec(p, want) {
								vsched.Fail("%d %v and %d %v make %v and %v", wa, a, wb, b, c, p)
							}
							c[0]++
							p[0]++
							if !nearVec(a, va) || !nearVec(b, vb) {
								vsched.Fail("a combination modifies %v or %v", va, vb)
							}
						}
					}
				}
				var a = append([]float64{}, va...)
				var c, p = sp.Copy(a).([]float64), sp.PointCopy(a)
				if !nearVec(c, va) || !nearVec(p, va) {
					vsched.Fail("the copies of %v are %v and %v", va, c, p)
				}
				c[0]++
				p[dim-1]--
				if !nearVec(a, va) {
					vsched.Fail("a copy shares memory with %v", va)
				}
				a[0] = 77
				if c[0] == 77 || p[0] == 77 {
					vsched.Fail("a copy shares memory with %v", va)
				}
				var l []core.Elemt
				for n := 1; n <= 4; n++ {
					l = append(l, va)
					if d := sp.Dim(l); d != dim {
						vsched.Fail("the dimension of %v is %d", l, d)
					}
				}
			}
			if d := sp.Dim(nil); d != 0 {
				vsched.Fail("the dimension of nothing is %d", d)
			}
		})
	}
	register(&Property{
		ID: "C17",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, largeSpaces(map[bool]int{false: 40, true: 130}[thorough]), giantSpaces())
			for dim := 1; dim <= 3; dim++ {
				out = append(out, scaledSpaces(dim))
			}
			for dim := 1; dim <= 5; dim++ {
				out = append(out, distances("euclid", euclid.NewSpace(), euclidean, dim, true))
				out = append(out, distances("cosinus", cosinus.NewSpace(), cosine, dim, false))
				out = append(out, combines("euclid", euclid.NewSpace(), dim))
				out = append(out, combines("cosinus", cosinus.NewSpace(), dim))
			}
			return
		},
		Rule:   "every pair (triple for the triangle inequality) of vectors of a grid in dimensions 1 to 5 and every pair of weights up to 4; every dimension up to the bound of the sweep; values at scales from 1e-60 to 1e60",
		Assume: []string{"the cosinus distance of a null vector is not defined and is left out"},
	})
}

func init() {
	regC14()
	regC15()
	regC16()
	regC17()
}
