package main

import (
	"fmt"
	"math"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"verif/harness/probe"
	"verif/vsched"
)

// The scenarios below repeat small data sets at very different scales: a tolerance, a constant
// or a representation that is too narrow shows only there.

var scales = []float64{1, 1e-7, 1e-12, 1e-60, 1e7, 1e12, 1e60}

// close compares numbers relatively.
func close(a, b float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) {
		return false
	}
	return math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

func closeVec(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !close(a[i], b[i]) {
			return false
		}
	}
	return true
}

// within compares vectors up to rounding of numbers of a scale.
func within(a, b []float64, scale float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !(math.Abs(a[i]-b[i]) <= 1e-9*scale) {
			return false
		}
	}
	return true
}

// C14
func scaledAssign(k int) Scenario {
	return pure(fmt.Sprintf("an element and %d centroids at distances of every scale", k), func() {
		var clust = core.Clust(tableElemts(k, -1))
		var e = vec(1)
		for _, scale := range append([]float64{1e-300, 1e300}, scales...) {
			// the second one hardly differs from the first one
			var ds = []float64{0, scale, scale * (1 + math.Pow(2, -40)), 3 * scale, math.Inf(1)}
			forAll(same(len(ds), k), func(ix []int) {
				var d = make([]float64, k)
				for i, x := range ix {
					d[i] = ds[x]
				}
				var sp = table{d: [][]float64{d}}
				var want, min = nearestOf(d)
				var c, label, dist = clust.Assign(e, sp)
				var labels, dists = clust.MapLabel([]core.Elemt{e}, sp)
				if label != want || dist != min || c == nil || c.([]float64)[0] != float64(-want-1) || labels[0] != want || dists[0] != min {
					vsched.Fail("distances %v: the answer is %v, label %d, distance %v, and %v at %v", d, c, label, dist, labels, dists)
				}
			})
		}
	})
}

func scaledLosses(k, n int) Scenario {
	return pure(fmt.Sprintf("losses of %d elements and %d centroids at distances of every scale", n, k), func() {
		var clust = core.Clust(tableElemts(k, -1))
		var data = tableElemts(n, 1)
		for _, scale := range scales {
			var ds = []float64{0, scale, 3 * scale, math.Inf(1)}
			forAll(append(same(len(ds), k*n), 3), func(ix []int) {
				var norm = []float64{1, 2, .5}[ix[k*n]]
				var sp table
				var losses, cards, labels, total = make([]float64, k), make([]int, k), make([]int, n), 0.
				for i := 0; i < n; i++ {
					var d = make([]float64, k)
					for j := range d {
						d[j] = ds[ix[i*k+j]]
					}
					sp.d = append(sp.d, d)
					var l, min = nearestOf(d)
					labels[i] = l
					losses[l] += math.Pow(min, norm)
					cards[l]++
					total += math.Pow(min, norm)
				}
				var a, ac = clust.ReduceLoss(data, sp, norm)
				var b, bc = clust.ReduceLossForLabels(data, labels, sp, norm)
				if !closeVec(a, losses) || !closeVec(b, losses) || fmt.Sprint(ac) != fmt.Sprint(cards) || fmt.Sprint(bc) != fmt.Sprint(cards) || !close(clust.TotalLoss(data, sp, norm), total) {
					vsched.Fail("distances %v norm %v: losses %v of %v and %v of %v, not %v of %v", sp.d, norm, a, ac, b, bc, losses, cards)
				}
			})
		}
	})
}

// C16
func weightedAverages(n int) Scenario {
	return pure(fmt.Sprintf("averages of %d elements with null, small and huge weights", n), func() {
		var weights = []int{0, 1, 3, 1 << 20, 1 << 31, 1 << 40}
		var sp = euclid.NewSpace()
		for _, scale := range scales {
			forAll(same(len(weights), n), func(ix []int) {
				var data []core.Elemt
				var w []int
				var want, total = 0., 0.
				for i, x := range ix {
					var v = scale * float64((i*i*5+i*3)%11-4)
					data = append(data, vec(v))
					w = append(w, weights[x])
					want += v * float64(weights[x])
					total += float64(weights[x])
				}
				if total == 0 {
					return // no barycenter
				}
				var d, err = core.WeightedDBA(data, w, sp)
				if err != nil || !within(probe.Elemt(d), []float64{want / total}, 10*scale) {
					vsched.Fail("the average of %v with %v is %v, %v instead of %v", data, w, d, err, want/total)
				}
			})
		}
	})
}

func heavyClusters(sizes []int) Scenario {
	return pure(fmt.Sprintf("clusters of up to %d elements", sizes[len(sizes)-1]), func() {
		var sp = euclid.NewSpace()
		for _, n := range sizes {
			if expired() || vsched.Failed() {
				return
			}
			for arrangement := 0; arrangement < 3; arrangement++ {
				heavyCluster(sp, n, arrangement)
			}
		}
	})
}

// heavyCluster puts the elements of two clusters together, or side by side with one element of
// a cluster far from the others.
func heavyCluster(sp core.Space, n, arrangement int) {
	var data []core.Elemt
	var labels []int
	var sum, cards = [2]float64{}, []int{0, 0}
	for i := 0; i < n; i++ {
		var v = pattern(3, i)
		var other = i%5 == 0
		switch arrangement {
		case 1:
			other = i >= n/2 && i < n-1
		case 2:
			other = i > 0 && i < n/2
		}
		var l = 0
		if other {
			l, v = 1, v+1e4
		}
		data = append(data, vec(v))
		labels = append(labels, l)
		sum[l] += v
		cards[l]++
	}
	var clust = core.Clust{vec(200), vec(10200)}
	var check = func(what string, a core.Clust, ac []int) {
		Eval(1)
		for l := range cards {
			if ac[l] != cards[l] {
				vsched.Fail("%s of %d elements, arrangement %d: cardinalities %v, not %v", what, n, arrangement, ac, cards)
				return
			}
			var want = []float64{sum[l] / float64(cards[l])}
			if cards[l] > 0 && !closeVec(probe.Elemt(a[l]), want) {
				vsched.Fail("%s of %d elements, arrangement %d: the averages are %v, not %v", what, n, arrangement, a[l], want)
				return
			}
		}
	}
	var c, cards1 = clust.ReduceDBA(data, sp)
	check("averages", c, cards1)
	c, cards1 = clust.ReduceDBAForLabels(data, labels, sp)
	check("averages by label", c, cards1)
	for _, degree := range []int{2, 3, 8} {
		c, cards1 = clust.ParReduceDBA(data, sp, degree)
		check("parallel averages", c, cards1)
		c, cards1 = clust.ParReduceDBAForLabels(data, labels, sp, degree)
		check("parallel averages by label", c, cards1)
	}
	var all = []float64{(sum[0] + sum[1]) / float64(n)}
	if d, err := core.DBA(data, sp); err != nil || !closeVec(probe.Elemt(d), all) {
		vsched.Fail("the average of %d elements is %v, not %v", n, d, all)
	}
}

// C17
func scaledSpaces(dim int) Scenario {
	return pure(fmt.Sprintf("vectors of every scale and weights of every size in dimension %d", dim), func() {
		var grid = []float64{-2, 0, 1, 1 + math.Pow(2, -30), 3}
		var e, c = euclid.NewSpace(), cosinus.NewSpace()
		for _, scale := range scales {
			forAll(same(len(grid), 2*dim), func(ix []int) {
				var a, b = make([]float64, dim), make([]float64, dim)
				var sq, dot, na, nb = 0., 0., 0., 0.
				var differ = false
				for i := range a {
					a[i], b[i] = scale*grid[ix[i]], scale*grid[ix[dim+i]]
					sq += (a[i] - b[i]) * (a[i] - b[i])
					dot += a[i] * b[i]
					na += a[i] * a[i]
					nb += b[i] * b[i]
					differ = differ || a[i] != b[i]
				}
				var d = e.Dist(a, b)
				if !close(d, math.Sqrt(sq)) || (d > 0) != differ || d != e.PointDist(a, b) || !close(d, e.Dist(b, a)) {
					vsched.Fail("the euclidean distance of %v and %v is %v, not %v", a, b, d, math.Sqrt(sq))
				}
				if na > 0 && nb > 0 {
					if d, want := c.Dist(a, b), 1-dot/math.Sqrt(na)/math.Sqrt(nb); !near(d, want) || d < 0 {
						vsched.Fail("the cosinus distance of %v and %v is %v, not %v", a, b, d, want)
					}
				}
				for _, w := range [][2]int{{1, 2}, {0, 1}, {1 << 31, 1}, {1 << 31, 1 << 31}, {3, 1 << 40}} {
					var want = make([]float64, dim)
					for i := range want {
						want[i] = (a[i]*float64(w[0]) + b[i]*float64(w[1])) / (float64(w[0]) + float64(w[1]))
					}
					for _, sp := range []vectorSpace{e, c} {
						if got := probe.Elemt(sp.Combine(a, w[0], b, w[1])); !within(got, want, scale) {
							vsched.Fail("%v of %v and %v of %v make %v, not %v", w[0], a, w[1], b, got, want)
						}
						if got := sp.PointCombine(a, w[0], b, w[1]); !within(got, want, scale) {
							vsched.Fail("%v of %v and %v of %v make %v, not %v", w[0], a, w[1], b, got, want)
						}
					}
				}
			})
		}
	})
}

// C18
func scaledSeries(l1, l2 int) Scenario {
	return pure(fmt.Sprintf("distances of series of lengths %d and %d of every scale", l1, l2), func() {
		var inner = euclid.NewSpace()
		for _, scale := range scales {
			for _, window := range []int{0, 1, 2} {
				var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
				var points = points1(0, scale, 3*scale)
				var all2 = seriesOf(points, l2)
				for _, s1 := range seriesOf(points, l1) {
					for _, s2 := range all2 {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var a, b = shrunk(s1, s2, window)
						var want = dynamic(a, b, inner.PointDist, window)
						var t = dtw.NewDTWWindow(a, b, inner, window)
						var cost, bad = checkPath(t.Path(), a, b, inner.PointDist, window)
						for _, d := range []float64{sp.Dist(s1, s2), sp.Dist(s2, s1), t.Dist(), cost} {
							if !(math.Abs(d-want) <= 1e-9*scale) || bad != "" {
								vsched.Fail("window %d: the distances of %v and %v are %v, %v and %v, %v along the path, not %v %s", window, s1, s2, sp.Dist(s1, s2), sp.Dist(s2, s1), t.Dist(), cost, want, bad)
							}
						}
					}
				}
			}
		}
	})
}

// C26
func fractions() Scenario {
	return pure("fractions and extreme numbers", func() {
		for _, x := range []float64{1e-300, 1e-9, .01, .1, .25, .5, .75, .9, .99, 1, 1.01, 1.5, 2, 10, 1e9, 1e300} {
			for _, sign := range []float64{1, -1} {
				var y = sign * x
				Eval(1)
				var m = mcmc.Conf{InitK: 1, Norm: y, B: y, Amp: y, R: y, ProbaK: []float64{x, 0, x}, RGen: scripted()}
				if d := m; core.PrepareConf(&d) != nil || d.Norm != y || d.B != y || d.Amp != y || d.R != y || d.ProbaK[0] != x || d.ProbaK[1] != 0 || d.ProbaK[2] != x || d.RGen != m.RGen {
					vsched.Fail("mcmc: %+v becomes %+v", m, d)
				}
				var s = streaming.Conf{Mu: y, Sigma: y, OutRatio: y, RGen: scripted()}
				if d := s; core.PrepareConf(&d) != nil || d.Mu != y || d.Sigma != y || d.OutRatio != y || d.RGen != s.RGen {
					vsched.Fail("streaming: %+v becomes %+v", s, d)
				}
				var c = core.CtrlConf{IterFreq: y}
				if d := (&mockConf{CtrlConf: c}); (core.PrepareConf(d) == nil) != (y > 0) || d.IterFreq != y {
					vsched.Fail("control: %+v becomes %+v", c, d)
				}
			}
		}
		for _, t := range []time.Duration{1, time.Microsecond, 1500 * time.Millisecond, time.Minute + 1, 100 * 24 * time.Hour, math.MaxInt64} {
			for _, sign := range []time.Duration{1, -1} {
				Eval(1)
				var c = core.CtrlConf{Timeout: sign * t}
				if d := (&mockConf{CtrlConf: c}); (core.PrepareConf(d) == nil) != (sign > 0) || d.Timeout != c.Timeout {
					vsched.Fail("control: %+v becomes %+v", c, d)
				}
			}
		}
	})
}
