package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"verif/vsched"
)

// ---- C21: k-means ---------------------------------------------------------------------

func vecs(points [][]float64, ix []int) (out []core.Elemt) {
	for _, i := range ix {
		out = append(out, append([]float64{}, points[i]...))
	}
	return
}

// distances of a reference, independent of the spaces
func refDist(a, b []float64) float64 {
	var sum = 0.
	for i := range a {
		sum += (a[i] - b[i]) * (a[i] - b[i])
	}
	return math.Sqrt(sum)
}

func refLabel(x []float64, clust [][]float64) (label int, dist float64) {
	label, dist = -1, math.Inf(1)
	for i, c := range clust {
		if d := refDist(x, c); label < 0 || d < dist {
			label, dist = i, d
		}
	}
	return
}

// lloyd is an iteration of k-means.
func lloyd(data, clust [][]float64) [][]float64 {
	var out = make([][]float64, len(clust))
	var cards = make([]int, len(clust))
	for i, c := range clust {
		out[i] = make([]float64, len(c))
	}
	for _, x := range data {
		var l, _ = refLabel(x, clust)
		cards[l]++
		for k := range x {
			out[l][k] += x[k]
		}
	}
	for i, c := range clust {
		for k := range c {
			if cards[i] == 0 {
				out[i][k] = c[k]
			} else {
				out[i][k] /= float64(cards[i])
			}
		}
	}
	return out
}

func refLoss(data, clust [][]float64, norm float64) (loss float64) {
	for _, x := range data {
		var _, d = refLabel(x, clust)
		loss += math.Pow(d, norm)
	}
	return
}

func raw(l []core.Elemt) (out [][]float64) {
	for _, e := range l {
		out = append(out, e.([]float64))
	}
	return
}

// clearCut tells whether no element is at the same distance of two centroids up to
// rounding: otherwise rounding decides.
func clearCut(data, clust [][]float64) bool {
	for _, x := range data {
		var l, d = refLabel(x, clust)
		for i, c := range clust {
			if e := refDist(x, c); i != l && e != d && near(e, d) {
				return false
			}
		}
	}
	return true
}

// iterations compares the strategies with Lloyd's algorithm from every centroids.
func kmeansSteps(points, starts [][]float64, n, k int) Scenario {
	return pure(fmt.Sprintf("iterations, %d elements out of %d in dimension %d, %d centroids", n, len(points), len(points[0]), k), func() {
		var space = euclid.NewSpace()
		forAll(append(same(len(points), n), same(len(starts), k)...), func(ix []int) {
			var data, clust = vecs(points, ix[:n]), core.Clust(vecs(starts, ix[n:]))
			var before = fmt.Sprint(raw(data), raw(clust))
			var want = lloyd(raw(data), raw(clust))
			for degree := 0; degree <= 3; degree++ {
				var strategy kmeans.Strategy = &kmeans.SeqStrategy{}
				if degree > 0 {
					strategy = kmeans.ParStrategy{Degree: degree}
				}
				var got = strategy.Iterate(space, clust, data)
				Eval(1)
				if !nearSeries(raw(got), want) {
					vsched.Fail("degree %d, elements and centroids %s: %v, not %v", degree, before, raw(got), want)
					return
				}
				if a, b := refLoss(raw(data), raw(clust), 2), refLoss(raw(data), raw(got), 2); b > a && !near(a, b) {
					vsched.Fail("degree %d, elements and centroids %s: the loss goes from %v to %v", degree, before, a, b)
				}
				if fmt.Sprint(raw(data), raw(clust)) != before {
					vsched.Fail("degree %d: an iteration modifies %s", degree, before)
					return
				}
				for _, c := range got {
					for _, d := range data {
						if &c.([]float64)[0] == &d.([]float64)[0] {
							vsched.Fail("degree %d, elements and centroids %s: a centroid shares memory with an element", degree, before)
						}
					}
				}
			}
		})
	})
}

// kmeansRuns runs the whole algorithm from given centroids for every data set.
func kmeansRuns(points [][]float64, n int, par, series bool) Scenario {
	return Scenario{
		Name: fmt.Sprintf("runs on %d elements out of %d in dimension %d, parallel %v, series %v", n, len(points), len(points[0]), par, series),
		Opt:  vsched.Options{MaxSteps: 1 << 20},
		Body: func() {
			var ix = make([]int, n)
			for i := range ix {
				ix[i] = vsched.Choose(len(points), 0, "element")
			}
			var k = 1 + vsched.Choose(3, 0, "clusters")
			var iter = 1 + vsched.Choose(3, 0, "iterations")
			var frame = vsched.Choose(2, 0, "frame") * n
			if k > n {
				return
			}
			var data = vecs(points, ix)
			var want = raw(vecs(points, ix[:k]))
			var clear = true
			for i := 0; i < iter; i++ {
				clear = clear && clearCut(raw(data), want)
				want = lloyd(raw(data), want)
			}
			clear = clear && clearCut(raw(data), want)
			if !clear {
				return
			}
			var conf = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: iter}, K: k, Par: par, NumCPU: 2, FrameSize: frame, RGen: scripted()}
			var space core.Space = euclid.NewSpace()
			var elts = data
			if series { // one-point series are vectors
				space = dtw.NewSpace(dtw.Conf{InnerSpace: euclid.NewSpace()})
				elts = nil
				for _, x := range raw(data) {
					elts = append(elts, [][]float64{x})
				}
			}
			var read = func(c core.Clust) (out [][]float64) {
				for _, e := range c {
					if series {
						if s := e.([][]float64); len(s) == 1 {
							out = append(out, s[0])
						}
					} else {
						out = append(out, e.([]float64))
					}
				}
				return
			}
			var before = fmt.Sprint(elts)
			var algo = kmeans.NewAlgo(conf, space, elts, kmeans.GivenInitializer)
			for run := 0; run < 2; run++ {
				if err := algo.Batch(); err != nil {
					vsched.Fail("%v", err)
				}
				var got = algo.Centroids()
				if !nearSeries(read(got), want) {
					vsched.Fail("run %d, %d iterations on %s in %d clusters: %v, not %v", run, iter, before, k, read(got), want)
				}
				if n := int(algo.RuntimeFigures()[core.Iterations]); n != iter {
					vsched.Fail("%d iterations instead of %d", n, iter)
				}
				for i, e := range elts {
					var wl, wd = refLabel(raw(data)[i], want)
					var p, l, d = algo.Predict(e)
					if l != wl || !near(d, wd) || !nearSeries(read(core.Clust{p}), want[wl:wl+1]) {
						vsched.Fail("the prediction for %v is %v %d at %v among %v", e, p, l, d, want)
					}
				}
			}
			if fmt.Sprint(elts) != before {
				vsched.Fail("running modifies the data %s", before)
			}
			vsched.SetOutcome(fmt.Sprint(want))
		},
	}
}

func regC21() {
	register(&Property{
		ID: "C21",
		Scenarios: func(thorough bool) (out []Scenario) {
			var line, starts = points1(0, 1, 3, 8), points1(0, 1, 2.5, 7, 20)
			var plane = [][]float64{{0, 0}, {1, 0}, {0, 3}, {5, 5}}
			var max = 4
			if thorough {
				max = 5
			}
			if thorough {
				out = append(out, largeSteps(upTo(150), []int{1, 2, 3, 5, 10}, upTo(12), 2), largeSteps([]int{64, 200, 500}, []int{16, 40}, upTo(40), 3))
			} else {
				out = append(out, largeSteps(upTo(70), []int{1, 2, 5}, []int{0, 1, 2, 5, 8}, 2), largeSteps([]int{64, 200}, []int{16, 40}, []int{0, 3, 20}, 3))
			}
			out = append(out, giantSteps(), noData())
			for _, par := range []bool{false, true} {
				out = append(out, largeRuns(80, 7, 12, par))
			}
			for n := 0; n <= max; n++ {
				for k := 1; k <= 3; k++ {
					out = append(out, kmeansSteps(line, starts, n, k))
					if n < 5 {
						out = append(out, kmeansSteps(plane, [][]float64{{0, 0}, {1, 1}, {-9, 2}}, n, k))
					}
				}
			}
			for n := 1; n <= max; n++ {
				for _, par := range []bool{false, true} {
					out = append(out, kmeansRuns(line, n, par, false), kmeansRuns(plane, n, par, false))
					if n < 4 {
						out = append(out, kmeansRuns(line, n, par, true))
					}
				}
			}
			return
		},
		Rule:   "every list of up to 4 (5) elements out of 4 and of up to 3 centroids, sequential and parallel in up to 3 parts: each iteration against the definition of Lloyd's algorithm; the whole algorithm for 1 to 3 iterations, twice, with its predictions; arguments unchanged; larger data sets along the sweeps",
		Assume: []string{"data sets of up to 5 elements", "runs on which rounding would decide a tie are left out"},
	})
}

func init() { regC21() }
