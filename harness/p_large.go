package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// The scenarios below take every size up to bounds far beyond those of the exhaustive data
// sets, over a few patterns of data: what holds for small sizes may change at a threshold.

// pattern is a deterministic list of scattered numbers without near ties.
func pattern(seed, i int) float64 {
	return float64((i*i*37+i*(71+2*seed)+seed*13)%503) + float64(i)/1024
}

// scattered makes n elements of a dimension.
func scattered(seed, n, dim int) (out [][]float64) {
	for i := 0; i < n; i++ {
		var v = make([]float64, dim)
		for j := range v {
			v[j] = pattern(seed+j, i+j)
		}
		out = append(out, v)
	}
	return
}

func asElemts(rows [][]float64) (out []core.Elemt) {
	for _, r := range rows {
		out = append(out, append([]float64{}, r...))
	}
	return
}

// C14
func largeAssign(maxK, maxN int) (out []Scenario) {
	out = append(out, pure(fmt.Sprintf("the nearest of up to %d centroids, at every place, with a tie at every place", maxK), func() {
		var e = vec(1)
		for k := 1; k <= maxK; k++ {
			var clust = core.Clust(tableElemts(k, -1))
			var d = make([]float64, k)
			for at := 0; at < k; at++ {
				for tie := at; tie < k; tie++ {
					for i := range d {
						d[i] = 2 + float64((i*7)%5)
					}
					d[at], d[tie] = 1, 1
					Eval(1)
					var c, label, dist = clust.Assign(e, table{d: [][]float64{d}})
					if label != at || dist != 1 || c == nil || c.([]float64)[0] != float64(-at-1) {
						vsched.Fail("%d centroids, the nearest ones are %d and %d: the answer is %v, label %d, distance %v", k, at, tie, c, label, dist)
						return
					}
				}
			}
		}
	}))
	out = append(out, pure(fmt.Sprintf("assignments and losses of up to %d elements", maxN), func() {
		var sp = euclid.NewSpace()
		for n := 0; n <= maxN; n++ {
			for _, k := range []int{1, 2, 5, 33} {
				Eval(1)
				var rows, crows = scattered(1, n, 2), scattered(5, k, 2)
				var data, clust = asElemts(rows), core.Clust(asElemts(crows))
				var labels, dists = clust.MapLabel(data, sp)
				if len(labels) != n || len(dists) != n {
					vsched.Fail("%d labels and %d distances of %d elements", len(labels), len(dists), n)
					return
				}
				var losses, cards, total = make([]float64, k), make([]int, k), 0.
				for i := range rows {
					var l, d = refLabel(rows[i], crows)
					if labels[i] != l || !near(dists[i], d) {
						vsched.Fail("element %d of %d, %d centroids: label %d at %v, not %d at %v", i, n, k, labels[i], dists[i], l, d)
						return
					}
					losses[l] += d * d
					cards[l]++
					total += d * d
				}
				var gl, gc = clust.ReduceLoss(data, sp, 2)
				var fl, fc = clust.ReduceLossForLabels(data, labels, sp, 2)
				if !nearVec(gl, losses) || fmt.Sprint(gc) != fmt.Sprint(cards) || !nearVec(fl, losses) || fmt.Sprint(fc) != fmt.Sprint(cards) ||
					!near(clust.TotalLoss(data, sp, 2), total) {
					vsched.Fail("%d elements, %d centroids: losses %v of %v and %v of %v, not %v of %v", n, k, gl, gc, fl, fc, losses, cards)
					return
				}
			}
		}
	}))
	return
}

// C15
func largePartitions(sizes, degrees int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("up to %d elements in up to %d parts, one order", sizes, degrees),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			for degree := 1; degree <= degrees; degree++ {
				for size := 0; size <= sizes; size++ {
					if expired() || vsched.Failed() {
						return
					}
					Eval(1)
					var seen, ranks = make([]int, size), make([]int, degree)
					core.Par(func(start, end, rank int) {
						if start < 0 || end > size || start > end || rank < 0 || rank >= degree {
							vsched.Fail("a part from %d to %d of rank %d, of %d elements in %d parts", start, end, rank, size, degree)
							return
						}
						ranks[rank]++
						for i := start; i < end; i++ {
							seen[i]++
						}
					}, size, degree)
					for i, n := range seen {
						if n != 1 {
							vsched.Fail("element %d of %d is processed %d times in %d parts", i, size, n, degree)
						}
					}
					for r, n := range ranks {
						if n > 1 {
							vsched.Fail("rank %d is used %d times in %d parts of %d elements", r, n, degree, size)
						}
					}
				}
			}
		},
	}
}

// hugePartitions does the same for sizes that cannot be all tried.
func hugePartitions(sizes, degrees []int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%v elements in %v parts, one order", sizes, degrees),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			for _, n := range sizes {
				for _, size := range []int{n - 1, n, n + 1} {
					for _, degree := range degrees {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var seen = make([]uint8, size)
						core.Par(func(start, end, rank int) {
							if start < 0 || end > size || start > end || rank < 0 || rank >= degree {
								vsched.Fail("a part from %d to %d of rank %d, of %d elements in %d parts", start, end, rank, size, degree)
								return
							}
							for i := start; i < end; i++ {
								seen[i]++
							}
						}, size, degree)
						for i, n := range seen {
							if n != 1 {
								vsched.Fail("element %d of %d is processed %d times in %d parts", i, size, n, degree)
								return
							}
						}
					}
				}
			}
		},
	}
}

func largeReductions(sizes []int, degrees []int, k int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("parallel computations on up to %d elements and %d centroids in up to %d parts", sizes[len(sizes)-1], k, degrees[len(degrees)-1]),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			var sp = euclid.NewSpace()
			for _, n := range sizes {
				for _, degree := range degrees {
					if expired() || vsched.Failed() {
						return
					}
					Eval(1)
					var what = fmt.Sprintf("%d elements, %d centroids, %d parts", n, k, degree)
					var data, clust = asElemts(scattered(2, n, 2)), core.Clust(asElemts(scattered(9, k, 2)))
					var before = fmt.Sprint(data, clust)
					var sl, sd = clust.MapLabel(data, sp)
					var pl, pd = clust.ParMapLabel(data, sp, degree)
					if fmt.Sprint(sl) != fmt.Sprint(pl) || !nearVec(sd, pd) {
						vsched.Fail("%s: labels %v, not %v", what, pl, sl)
					}
					var a, ac = clust.ReduceLoss(data, sp, 2)
					var b, bc = clust.ParReduceLoss(data, sp, 2, degree)
					var c, cc = clust.ParReduceLossForLabels(data, sl, sp, 2, degree)
					if !nearVec(a, b) || fmt.Sprint(ac) != fmt.Sprint(bc) || !nearVec(a, c) || fmt.Sprint(ac) != fmt.Sprint(cc) {
						vsched.Fail("%s: losses %v of %v and %v of %v, not %v of %v", what, b, bc, c, cc, a, ac)
					}
					if x, y := clust.TotalLoss(data, sp, 2), clust.ParTotalLoss(data, sp, 2, degree); !near(x, y) {
						vsched.Fail("%s: total loss %v, not %v", what, y, x)
					}
					var sc, scards = clust.ReduceDBA(data, sp)
					var pc, pcards = clust.ParReduceDBA(data, sp, degree)
					var lc, lcards = clust.ParReduceDBAForLabels(data, sl, sp, degree)
					if fmt.Sprint(scards) != fmt.Sprint(pcards) || fmt.Sprint(scards) != fmt.Sprint(lcards) || len(pc) != k || len(lc) != k {
						vsched.Fail("%s: cardinalities %v and %v, not %v", what, pcards, lcards, scards)
						return
					}
					for i := range clust {
						var want = probe.Elemt(sc[i])
						if scards[i] == 0 {
							want = probe.Elemt(clust[i])
						}
						if !nearVec(probe.Elemt(pc[i]), want) || scards[i] > 0 && !nearVec(probe.Elemt(lc[i]), want) {
							vsched.Fail("%s: average %d is %v and %v, not %v", what, i, pc[i], lc[i], want)
						}
					}
					if fmt.Sprint(data, clust) != before {
						vsched.Fail("%s: the arguments were modified", what)
					}
				}
			}
		},
	}
}

func upTo(n int) (out []int) {
	for i := 0; i <= n; i++ {
		out = append(out, i)
	}
	return
}

// C16
func largeAverages(maxN, maxDim int) Scenario {
	return pure(fmt.Sprintf("averages of up to %d elements in up to %d dimensions, of large weights", maxN, maxDim), func() {
		for _, sp := range []vectorSpace{euclid.NewSpace(), cosinus.NewSpace()} {
			for n := 1; n <= maxN; n++ {
				for dim := 1; dim <= maxDim; dim++ {
					for _, scale := range []int{1, 1000} {
						Eval(1)
						var rows = scattered(n, n, dim)
						var data = asElemts(rows)
						var weights = make([]int, n)
						var sum, plain, total = make([]float64, dim), make([]float64, dim), 0.
						for i, r := range rows {
							weights[i] = 1 + scale*(i%7)
							total += float64(weights[i])
							for j, x := range r {
								sum[j] += x * float64(weights[i])
								plain[j] += x
							}
						}
						for j := range sum {
							sum[j] /= total
							plain[j] /= float64(n)
						}
						var before = fmt.Sprint(data)
						var w, err = core.WeightedDBA(data, weights, sp)
						var d, err2 = core.DBA(data, sp)
						if err != nil || err2 != nil || !nearVec(probe.Elemt(w), sum) || !nearVec(probe.Elemt(d), plain) {
							vsched.Fail("%d elements of dimension %d, weights %v: averages %v, %v, not %v, %v", n, dim, weights, w, d, sum, plain)
							return
						}
						if fmt.Sprint(data) != before {
							vsched.Fail("%d elements of dimension %d: an average modified them", n, dim)
							return
						}
					}
				}
			}
		}
	})
}

// C17
func largeSpaces(maxDim int) Scenario {
	return pure(fmt.Sprintf("vectors of up to %d dimensions", maxDim), func() {
		for dim := 1; dim <= maxDim; dim++ {
			var vs = scattered(dim, 4, dim)
			for j := 0; j < dim; j++ { // one coordinate only
				var v = make([]float64, dim)
				v[j] = -2
				vs = append(vs, v)
			}
			for x, a := range vs {
				for y, b := range vs {
					if x >= 8 && y >= 8 && (x+y)%5 != 0 && x != y {
						continue
					}
					Eval(1)
					var sq, dot, na, nb = 0., 0., 0., 0.
					for i := range a {
						sq += (a[i] - b[i]) * (a[i] - b[i])
						dot += a[i] * b[i]
						na += a[i] * a[i]
						nb += b[i] * b[i]
					}
					var d = euclid.NewSpace().Dist(a, b)
					if !near(d, math.Sqrt(sq)) || (d == 0) != (sq == 0) {
						vsched.Fail("dimension %d: the euclidean distance of %v and %v is %v, not %v", dim, a, b, d, math.Sqrt(sq))
						return
					}
					if na > 0 && nb > 0 {
						var c = cosinus.NewSpace().Dist(a, b)
						if want := 1 - dot/math.Sqrt(na*nb); !near(c, want) || c < 0 {
							vsched.Fail("dimension %d: the cosinus distance of %v and %v is %v, not %v", dim, a, b, c, want)
							return
						}
					}
					for _, w := range [][2]int{{1, 1}, {2, 3}, {1, 1000000}, {70000, 1}} {
						for _, sp := range []vectorSpace{euclid.NewSpace(), cosinus.NewSpace()} {
							var before = fmt.Sprint(a, b)
							var c = probe.Elemt(sp.Combine(a, w[0], b, w[1]))
							var want = make([]float64, dim)
							for i := range want {
								want[i] = (a[i]*float64(w[0]) + b[i]*float64(w[1])) / float64(w[0]+w[1])
							}
							if !nearVec(c, want) {
								vsched.Fail("dimension %d: %v of %v and %v of %v make %v", dim, w[0], a, w[1], b, c)
								return
							}
							var e = sp.Copy(a).([]float64)
							if fmt.Sprint(e) != fmt.Sprint(a) {
								vsched.Fail("dimension %d: the copy of %v is %v", dim, a, e)
								return
							}
							e[dim-1]++
							c[dim-1]++
							if fmt.Sprint(a, b) != before {
								vsched.Fail("dimension %d: the arguments %s were modified", dim, before)
								return
							}
							if sp.Dim([]core.Elemt{a, b}) != dim {
								vsched.Fail("the dimension of %v is %d", a, sp.Dim([]core.Elemt{a, b}))
								return
							}
						}
					}
				}
			}
		}
	})
}

// C18, C19
func largeSeries(max int, windows []int, dist, average bool) Scenario {
	return pure(fmt.Sprintf("series of every lengths up to %d, windows %v", max, windows), func() {
		var inner = euclid.NewSpace()
		for l1 := 1; l1 <= max; l1++ {
			for l2 := 1; l2 <= max; l2++ {
				for _, window := range windows {
					for _, dim := range []int{1, 3} {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var s1, s2 = scattered(l2, l1, dim), scattered(l1+3, l2, dim)
						var keep = fmt.Sprint(s1, s2)
						var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
						var what = fmt.Sprintf("lengths %d and %d, window %d, dimension %d", l1, l2, window, dim)
						var a, b = shrunk(s1, s2, window)
						if dist {
							var want = dynamic(a, b, inner.PointDist, window)
							if d, back := sp.Dist(s1, s2), sp.Dist(s2, s1); !near(d, want) || !near(back, want) {
								vsched.Fail("%s: the distances are %v and %v, not %v", what, d, back, want)
							}
							var t = dtw.NewDTWWindow(a, b, inner, window)
							var cost, bad = checkPath(t.Path(), a, b, inner.PointDist, window)
							if bad != "" || !near(cost, want) || !near(t.Dist(), want) {
								vsched.Fail("%s: the path costs %v and the distance is %v, not %v %s", what, cost, t.Dist(), want, bad)
							}
						}
						if average {
							for _, w := range [][2]int{{1, 1}, {1, 3}, {1000, 1}, {3, 200000}, {100000, 99999}, {0, 2}, {1, 0}} {
								var t = dtw.NewDTWWindow(a, b, inner, window)
								var want = pathAverage(t.Path(), a, b, w[0], w[1])
								if d := t.DBA(w[0], w[1]); !nearSeries(d, want) {
									vsched.Fail("%s, weights %v: the average is %v, not %v", what, w, d, want)
								}
								var c = sp.Combine(s1, w[0], s2, w[1]).([][]float64)
								if len(c) != len(want) {
									vsched.Fail("%s, weights %v: the average has %d points, not %d", what, w, len(c), len(want))
								}
							}
							if window == windows[0] && l2 > 1 {
								if r := dtw.Resize(s2, l1, inner); !nearSeries(r, resized(s2, l1)) {
									vsched.Fail("a series of %d resized to %d: %v, not %v", l2, l1, r, resized(s2, l1))
								}
							}
							var c = sp.Copy(s1).([][]float64)
							if fmt.Sprint(c) != fmt.Sprint(s1) || sp.Dim([]core.Elemt{s1}) != dim {
								vsched.Fail("%s: a copy is %v, the dimension %d", what, c, sp.Dim([]core.Elemt{s1}))
							}
							c[l1-1][dim-1]++
						}
						if fmt.Sprint(s1, s2) != keep {
							vsched.Fail("%s: the series were modified", what)
						}
					}
				}
			}
		}
	})
}

// C20
func largeInits(maxN int) Scenario {
	return pure(fmt.Sprintf("initializers of up to %d elements", maxN), func() {
		var sp = euclid.NewSpace()
		for n := 1; n <= maxN; n++ {
			var rows = scattered(4, n, 2)
			var data = asElemts(rows)
			var before = fmt.Sprint(data)
			for k := 1; k <= n+1; k++ {
				if expired() || vsched.Failed() {
					return
				}
				for _, name := range []string{"given", "rand", "pp"} {
					Eval(1)
					var what = fmt.Sprintf("%d %s out of %d", k, name, n)
					var c, err = kmeans.CreateInitializer(name)(k, data, sp, rand.New(rand.NewSource(uint64(n*100+k))))
					if (err == nil) != (k <= n) {
						vsched.Fail("%s: %v", what, err)
						continue
					}
					if !initialized(what, data, k, c, err) {
						continue
					}
					var used = map[int]bool{}
					for i, e := range c {
						var at = -1
						for j, r := range rows {
							if nearVec(r, e.([]float64)) && !used[j] && (at < 0 || name != "given") {
								at = j
							}
						}
						if at < 0 || name == "given" && at != i {
							vsched.Fail("%s: the centroid %d is %v, the element %d", what, i, e, at)
							break
						}
						used[at] = true
					}
				}
			}
			if fmt.Sprint(data) != before {
				vsched.Fail("initializing modifies %d elements", n)
			}
		}
		// choices among many: the middle of each share
		for n := 1; n <= maxN; n++ {
			var w, sum = make([]float64, n), 0.
			for i := range w {
				w[i] = float64((i*5 + n) % 4)
				sum += w[i]
			}
			var cum = 0.
			for i, x := range w {
				if x > 0 {
					Eval(1)
					var j, err = kmeans.WeightedChoice(w, newScripted((cum+x/2)/sum))
					if err != nil || j != i {
						vsched.Fail("the draw %v among %v chooses %d, not %d", (cum+x/2)/sum, w, j, i)
						return
					}
				}
				cum += x
			}
		}
	})
}

// C21
func largeSteps(sizes, ks, degrees []int, dim int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("iterations on up to %d elements, %v centroids, %v parts, dimension %d", sizes[len(sizes)-1], ks, degrees, dim),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			var sp = euclid.NewSpace()
			for _, n := range sizes {
				for _, k := range ks {
					if k > n && n > 0 {
						continue
					}
					var rows, crows = scattered(n, n, dim), scattered(k+n, k, dim)
					if !clearCut(rows, crows) {
						continue
					}
					var want = lloyd(rows, crows)
					for _, degree := range degrees {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var strategy kmeans.Strategy = &kmeans.SeqStrategy{}
						if degree > 0 {
							strategy = kmeans.ParStrategy{Degree: degree}
						}
						var data, clust = asElemts(rows), core.Clust(asElemts(crows))
						var got = strategy.Iterate(sp, clust, data)
						if !nearSeries(raw(got), want) {
							vsched.Fail("%d elements, %d centroids, degree %d: %v, not %v", n, k, degree, raw(got), want)
							return
						}
						if fmt.Sprint(raw(data), raw(clust)) != fmt.Sprint(rows, crows) {
							vsched.Fail("%d elements, %d centroids, degree %d: an iteration modifies its arguments", n, k, degree)
							return
						}
					}
				}
			}
		},
	}
}

func largeRuns(n, k, iter int, par bool) Scenario {
	return Scenario{
		Name: fmt.Sprintf("up to %d iterations on %d elements in %d clusters, parallel %v", iter, n, k, par),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			var rows = scattered(3, n, 2)
			var want = rows[:k]
			for i := 1; i <= iter; i++ {
				if !clearCut(rows, want) {
					break
				}
				want = lloyd(rows, want)
				Eval(1)
				var conf = kmeans.Conf{CtrlConf: core.CtrlConf{Iter: i}, K: k, Par: par, NumCPU: 5, RGen: scripted()}
				var algo = kmeans.NewAlgo(conf, euclid.NewSpace(), asElemts(rows), kmeans.GivenInitializer)
				if err := algo.Batch(); err != nil {
					vsched.Fail("%v", err)
				}
				if got := raw(algo.Centroids()); !nearSeries(got, want) {
					vsched.Fail("%d iterations: %v, not %v", i, got, want)
					return
				}
			}
		},
	}
}

// C22
func longChains(depth int) (out []Scenario) {
	var some = func(cc chainConf, depth, times int) Scenario {
		return pure(fmt.Sprintf("%v, %d long chains of %d iterations", cc, times, depth), func() {
			var moves = 3 * len(chainDraws) * len(chainShifts)
			for a := 1; a <= times; a++ {
				if expired() || vsched.Failed() {
					return
				}
				var ix = make([]int, depth)
				for i := range ix {
					var dir = []int{2, 1, 2, 0, 1, 2, 2, 0, 1, 0}[(i*a/3+i/5)%10]
					ix[i] = dir + 3*((i*i*a+i*5+a)%(moves/3))
					if len(cc.feed) > 0 && (i*a)%7 == 3 {
						ix[i] += moves
					}
				}
				runChain(cc, ix)
			}
		})
	}
	var one = func(cc chainConf) Scenario { return some(cc, depth, 40) }
	for _, par := range []bool{false, true} {
		out = append(out, one(chainConf{2, 12, .02, 1, 2, par, scattered(1, 24, 2), nil, 0, false, 0}))
		out = append(out, one(chainConf{1, 20, .001, .5, 1, par, scattered(7, 40, 1), nil, 0, false, 0}))
		out = append(out, one(chainConf{1, 6, .01, 1, 2, par, scattered(3, 8, 1), [][]float64{{100.3}}, 0, false, 2}))
		out = append(out, one(chainConf{1, 6, .01, 1, 2, par, scattered(3, 8, 1), [][]float64{{100.3}}, 20, false, 2}))
		for _, n := range []int{1003, 1500, 2601, 5001} { // many elements
			out = append(out, some(chainConf{1, 6, 1e-7, 1, 2, par, scattered(5, n, 1), nil, 0, false, 0}, 12, 3))
		}
		out = append(out, some(chainConf{1, 4, 1e-7, 1, 2, par, scattered(5, 5001, 1), [][]float64{{100.3}}, 0, false, 2}, 12, 3))
		out = append(out, some(chainConf{1, 3, 1e-9, 1, 2, par, scattered(5, giant, 1), nil, 0, false, 0}, 5, 1))
	}
	return
}

// zigzags goes up to a number of clusters and down to another one, again and again: the centers
// accepted last with a number are those of long ago.
func zigzags(most, times int) (out []Scenario) {
	for _, par := range []bool{false, true} {
		for _, dim := range []int{1, 2} {
			var cc = chainConf{1, most, .001, 1, 2, par, scattered(5, most+4, dim), nil, 0, false, 0}
			out = append(out, pure(fmt.Sprintf("%v, up and down %d times", cc, times), func() {
				for p := 2; p <= most; p++ {
					for q := 1; q < p; q++ {
						for every := 0; every < 5; every++ {
							if expired() || vsched.Failed() {
								return
							}
							var dirs []int
							for k := 1; k < p; k++ {
								dirs = append(dirs, 2)
							}
							for t := 0; t < times; t++ {
								for k := q; k < p; k++ {
									dirs = append(dirs, 0)
								}
								for k := q; k < p; k++ {
									dirs = append(dirs, 2)
								}
							}
							var ix = make([]int, len(dirs))
							for i, d := range dirs {
								var draw = 0
								if every > 0 && i%(every+3) == every {
									draw = len(chainDraws) - 1 // refused, unless it is better
								}
								ix[i] = d + 3*(draw+len(chainDraws)*((i+every)%len(chainShifts)))
							}
							runChain(cc, ix)
						}
					}
				}
			}))
		}
	}
	return
}

// C23
func longStreams(max int) (out []Scenario) {
	for _, sc := range []streamConf{
		{-10, 1.6, 5, 300}, {.4, 1.6, 5, 300}, {10, 50, 5, 300}, {.3, .9, 40, 64}, {10, 1.2, 100, 20}, {.97, 1.01, 3, 7}, {.5, 2, 5, 100},
	} {
		var sc = sc
		for _, every := range []int{0, 1, 2, 3} {
			var every = every
			out = append(out, pure(fmt.Sprintf("%+v, up to %d elements, iterations between %d of 3", sc, max, every), func() {
				var points = scattered(11, 97, 2)
				for n := 1; n <= max; n += 1 + n/8 {
					if expired() || vsched.Failed() {
						return
					}
					var ix = make([]int, n)
					for i := range ix {
						ix[i] = 2 * ((i*i + 5*i) % len(points))
						if i%3 < every {
							ix[i]++
						}
					}
					stream(sc, points, ix)
				}
			}))
		}
	}
	return
}

// growingStreams sends most elements around two points, and now and then one that is further
// and further away, in one of several directions.
func growingStreams(max int) (out []Scenario) {
	for _, sc := range []streamConf{
		{1.5, 4, 5, 1000}, {1.5, 4, 64, 1000}, {1.5, 4, 100, 1000}, {10, 4, 20, 1000}, {100, 1000, 0, 1000}, {1.1, 1.2, 300, 1000}, {.9, 1.7, 70, 1000}, {1.9, 2.1, 129, 1000},
	} {
		var sc = sc
		out = append(out, pure(fmt.Sprintf("%+v, up to %d elements, growing distances", sc, max), func() {
			for _, growth := range []float64{1.05, 1.3, 1.8, 3, 6} {
				for _, period := range []int{2, 7, 13, 31, 64} {
					for _, ways := range []int{1, 2, 4} {
						if expired() || vsched.Failed() {
							return
						}
						var points [][]float64
						var far = 40.
						if ways == 1 { // two clusters from the beginning
							points = append(points, []float64{0, 0}, []float64{.5, 0})
						}
						for i := len(points); i < max; i++ {
							var x = []float64{float64(i%2)*50 + pattern(2, i)/100, pattern(4, i) / 100}
							if i%period == period-1 && far < 1e15 {
								var way = (i / period) % ways
								far *= growth
								x[way%2] += far * float64(1-way/2*2)
							}
							points = append(points, x)
						}
						var ix = make([]int, max)
						for i := range ix {
							ix[i] = 2*i + i%2
						}
						stream(sc, points, ix)
					}
				}
			}
		}))
	}
	return
}

// C11
func largeBatches(most int) Scenario {
	return long(fmt.Sprintf("batches of up to %d elements", most), func() {
		for _, size := range []int{0, 1, 1000, most / 2, 2 * most} {
			for n := 1; n <= most; n += 1 + 3*n {
				for _, batches := range []int{1, 3} {
					if expired() || vsched.Failed() {
						return
					}
					Eval(1)
					var b = core.NewDataBuffer([]core.Elemt{vec(0), vec(1)}, size)
					var all = []int{0, 1}
					for k := 0; k < batches; k++ {
						for i := 0; i < n; i++ {
							b.Push(vec(float64(len(all))), true)
							all = append(all, len(all))
						}
						if k == 1 {
							b.Push(vec(float64(len(all))), false) // not running: everything at once
							all = append(all, len(all))
						} else {
							b.Apply()
						}
						if got, want := idsOf(b.Data()), lastOf(all, size); !sameData(got, want, size) {
							vsched.Fail("size %d, batch %d of %d elements: holds %d elements, not %d, or not the same ones", size, k+1, n, len(got), len(want))
							return
						}
					}
				}
			}
		}
	})
}

func longBuffers(n int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("buffers of many sizes, %d operations", n),
		Opt:  vsched.Options{MaxSteps: sweepSteps},
		Body: func() {
			var ops = []string{"stage", "store", "apply"}
			for _, size := range []int{0, 1, 2, 3, 5, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 129} {
				for _, initial := range []int{0, 1, 7, 33, 70, 140} {
					for p := 0; p < 6; p++ {
						if expired() || vsched.Failed() {
							return
						}
						Eval(1)
						var seq = make([]int, n)
						for i := range seq {
							switch p {
							case 0: // one by one
								seq[i] = 1
							case 1: // all at once
								if i == n-1 {
									seq[i] = 2
								}
							case 2: // larger and larger batches
								if k := int(math.Sqrt(float64(i))); k*k == i {
									seq[i] = 2
								}
							case 3:
								seq[i] = []int{0, 0, 1, 0, 2, 1, 1}[i%7]
							case 4: // staged, then stored
								if i > n/2 {
									seq[i] = 1
								}
							case 5: // batches of 40
								if i%41 == 40 {
									seq[i] = 2
								}
							}
						}
						bufferRun(size, initial, seq, ops)
					}
				}
			}
		},
	}
}
