package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/cosinus"
	"github.com/wearelumenai/distclus/dtw"
	"github.com/wearelumenai/distclus/euclid"
	"verif/vsched"
)

// seriesOf lists the series of n points out of the given ones.
func seriesOf(points [][]float64, n int) (out [][][]float64) {
	forAll(same(len(points), n), func(ix []int) {
		var s = make([][]float64, n)
		for i, x := range ix {
			s[i] = append([]float64{}, points[x]...)
		}
		out = append(out, s)
	})
	return
}

func points1(values ...float64) (out [][]float64) {
	for _, v := range values {
		out = append(out, []float64{v})
	}
	return
}

// bruteForce is the least cost of the warping paths that stay within the window, found
// by enumerating them all.
func bruteForce(s1, s2 [][]float64, dist func(a, b []float64) float64, window int) float64 {
	var best = math.Inf(1)
	var walk func(i, j int, cost float64)
	walk = func(i, j int, cost float64) {
		if i >= len(s1) || j >= len(s2) {
			return
		}
		if window > 0 && (i-j > window || j-i > window) {
			return
		}
		cost += dist(s1[i], s2[j])
		if i == len(s1)-1 && j == len(s2)-1 {
			if cost < best {
				best = cost
			}
			return
		}
		walk(i+1, j, cost)
		walk(i, j+1, cost)
		walk(i+1, j+1, cost)
	}
	walk(0, 0, 0)
	return best
}

// dynamic is the same by dynamic programming over the whole matrix.
func dynamic(s1, s2 [][]float64, dist func(a, b []float64) float64, window int) float64 {
	var m = make([][]float64, len(s1))
	for i := range s1 {
		m[i] = make([]float64, len(s2))
		for j := range s2 {
			var best = math.Inf(1)
			if i == 0 && j == 0 {
				best = 0
			}
			if i > 0 {
				best = math.Min(best, m[i-1][j])
			}
			if j > 0 {
				best = math.Min(best, m[i][j-1])
			}
			if i > 0 && j > 0 {
				best = math.Min(best, m[i-1][j-1])
			}
			m[i][j] = best + dist(s1[i], s2[j])
			if window > 0 && (i-j > window || j-i > window) {
				m[i][j] = math.Inf(1)
			}
		}
	}
	return m[len(s1)-1][len(s2)-1]
}

// anyPath says whether a path of least cost satisfies a predicate.
func anyPath(s1, s2 [][]float64, dist func(a, b []float64) float64, window int, pred func([]dtw.Ends) bool) (found bool) {
	var least = dynamic(s1, s2, dist, window)
	var walk func(i, j int, cost float64, path []dtw.Ends)
	walk = func(i, j int, cost float64, path []dtw.Ends) {
		if found || i >= len(s1) || j >= len(s2) || window > 0 && (i-j > window || j-i > window) {
			return
		}
		cost += dist(s1[i], s2[j])
		if cost > least && !near(cost, least) {
			return
		}
		path = append(append([]dtw.Ends{}, path...), dtw.Ends{End0: i, End1: j})
		if i == len(s1)-1 && j == len(s2)-1 {
			var back []dtw.Ends // from the end to the beginning
			for k := len(path) - 1; k >= 0; k-- {
				back = append(back, path[k])
			}
			found = pred(back)
			return
		}
		walk(i+1, j, cost, path)
		walk(i, j+1, cost, path)
		walk(i+1, j+1, cost, path)
	}
	walk(0, 0, 0, nil)
	return
}

// checkPath says what is wrong with a warping path (from the end to the beginning).
func checkPath(path []dtw.Ends, s1, s2 [][]float64, dist func(a, b []float64) float64, window int) (cost float64, bad string) {
	if len(path) == 0 {
		return 0, "it is empty"
	}
	var first, last = path[0], path[len(path)-1]
	if first.End0 != len(s1)-1 || first.End1 != len(s2)-1 || last.End0 != 0 || last.End1 != 0 {
		return 0, "it does not go from an end to the other"
	}
	for i, e := range path {
		if i > 0 {
			var d0, d1 = path[i-1].End0 - e.End0, path[i-1].End1 - e.End1
			if d0 < 0 || d0 > 1 || d1 < 0 || d1 > 1 || d0+d1 == 0 {
				return 0, "it jumps"
			}
		}
		if window > 0 && (e.End0-e.End1 > window || e.End1-e.End0 > window) {
			return 0, "it leaves the window"
		}
		cost += dist(s1[e.End0], s2[e.End1])
	}
	return
}

// resized is the series at size regularly spaced positions.
func resized(s [][]float64, size int) [][]float64 {
	var out = make([][]float64, size)
	for i := range out {
		var pos = 0.
		if size > 1 {
			pos = float64(i) * float64(len(s)-1) / float64(size-1)
		}
		out[i] = at(s, pos)
	}
	return out
}

// at is a point of a series seen as a piecewise linear curve.
func at(s [][]float64, pos float64) []float64 {
	var i = int(math.Floor(pos + 1e-9))
	if i >= len(s)-1 {
		i = len(s) - 1
		return s[i]
	}
	var r = pos - float64(i)
	if r < 1e-9 {
		return s[i]
	}
	var p = make([]float64, len(s[i]))
	for k := range p {
		p[k] = s[i][k]*(1-r) + s[i+1][k]*r
	}
	return p
}

func nearSeries(a, b [][]float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !nearVec(a[i], b[i]) {
			return false
		}
	}
	return true
}

func shrunk(s1, s2 [][]float64, window int) (a, b [][]float64) {
	a, b = s1, s2
	if window > 0 && len(s1) > len(s2)+window {
		a = resized(s1, len(s2)+window)
	}
	if window > 0 && len(s2) > len(s1)+window {
		b = resized(s2, len(s1)+window)
	}
	return
}

func regC18() {
	var pairs = func(name string, inner dtw.PointSpace, points [][]float64, l1, l2, window int) Scenario {
		return pure(fmt.Sprintf("%s, %d points, lengths %d and %d, window %d", name, len(points), l1, l2, window), func() {
			var within = window == 0 || l1-l2 <= window && l2-l1 <= window
			var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
			var all2 = seriesOf(points, l2)
			for _, s1 := range seriesOf(points, l1) {
				var keep1 = fmt.Sprint(s1)
				for _, s2 := range all2 {
					Eval(1)
					if vsched.Failed() {
						return
					}
					// the space resizes the longest series first
					var a, b = shrunk(s1, s2, window)
					var want = dynamic(a, b, inner.PointDist, window)
					if len(a) <= 3 && len(b) <= 3 {
						if w := bruteForce(a, b, inner.PointDist, window); !near(w, want) {
							panic("the oracles differ")
						}
					}
					var d = sp.Dist(s1, s2)
					if !near(d, want) {
						vsched.Fail("the distance of %v and %v is %v, not %v", s1, s2, d, want)
					}
					if back := sp.Dist(s2, s1); !near(back, d) {
						vsched.Fail("the distances of %v and %v are %v and %v", s1, s2, d, back)
					}
					if l1 == l2 && fmt.Sprint(s1) == fmt.Sprint(s2) && !(math.Abs(d) <= 1e-9) {
						vsched.Fail("the distance of %v to itself is %v", s1, d)
					}
					if !within {
						continue
					}
					var w = dtw.NewDTWWindow(s1, s2, inner, window)
					if !near(w.Dist(), want) {
						vsched.Fail("the warped distance of %v and %v is %v, not %v", s1, s2, w.Dist(), want)
					}
					var cost, bad = checkPath(w.Path(), s1, s2, inner.PointDist, window)
					if bad != "" {
						vsched.Fail("the path %v of %v and %v: %s", w.Path(), s1, s2, bad)
					} else if !near(cost, want) {
						vsched.Fail("the path %v of %v and %v costs %v, not %v", w.Path(), s1, s2, cost, want)
					}
					if window == 0 {
						if x := dtw.NewDTW(s1, s2, inner); !near(x.Dist(), want) {
							vsched.Fail("the unconstrained distance of %v and %v is %v, not %v", s1, s2, x.Dist(), want)
						} else if cost, bad := checkPath(x.Path(), s1, s2, inner.PointDist, 0); bad != "" || !near(cost, want) {
							vsched.Fail("the unconstrained path %v of %v and %v: cost %v %s", x.Path(), s1, s2, cost, bad)
						}
					}
				}
				if fmt.Sprint(s1) != keep1 {
					vsched.Fail("a distance modifies %s", keep1)
				}
			}
		})
	}
	register(&Property{
		ID: "C18",
		Scenarios: func(thorough bool) (out []Scenario) {
			var e, c = euclid.NewSpace(), cosinus.NewSpace()
			var max = 7
			out = append(out, giantSeries(false))
			if thorough {
				out = append(out, largeSeries(60, []int{0, 1, 2, 3, 4, 5, 7, 9, 12, 20, 40}, true, false))
			} else {
				out = append(out, largeSeries(24, []int{0, 1, 2, 5, 9, 16}, true, false))
			}
			for l1 := 1; l1 <= 4; l1++ {
				for l2 := 1; l2 <= 4; l2++ {
					out = append(out, scaledSeries(l1, l2))
				}
			}
			for l1 := 1; l1 <= max; l1++ {
				for l2 := 1; l2 <= max; l2++ {
					for window := 0; window <= 5; window++ {
						var p = points1(0, 1, 3)
						if l1+l2 > 8 && !thorough || l1+l2 > 11 {
							p = points1(0, 2)
						}
						out = append(out, pairs("euclid", e, p, l1, l2, window))
						if l1+l2 <= 6 {
							out = append(out, pairs("plane", e, [][]float64{{0, 1}, {1, 0}, {2, 2}}, l1, l2, window))
							out = append(out, pairs("cosinus", c, [][]float64{{0, 1}, {1, 0.5}, {-2, 2}}, l1, l2, window))
						}
					}
				}
			}
			return
		},
		Rule:   "every pair of series of lengths 1 to 7 over 2 or 3 points and every window, against the least cost over all warping paths (dynamic programming over the whole matrix, itself compared with the enumeration of the paths up to length 3), symmetry, and the validity and the cost of the path; every pair of lengths of the sweep along one data set; values at scales from 1e-60 to 1e60",
		Assume: []string{"series of length up to 7 over 2 or 3 points"},
	})
}

// pathAverage is an average along a path, seen as a curve and read at integral positions
func pathAverage(path []dtw.Ends, a, b [][]float64, w1, w2 int) [][]float64 {
	type knot struct {
		x float64
		p []float64
	}
	var knots []knot
	for i := len(path) - 1; i >= 0; i-- {
		var e = path[i]
		var p = make([]float64, len(a[0]))
		for k := range p {
			p[k] = (a[e.End0][k]*float64(w1) + b[e.End1][k]*float64(w2)) / float64(w1+w2)
		}
		knots = append(knots, knot{float64(e.End0*w1+e.End1*w2) / float64(w1+w2), p})
	}
	var n = ((len(a)-1)*w1+(len(b)-1)*w2)/(w1+w2) + 1
	var out [][]float64
	for i := 0; i < n; i++ {
		var x = float64(i)
		for j := range knots {
			if math.Abs(knots[j].x-x) < 1e-9 {
				out = append(out, knots[j].p)
				break
			}
			if knots[j].x > x {
				var r = (x - knots[j-1].x) / (knots[j].x - knots[j-1].x)
				var p = make([]float64, len(a[0]))
				for k := range p {
					p[k] = knots[j-1].p[k]*(1-r) + knots[j].p[k]*r
				}
				out = append(out, p)
				break
			}
		}
	}
	return out
}

func regC19() {
	var inner = euclid.NewSpace()
	var averages = func(points [][]float64, l1, l2, window int) Scenario {
		return pure(fmt.Sprintf("averages, %d points, lengths %d and %d, window %d", len(points), l1, l2, window), func() {
			var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: window})
			var all2 = seriesOf(points, l2)
			for _, s1 := range seriesOf(points, l1) {
				for _, s2 := range all2 {
					var keep = fmt.Sprint(s1, s2)
					var a, b = shrunk(s1, s2, window)
					for _, w := range [][2]int{{1, 1}, {1, 2}, {2, 1}, {3, 1}, {1, 3}, {3, 2}, {5, 2}, {0, 1}, {2, 0}} {
						Eval(1)
						if vsched.Failed() {
							return
						}
						var t = dtw.NewDTWWindow(a, b, inner, window)
						var want = pathAverage(t.Path(), a, b, w[0], w[1])
						var c = sp.Combine(s1, w[0], s2, w[1]).([][]float64)
						// the rounding of resized series may favour another path of the same cost
						if !nearSeries(c, want) && !anyPath(a, b, inner.PointDist, window, func(path []dtw.Ends) bool {
							return nearSeries(c, pathAverage(path, a, b, w[0], w[1]))
						}) {
							vsched.Fail("window %d: %d %v and %d %v make %v, not %v", window, w[0], s1, w[1], s2, c, want)
						}
						if d := t.DBA(w[0], w[1]); !nearSeries(d, want) {
							vsched.Fail("window %d: %d %v and %d %v average to %v, not %v", window, w[0], s1, w[1], s2, d, want)
						}
						if window == 0 {
							var x = dtw.NewDTW(a, b, inner)
							var d, want = x.DBA(w[0], w[1]), pathAverage(x.Path(), a, b, w[0], w[1])
							if !nearSeries(d, want) {
								vsched.Fail("unconstrained: %d %v and %d %v average to %v, not %v", w[0], s1, w[1], s2, d, want)
							}
						}
						if fmt.Sprint(s1, s2) != keep {
							vsched.Fail("an average modifies %s", keep)
							return
						}
						// the result belongs to the client
						for i := range c {
							c[i][0] += 9
						}
						if fmt.Sprint(s1, s2) != keep {
							vsched.Fail("an average shares memory with %s", keep)
						}
						if l1 == l2 && fmt.Sprint(s1) == fmt.Sprint(s2) && w[0] == 1 && window > 0 {
							// the average of twice the same series costs nothing
							if d := sp.Dist(s1, sp.Combine(s1, w[0], s2, w[1])); !(math.Abs(d) <= 1e-9) {
								vsched.Fail("the average of %v with itself is at %v", s1, d)
							}
						}
					}
				}
			}
		})
	}
	var resizes = func(points [][]float64, n int) Scenario {
		return pure(fmt.Sprintf("resizing series of %d out of %d points", n, len(points)), func() {
			for _, s := range seriesOf(points, n) {
				var keep = fmt.Sprint(s)
				for size := 1; size <= 9; size++ {
					Eval(1)
					var r = dtw.Resize(s, size, inner)
					if !nearSeries(r, resized(s, size)) {
						vsched.Fail("%v resized to %d is %v, not %v", s, size, r, resized(s, size))
					}
				}
				for m := 1; m <= 6; m++ {
					var other = seriesOf(points[:1], m)[0]
					for window := 0; window <= 4; window++ {
						Eval(1)
						for _, swap := range []bool{false, true} {
							var x, y = s, other
							if swap {
								x, y = y, x
							}
							var a, b = dtw.ShrinkLongest(x, y, inner, window)
							var wa, wb = shrunk(x, y, window)
							if !nearSeries(a, wa) || !nearSeries(b, wb) {
								vsched.Fail("window %d: %v and %v become %v and %v", window, x, y, a, b)
							}
						}
					}
				}
				if fmt.Sprint(s) != keep {
					vsched.Fail("resizing modifies %s", keep)
				}
			}
		})
	}
	var interpolations = func(n int) Scenario {
		return pure(fmt.Sprintf("interpolation of %d points at any positions", n), func() {
			var values = []float64{0, 4, -6, 10, 1}
			// increasing positions from 0, steps of 1 to 4, and shrink factors
			forAll(append(same(4, n-1), 5), func(ix []int) {
				var idx = make([]int, n)
				var s = make([][]float64, n)
				s[0] = []float64{values[0]}
				for i := 1; i < n; i++ {
					idx[i] = idx[i-1] + ix[i-1] + 1
					s[i] = []float64{values[i%len(values)] + float64(i)}
				}
				var factor = ix[n-1] + 1
				var keep = fmt.Sprint(s, idx)
				var r = dtw.Interpolate(s, idx, factor, inner)
				var want [][]float64
				for x := 0; x <= idx[n-1]; x += factor {
					for j := range idx {
						if idx[j] == x {
							want = append(want, s[j])
							break
						}
						if idx[j] > x {
							var t = float64(x-idx[j-1]) / float64(idx[j]-idx[j-1])
							want = append(want, []float64{s[j-1][0]*(1-t) + s[j][0]*t})
							break
						}
					}
				}
				if !nearSeries(r, want) {
					vsched.Fail("%v at %v shrunk by %d is %v, not %v", s, idx, factor, r, want)
				}
				if fmt.Sprint(s, idx) != keep {
					vsched.Fail("an interpolation modifies %s", keep)
				}
			})
		})
	}
	var copies = pure("copies and dimensions of series", func() {
		var sp = dtw.NewSpace(dtw.Conf{InnerSpace: inner, Window: 1})
		for n := 1; n <= 3; n++ {
			for dim := 1; dim <= 3; dim++ {
				var p [][]float64
				for i := 0; i < 2; i++ {
					p = append(p, []float64{float64(i), 2, 3}[:dim])
				}
				for _, s := range seriesOf(p, n) {
					Eval(1)
					var keep = fmt.Sprint(s)
					var c = sp.Copy(s).([][]float64)
					if fmt.Sprint(c) != keep {
						vsched.Fail("the copy of %s is %v", keep, c)
					}
					for i := range c {
						c[i][dim-1] += 5
						c[i] = nil
					}
					if fmt.Sprint(s) != keep {
						vsched.Fail("a copy shares memory with %s", keep)
					}
					if d := sp.Dim([]core.Elemt{s}); d != dim {
						vsched.Fail("the dimension of %s is %d", keep, d)
					}
				}
			}
		}
		if sp.Dim(nil) != 0 || sp.Dim([]core.Elemt{[][]float64{}}) != 0 {
			vsched.Fail("nothing has a dimension")
		}
	})
	register(&Property{
		ID: "C19",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, giantSeries(true))
			if thorough {
				out = append(out, largeSeries(50, []int{0, 1, 2, 3, 5, 9, 20}, false, true))
			} else {
				out = append(out, largeSeries(22, []int{0, 1, 5, 9}, false, true))
			}
			for l1 := 1; l1 <= 6; l1++ {
				for l2 := 1; l2 <= 6; l2++ {
					for window := 0; window <= 4; window++ {
						var p = points1(0, 1, 3)
						if l1+l2 > 7 && !thorough || l1+l2 > 9 {
							p = points1(0, 2)
						}
						out = append(out, averages(p, l1, l2, window))
					}
				}
			}
			out = append(out, averages([][]float64{{0, 1}, {3, 0}, {1, -4}}, 3, 2, 0), averages([][]float64{{0, 1}, {3, 0}, {1, -4}}, 3, 3, 1))
			for n := 2; n <= 6; n++ {
				out = append(out, resizes(points1(0, 1, 5), n))
			}
			for n := 1; n <= 6; n++ {
				out = append(out, interpolations(n))
			}
			return append(out, copies)
		},
		Rule:   "every pair of series of lengths 1 to 6, every window and several weights: the average against the warping path seen as a curve, its length, resizing and interpolation against the piecewise linear curve; arguments unchanged; every pair of lengths of the sweep along one data set, with null and large weights",
		Assume: []string{"series of length up to 6 over 2 or 3 points, weights up to 5"},
	})
}

func init() {
	regC18()
	regC19()
}
