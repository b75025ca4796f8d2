package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/streaming"
	"verif/vsched"
)

// ---- C23: streaming -------------------------------------------------------------------

type streamConf struct {
	mu       float64
	outRatio float64
	outAfter int
	size     int
}

// streams runs every sequence of elements through the implementation.
func streams(sc streamConf, points [][]float64, n int) Scenario {
	return scaledStreams(sc, points, n, 0)
}

// scaledStreams is the same with everything multiplied by a power of two: exactly the same
// thing must happen, at that scale.
func scaledStreams(sc streamConf, points [][]float64, n int, exp int) Scenario {
	var what = ""
	if exp != 0 {
		what = fmt.Sprintf(" times 2^%d", exp)
	}
	return pure(fmt.Sprintf("threshold %v, outliers beyond %v after %d, room for %d, %d elements out of %v%s", sc.mu, sc.outRatio, sc.outAfter, sc.size, n, points, what), func() {
		// each element comes with the choice of an iteration before it or not
		// the first ones are shared out between executions
		var first = []int{vsched.Choose(2*len(points), 0, "element"), vsched.Choose(2*len(points), 0, "element")}
		forAll(same(2*len(points), n-2), func(ix []int) {
			scaledStream(sc, points, append(append([]int{}, first...), ix...), exp)
		})
	})
}

func stream(sc streamConf, points [][]float64, ix []int) { scaledStream(sc, points, ix, 0) }

func scaledStream(sc streamConf, points [][]float64, ix []int, exp int) {
	var times = func(x []float64, exp int) []float64 {
		var y = make([]float64, len(x))
		for i := range x {
			y[i] = math.Ldexp(x[i], exp)
		}
		return y
	}
	var centers = func(c core.Clust) [][]float64 {
		var y = raw(c)
		for i := range y {
			y[i] = times(y[i], -exp)
		}
		return y
	}
	var space = euclid.NewSpace()
	var conf = streaming.Conf{BufferSize: sc.size, Mu: sc.mu, Sigma: 1e-12, OutRatio: sc.outRatio, OutAfter: sc.outAfter, RGen: scripted()}
	var impl = streaming.NewImpl(conf, nil)
	var status = core.NewOCStatus(core.Running)
	var story []string
	var fail = func(f string, args ...interface{}) {
		if exp != 0 {
			f += fmt.Sprintf(" (times 2^%d)", exp)
		}
		vsched.Fail("%+v: %s: %s", sc, strings.Join(story, " "), fmt.Sprintf(f, args...))
	}
	// the reference
	var queue [][]float64
	var clust [][]float64
	var cards []int
	var max = 0.
	var count = 0
	var published core.Clust
	var pushed []core.Elemt
	var pushedc []string
	var kept []core.Clust
	var keptc []string
	var doubt = false
	var started = false

	var model = func() core.OCModel {
		return core.NewSimpleOCModel(&conf, space, status, core.RuntimeFigures{}, published)
	}
	var iterate = func() {
		Eval(1)
		story = append(story, "iterate")
		if !started {
			var c, err = impl.Init(model())
			if len(queue) == 0 {
				if err == nil {
					fail("starts without any element")
				}
				return
			}
			if err != nil {
				fail("%v", err)
				return
			}
			started = true
			clust, cards = append(clust, queue[0]), append(cards, 1)
			queue = queue[1:]
			published = c
		} else {
			var c, figures, err = impl.Iterate(model())
			if err != nil {
				fail("%v", err)
				return
			}
			if len(queue) == 0 {
				if c != nil {
					fail("an iteration without any element")
				}
			} else {
				var x = queue[0]
				queue = queue[1:]
				var label, dist = refLabel(x, clust)
				for i, c := range clust {
					if d := refDist(x, c); i != label && d != dist && near(d, dist) {
						doubt = true
					}
				}
				if near(max, 0) && near(dist, 0) && cards[label] > 1 && refDist(x, make([]float64, len(x))) > 0 {
					doubt = true // the center is an average, that may be rounded
				}
				if max == 0 {
					max = dist
				}
				var relative = dist / max
				if near(relative, sc.outRatio) || near(relative, sc.mu) {
					doubt = true
				}
				switch {
				case count >= sc.outAfter && relative > sc.outRatio:
					clust, cards = append(clust, x), append(cards, 1)
				case sc.mu < relative:
					clust, cards = append(clust, x), append(cards, 1)
					max = math.Max(max, dist)
				default:
					var m = make([]float64, len(x))
					for k := range x {
						m[k] = (clust[label][k]*float64(cards[label]) + x[k]) / float64(cards[label]+1)
					}
					clust[label] = m
					cards[label]++
					max = math.Max(max, dist)
				}
				count++
				if doubt {
					return
				}
				if c == nil {
					fail("nothing is published")
					return
				}
				published = c
			}
			if !near(math.Ldexp(figures[streaming.MaxDistance], -exp), max) {
				fail("the largest distance is %v instead of %v", math.Ldexp(figures[streaming.MaxDistance], -exp), max)
			}
		}
		if !nearSeries(centers(published), clust) {
			fail("the centers are %v instead of %v", centers(published), clust)
		}
		kept = append(kept, published)
		keptc = append(keptc, fmt.Sprint(raw(published)))
	}
	for _, x := range ix {
		if x%2 == 1 {
			iterate()
		}
		if doubt || vsched.Failed() {
			return
		}
		var q = append([]float64{}, points[x/2]...)
		var p = times(q, exp)
		story = append(story, fmt.Sprint("push ", q))
		var err = impl.Push(p, model())
		if full := len(queue) == sc.size; full != (err != nil) {
			fail("%d elements wait and the answer is %v", len(queue), err)
			return
		} else if !full {
			queue = append(queue, q)
		}
		pushed = append(pushed, p)
		pushedc = append(pushedc, fmt.Sprint(p))
	}
	for i := len(queue) + 1; i >= 0; i-- {
		iterate()
		if doubt || vsched.Failed() {
			return
		}
	}
	for i, c := range kept {
		if fmt.Sprint(raw(c)) != keptc[i] {
			fail("the centers %s have been modified", keptc[i])
		}
	}
	for i, e := range pushed {
		if fmt.Sprint(e) != pushedc[i] {
			fail("the element %s has been modified", pushedc[i])
		}
	}
}

func regC23() {
	register(&Property{
		ID: "C23",
		Scenarios: func(thorough bool) (out []Scenario) {
			var n = 6
			if thorough {
				n = 8
			}
			out = append(out, giantStream())
			out = append(out, longStreams(map[bool]int{false: 150, true: 600}[thorough])...)
			out = append(out, growingStreams(map[bool]int{false: 170, true: 700}[thorough])...)
			for _, mu := range []float64{-10, .4, .75, 10} {
				for _, ratio := range []float64{.9, 1.6} {
					for _, after := range []int{2, 3} {
						out = append(out, streams(streamConf{mu, ratio, after, 100}, points1(0, 1, 5), n))
						out = append(out, streams(streamConf{mu, ratio, after, 2}, points1(0, 7), n+1))
					}
				}
				out = append(out, streams(streamConf{mu, 1.2, 2, 3}, [][]float64{{0, 0}, {3, 0}, {0, 1}}, n))
				out = append(out, streams(streamConf{mu, 1.6, 2, 1}, points1(0, 1, 4), n-1))
				for _, exp := range []int{-300, -40, -20, 20, 40, 300} {
					out = append(out, scaledStreams(streamConf{mu, 1.6, 2, 100}, points1(0, 1, 5), n-1, exp))
				}
				out = append(out, streams(streamConf{mu, 1.6, 4, 5}, points1(2, 2.5, 9, 30), n-1))
			}
			return
		},
		Rule:   "every sequence of elements out of 2 to 4 and of iterations between them, for thresholds that always, never or sometimes create a cluster, several rules of outliers and sizes of the buffer, against a reference: order of the elements, nearest center, relative distance, outliers, weighted moves, largest distance, refusal when the buffer is full; published centers and pushed elements unchanged afterwards; the same at other scales, down to 2^-300 and up to 2^300; long streams, streams of growing distances",
		Assume: []string{"the random threshold is reduced to its mean (standard deviation 1e-12)", "sequences on which rounding would decide are cut"},
	})
}

func init() { regC23() }
