package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"golang.org/x/exp/rand"
	"verif/vsched"
)

// ---- C20: initializers ----------------------------------------------------------------

// script is a source of random numbers that answers a list, then a fixed sequence.
type script struct {
	raws []uint64
	n    int
}

func (s *script) Seed(uint64) {}

func (s *script) Uint64() (x uint64) {
	s.n++
	if s.n <= len(s.raws) {
		return s.raws[s.n-1]
	}
	x = uint64(s.n) * 0x9E3779B97F4A7C15
	x ^= x >> 31
	x *= 0xBF58476D1CE4E5B9
	return x ^ x>>27
}

func scripted(raws ...uint64) *rand.Rand { return rand.New(&script{raws: raws}) }

// allScripts calls f with a generator for every sequence of n answers out of raws.
func allScripts(raws []uint64, n int, f func(src *rand.Rand, seq []uint64)) {
	forAll(same(len(raws), n), func(ix []int) {
		var seq = make([]uint64, n)
		for i, x := range ix {
			seq[i] = raws[x]
		}
		f(scripted(seq...), seq)
	})
}

// scriptsOf is the same with a list of answers for each draw.
func scriptsOf(raws [][]uint64, f func(src *rand.Rand)) {
	var dims []int
	for _, r := range raws {
		dims = append(dims, len(r))
	}
	forAll(dims, func(ix []int) {
		var seq = make([]uint64, len(raws))
		for i, x := range ix {
			seq[i] = raws[i][x]
		}
		f(scripted(seq...))
	})
}

// grid lists n numbers of [0,1), the smallest and the largest draws aside.
func grid(n int) (out []float64) {
	out = append(out, 0, nearOne)
	for i := 0; i < n; i++ {
		out = append(out, (float64(i)+.5)/float64(n))
	}
	return
}

func values(data []core.Elemt) (out []float64) {
	for _, e := range data {
		out = append(out, e.([]float64)[0])
	}
	return
}

// weightedChoices draws every number of a grid fine enough to tell each share.
func weightedChoices(n int, weights []float64, exact bool) Scenario {
	return pure(fmt.Sprintf("weighted choices among %d of %v", n, weights), func() {
		forAll(same(len(weights), n), func(ix []int) {
			var w = make([]float64, n)
			var sum = 0.
			for i, x := range ix {
				w[i] = weights[x]
				sum += w[i]
			}
			var keep = fmt.Sprint(w)
			var check = func(g float64) (int, bool) {
				Eval(1)
				var i, err = kmeans.WeightedChoice(w, newScripted(g))
				if sum == 0 {
					if err == nil {
						vsched.Fail("a choice among %v succeeds", w)
					}
					return 0, false
				}
				if err != nil {
					vsched.Fail("a choice among %v fails: %v", w, err)
					return 0, false
				}
				if i < 0 || i >= n || w[i] <= 0 {
					vsched.Fail("the draw %v among %v chooses %d", g, w, i)
					return 0, false
				}
				return i, true
			}
			for _, g := range []float64{0, 1. / (1 << 53), nearOne, 1 - 2./(1<<53)} {
				check(g)
			}
			var cum = 0.
			for _, x := range w { // the borders of the shares
				cum += x
				if sum > 0 {
					for _, g := range []float64{cum / sum, math.Nextafter(cum/sum, 0), math.Nextafter(cum/sum, 1)} {
						if g < 1 {
							check(g)
						}
					}
				}
			}
			if exact && sum > 0 {
				var draws = make([]int, n)
				var total = 4 * int(sum)
				for j := 0; j < total; j++ {
					if i, ok := check((float64(j) + .5) / float64(total)); ok {
						draws[i]++
					}
				}
				for i := range w {
					if draws[i] != 4*int(w[i]) {
						vsched.Fail("%d draws out of %d choose %d among %v", draws[i], total, i, w)
					}
				}
			}
			if fmt.Sprint(w) != keep {
				vsched.Fail("a choice modifies the weights %s", keep)
			}
		})
	})
}

func newScripted(g float64) *rand.Rand { return scripted(uint64(g * (1 << 53))) }

// initialized checks what every initializer guarantees and tells whether there are
// centroids to look further at.
func initialized(what string, data []core.Elemt, k int, c core.Clust, err error) bool {
	if k < 1 || len(data) < k {
		if err == nil {
			vsched.Fail("%s: %d centroids of %v are found", what, k, values(data))
		}
		if c != nil {
			vsched.Fail("%s: an error and the centroids %v", what, c)
		}
		return false
	}
	if err != nil {
		if c != nil {
			vsched.Fail("%s: an error and the centroids %v", what, c)
		}
		return false
	}
	if len(c) != k {
		vsched.Fail("%s: %d centroids instead of %d", what, len(c), k)
		return false
	}
	for i, e := range c {
		if e == nil {
			vsched.Fail("%s: the centroid %d is missing", what, i)
			return false
		}
		for _, d := range data {
			if &d.([]float64)[0] == &e.([]float64)[0] {
				vsched.Fail("%s: a centroid shares memory with the data", what)
			}
		}
	}
	return true
}

// key names a list of small numbers.
func key(l []int) string {
	var b = make([]byte, len(l))
	for i, x := range l {
		b[i] = '0' + byte(x)
	}
	return string(b)
}

// inits runs the initializers over a data set.
func inits(data []float64, steps int) Scenario {
	return pure(fmt.Sprintf("initializers of %v", data), func() {
		var space = euclid.NewSpace()
		var n = len(data)
		var elts []core.Elemt
		var count = map[float64]int{}
		for _, x := range data {
			elts = append(elts, vec(x))
			count[x]++
		}
		var keep = fmt.Sprint(data)
		for k := -1; k <= n+1; k++ {
			var what = fmt.Sprintf("%d given out of %v", k, data)
			var c, err = kmeans.CreateInitializer("Given")(k, elts, space, scripted())
			if initialized(what, elts, k, c, err) {
				if fmt.Sprint(values(c)) != fmt.Sprint(data[:k]) {
					vsched.Fail("%s: %v", what, values(c))
				}
			} else if k >= 1 && k <= n {
				vsched.Fail("%s: %v", what, err)
			}
			Eval(1)

			// random elements: k of the n elements, any of them
			what = fmt.Sprintf("%d random out of %v", k, data)
			var reached = map[string]bool{}
			var draws = 5
			if n < 4 {
				draws = 4
			}
			allScripts(append(ints(n), unit([]float64{.3, .6, nearOne})...), draws, func(src *rand.Rand, seq []uint64) {
				var c, err = kmeans.CreateInitializer("rand")(k, elts, space, src)
				if !initialized(what, elts, k, c, err) {
					if k >= 1 && k <= n {
						vsched.Fail("%s: %v", what, err)
					}
					return
				}
				for _, x := range values(c) {
					var m = 0
					for _, y := range values(c) {
						if x == y {
							m++
						}
					}
					if m > count[x] {
						vsched.Fail("%s: %v", what, values(c))
					}
				}
				var l []int
				for _, x := range values(c) {
					l = append(l, int(x))
				}
				reached[key(sorted(l))] = true
			})
			if k >= 1 && k <= n && !vsched.Failed() && !truncated {
				var want = map[string]bool{}
				for m := 0; m < 1<<uint(n); m++ {
					var l []int
					for i := range data {
						if m>>uint(i)&1 == 1 {
							l = append(l, int(data[i]))
						}
					}
					if len(l) == k {
						want[key(sorted(l))] = true
					}
				}
				if len(want) != len(reached) {
					vsched.Fail("%s: %d choices out of %d are reached", what, len(reached), len(want))
				}
			}

			// kmeans++: distinct elements
			what = fmt.Sprintf("%d spread out of %v", k, data)
			reached = map[string]bool{}
			var raws = [][]uint64{append(ints(n), unit([]float64{.4, nearOne})...)}
			for i := 1; i < 3 && i < k && k <= n; i++ {
				raws = append(raws, unit(grid(steps)))
			}
			scriptsOf(raws, func(src *rand.Rand) {
				var c, err = kmeans.CreateInitializer("PP")(k, elts, space, src)
				if !initialized(what, elts, k, c, err) {
					if k >= 1 && k <= len(count) {
						vsched.Fail("%s: %v", what, err)
					}
					return
				}
				if k > len(count) {
					vsched.Fail("%s: %v", what, values(c))
				}
				var l []int
				for _, x := range values(c) {
					for _, y := range l {
						if y == int(x) {
							vsched.Fail("%s: %v", what, values(c))
						}
					}
					if count[x] == 0 {
						vsched.Fail("%s: %v", what, values(c))
					}
					l = append(l, int(x))
				}
				reached[key(l)] = true
			})
			if k >= 1 && k <= len(count) && !vsched.Failed() && !truncated {
				var want = 1
				for i := 0; i < k; i++ {
					want *= len(count) - i
				}
				if len(reached) != want {
					vsched.Fail("%s: %d choices out of %d are reached: %v", what, len(reached), want, reached)
				}
			}
			if vsched.Failed() {
				return
			}
		}
		if fmt.Sprint(values(elts)) != keep {
			vsched.Fail("initializing modifies %s", keep)
		}
	})
}

// spreadSteps is one kmeans++ step from any centroids: the odds of an element are its
// distance to the nearest of them.
func spreadSteps(n, k int, points []float64) Scenario {
	return pure(fmt.Sprintf("spreading %d centroids over %d elements", k, n), func() {
		var space = euclid.NewSpace()
		forAll(append(same(len(points), n), same(len(points), k)...), func(ix []int) {
			var data, clust = elemts(points, ix[:n]), core.Clust(elemts(points, ix[n:]))
			var sum = 0.
			var odds = map[float64]float64{}
			for _, x := range values(data) {
				var d = math.Inf(1)
				for _, y := range values(clust) {
					d = math.Min(d, math.Abs(x-y))
				}
				sum += d
				odds[x] += d
			}
			var keep = fmt.Sprint(values(data), values(clust))
			var draws = map[float64]int{}
			var total = 4 * int(sum)
			for j := -2; j < total; j++ {
				Eval(1)
				var g = (float64(j) + .5) / float64(total)
				if j == -2 {
					g = 0
				} else if j == -1 {
					g = nearOne
				}
				var e, err = kmeans.PPIter(clust, data, space, newScripted(g))
				if sum == 0 {
					if err == nil {
						vsched.Fail("%v: an element is drawn while all are centroids", keep)
					}
					continue
				}
				if err != nil {
					vsched.Fail("%v: %v", keep, err)
					return
				}
				var x = e.([]float64)[0]
				if odds[x] == 0 {
					vsched.Fail("%v: draws %v", keep, x)
				}
				if j >= 0 {
					draws[x]++
				}
				e.([]float64)[0] = 77
				if fmt.Sprint(values(data), values(clust)) != keep {
					vsched.Fail("%v: the element drawn is not a copy", keep)
					return
				}
			}
			for x, o := range odds {
				if draws[x] != 4*int(o) {
					vsched.Fail("%v: %v is drawn %d times out of %d", keep, x, draws[x], total)
				}
			}
		})
	})
}

func regC20() {
	var names = pure("names of the initializers", func() {
		for _, l := range [][]string{{"given", "Given", "GIVEN"}, {"pp", "PP", "Pp"}, {"rand", "Rand", "RAND"}} {
			for _, name := range l {
				Eval(1)
				if kmeans.CreateInitializer(name) == nil {
					vsched.Fail("there is no initializer %s", name)
				}
			}
		}
		if kmeans.CreateInitializer("other") != nil {
			vsched.Fail("there is an unknown initializer")
		}
	})
	register(&Property{
		ID: "C20",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, names, inits(nil, 16), largeInits(map[bool]int{false: 32, true: 90}[thorough]), giantInits())
			var points = []float64{0, 1, 4}
			var max, steps = 4, 16
			if thorough {
				points, max, steps = []float64{0, 1, 4, 6}, 4, 40
			}
			for n := 1; n <= max; n++ {
				forAllQuiet(same(len(points), n), func(ix []int) {
					var data []float64
					for _, x := range ix {
						data = append(data, points[x])
					}
					out = append(out, inits(data, steps))
				})
			}
			out = append(out, inits([]float64{0, 2, 5, 9}, 30))
			for n := 1; n <= 5; n++ {
				out = append(out, weightedChoices(n, []float64{0, 1, 2, 3}, true))
				out = append(out, weightedChoices(n, []float64{0, .1, .3, .7, 1. / 3}, false))
			}
			for n := 1; n <= 4; n++ {
				out = append(out, weightedChoices(n, []float64{0, 1e-300, 1, 1e17}, false))
				out = append(out, weightedChoices(n, []float64{0, 5e-324, 1.5e-323, 1e-310}, false))
				out = append(out, weightedChoices(n, []float64{0, 1e300, 3e306, .1}, false))
				for k := 1; k <= 3; k++ {
					if n+k <= 5 || thorough {
						out = append(out, spreadSteps(n, k, []float64{0, 1, 3}))
					}
				}
			}
			return
		},
		Rule:   "every list of up to 4 elements out of 3 (4) values, every number of centroids around the valid ones and every sequence of draws out of a grid with the smallest and the largest ones: centroids are copies of elements, errors without centroids, every admissible choice is reached, the odds of a weighted choice are exactly its weights; every number of elements and centroids of the sweep",
		Assume: []string{"integer weights up to 3 for the exact odds", "the odds are measured over a regular grid of the unit interval drawn once per choice"},
	})
}

// forAllQuiet is forAll outside an execution.
func forAllQuiet(dims []int, f func(ix []int)) {
	var ix = make([]int, len(dims))
	for {
		f(ix)
		var i = len(dims) - 1
		for ; i >= 0 && ix[i] == dims[i]-1; i-- {
			ix[i] = 0
		}
		if i < 0 {
			return
		}
		ix[i]++
	}
}

func init() { regC20() }
