package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/mcmc"
	"verif/vsched"
)

// ---- C25: late distributions ----------------------------------------------------------

// builtFor is the distribution made by a builder.
type builtFor struct {
	first float64
	rank  int
}

func (b *builtFor) Sample(mu core.Elemt, time int) core.Elemt {
	return vec(b.first, float64(b.rank), mu.([]float64)[0], float64(time))
}

func (b *builtFor) Pdf(x, mu core.Elemt, time int) float64 {
	return b.first*1000 + float64(b.rank)*100 + x.([]float64)[0]*10 + mu.([]float64)[0] + float64(time)/100
}

func lateDistribs(progs [][]string, slow int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, a builder of %d steps", progNames(progs), slow),
		Max:  max,
		Body: func() {
			var builds = 0
			var given float64
			var inside = 0
			var late = mcmc.NewLateDistrib(func(e core.Elemt) mcmc.Distrib {
				builds++
				inside++
				if inside > 1 {
					vsched.Fail("the builder runs twice at the same time")
				}
				given = e.([]float64)[0]
				var b = &builtFor{given, 1}
				for i := 0; i < slow; i++ {
					vsched.Gosched()
				}
				inside--
				return b
			})
			var centers = map[float64]bool{}
			var ts []vsched.Thread
			var out = make([][]string, len(progs))
			for i, p := range progs {
				for j := range p {
					centers[float64(10*(i+1)+j)], centers[float64(10*(i+1)+j)+.5] = true, true
				}
			}
			for i, p := range progs {
				var i, p = i, p
				ts = append(ts, vsched.GoNamed(fmt.Sprintf("client%d", i), func() {
					for j, op := range p {
						var c = float64(10*(i+1) + j)
						var time = 3*i + j
						if op == "Sample" {
							var s = late.Sample(vec(c), time).([]float64)
							if len(s) != 4 || s[1] != 1 || s[2] != c || s[3] != float64(time) || !centers[s[0]] {
								vsched.Fail("sample of %v at %d is %v", c, time, s)
							}
							out[i] = append(out[i], fmt.Sprint(s[0]))
						} else {
							// the builder is given the element of the condition, that is one of both
							var d = late.Pdf(vec(c), vec(c+.5), time)
							var rest = 100 + c*10 + c + .5 + float64(time)/100
							var first = (d - rest) / 1000
							if !centers[math.Round(first*1e6)/1e6] {
								vsched.Fail("density of %v at %d is %v", c, time, d)
							}
							out[i] = append(out[i], fmt.Sprint(math.Round(first*1e6)/1e6))
						}
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			if builds != 1 {
				vsched.Fail("built %d times", builds)
			}
			var all []string
			for _, l := range out {
				all = append(all, l...)
			}
			sort.Strings(all)
			if len(all) > 0 && all[0] != all[len(all)-1] {
				vsched.Fail("the distributions of %s answer", strings.Join(all, " "))
			}
			vsched.SetOutcome(fmt.Sprint(out))
		},
	}
}

func regC25() {
	register(&Property{
		ID: "C25",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Sample", "Pdf"}
			var max2, max3 = [2]int{3, 6}, [2]int{2, 4}
			out = append(out, manyClients(12, 6), failingBuilders())
			for _, a := range ops {
				for _, b := range ops {
					for _, slow := range []int{0, 2} {
						out = append(out, lateDistribs([][]string{{a}, {b}}, slow, max2))
						out = append(out, lateDistribs([][]string{{a, b}, {b, a}}, slow, max2))
						for _, c := range ops {
							out = append(out, lateDistribs([][]string{{a}, {b}, {c}}, slow, max3))
							out = append(out, lateDistribs([][]string{{a, b}, {c}, {b}}, slow, max3))
						}
					}
				}
			}
			return
		},
		Rule:   "every schedule up to the deviation bound of 2 and 3 clients that share a late distribution, as an algorithm and its copies do: built once, for an element of a client, every answer is the one of the distribution that was built for the arguments given; no data race; up to 12 clients on the default schedule",
		Assume: []string{"preemption deviations are bounded per scenario (see bounds_completed)"},
	})
}

// ---- C28: distributions ---------------------------------------------------------------

func regC28() {
	register(&Property{
		ID: "C28",
		Scenarios: func(thorough bool) (out []Scenario) {
			var raws = []uint64{0, 1, 1 << 20, 0x0123456789ABCDEF, 0x9E3779B97F4A7C15, 1<<63 + 12345, math.MaxUint64 - 5, 0x7FFFFFFF00000003}
			var n = 4
			if thorough {
				n = 6
			}
			for _, dim := range []int{1, 2, 3} {
				for _, nu := range []float64{3, 5, 0} {
					var dim, nu = dim, nu
					out = append(out, pure(fmt.Sprintf("samples in dimension %d, %v degrees", dim, nu), func() {
						samples(dim, nu, raws, n)
					}))
				}
			}
			out = append(out, manyTimes(), giantTimes())
			out = append(out, pure("densities", func() { densities(thorough) }))
			out = append(out, pure("densities in large dimensions", func() {
				for _, dim := range []int{10, 50, 100, 200, 338, 339, 340, 341, 342, 500, 1000, 4000} {
					var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: 3, RGen: scripted()})
					var mu, x = make([]float64, dim), make([]float64, dim)
					x[dim-1] = 2
					for _, t := range []int{1, 10, 1000} {
						Eval(1)
						var a, b = m.Pdf(mu, mu, t), m.Pdf(x, mu, t)
						if math.IsNaN(a) || math.IsInf(a, 0) || math.IsNaN(b) || math.IsInf(b, 0) || a <= b {
							vsched.Fail("in dimension %d at time %d the density is %v, %v further", dim, t, a, b)
						}
						if want := refLogT(dim, 3, 0, t); !(math.Abs(a-want) <= 1e-6*(1+math.Abs(want))) {
							vsched.Fail("in dimension %d at time %d the density is %v instead of %v", dim, t, a, want)
						}
						if s, ok := m.Sample(mu, t).([]float64); !ok || len(s) != dim {
							vsched.Fail("a sample of dimension %d has dimension %d", dim, len(s))
						}
					}
				}
			}))
			out = append(out, pure("dirac", func() {
				var d = mcmc.NewDirac()
				forAll([]int{5, 5, 4}, func(ix []int) {
					var mu, x = vec(float64(ix[0]), 2), vec(float64(ix[1]), 2)
					var s, ok = d.Sample(mu, ix[2]).([]float64)
					if !ok || !nearVec(s, mu) {
						vsched.Fail("a sample of %v is %v", mu, s)
					}
					if d.Pdf(mu, mu, ix[2]) != 1 {
						vsched.Fail("density %v", d.Pdf(mu, mu, ix[2]))
					}
					if mu[0] != float64(ix[0]) || x[0] != float64(ix[1]) {
						vsched.Fail("the center has been modified")
					}
				})
			}))
			return
		},
		Rule:   "every sequence of random numbers out of 8, for several centers and times: samples have the dimension of the center, are finite, move with the center, shrink with the square root of the time, leave the center as it was; densities over a grid: maximal at the center, symmetric, decreasing with the distance, of total 1 on the line and the plane, finite in large dimensions; every dimension up to 40 and times up to 3000",
		Assume: []string{"at least 2 degrees of freedom", "that samples follow the density is not claimed"},
	})
}

func samples(dim int, nu float64, raws []uint64, n int) {
	forAllQuiet(same(len(raws), n), func(ix []int) {
		if vsched.Failed() || expired() {
			return
		}
		Eval(1)
		var seq = make([]uint64, n)
		for i, x := range ix {
			seq[i] = raws[x]
		}
		var mk = func() mcmc.MultivT {
			return mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: scripted(seq...)})
		}
		var unit []float64
		for i, mu0 := range []float64{0, 3, -40} {
			for _, t := range []int{1, 4, 25} {
				var mu = make([]float64, dim)
				for k := range mu {
					mu[k] = mu0 + float64(k)
				}
				var before = fmt.Sprint(mu)
				var s, ok = mk().Sample(mu, t).([]float64)
				if !ok || len(s) != dim {
					vsched.Fail("a sample of %v is %v", mu, s)
					return
				}
				if fmt.Sprint(mu) != before {
					vsched.Fail("the center %s has been modified into %v", before, mu)
				}
				var u = make([]float64, dim)
				for k := range s {
					if math.IsNaN(s[k]) || math.IsInf(s[k], 0) {
						vsched.Fail("random numbers %v: the sample of %v is %v", seq, mu, s)
					}
					u[k] = (s[k] - mu[k]) * math.Sqrt(float64(t))
				}
				if i == 0 && t == 1 {
					unit = u
				}
				for k := range u {
					if !(math.Abs(u[k]-unit[k]) <= 1e-7*(1+math.Abs(unit[k]))) {
						vsched.Fail("random numbers %v: the sample of %v at time %d is %v, the sample of 0 at time 1 is %v", seq, mu, t, s, unit)
						return
					}
				}
				s[0] = 1e9
				if fmt.Sprint(mu) != before {
					vsched.Fail("the sample shares the memory of the center")
				}
			}
		}
	})
}

// refLogT is the logarithm of a density, given the square of the distance.
func refLogT(dim int, nu, shift float64, time int) float64 {
	var p = (float64(dim) + nu) / 2
	var a, _ = math.Lgamma(p)
	var b, _ = math.Lgamma(nu / 2)
	var s = nu / math.Sqrt(float64(20*time))
	return a - b - float64(dim)/2*math.Log(math.Pi*s) - p*math.Log1p(shift/s)
}

func densities(thorough bool) {
	var grid = []float64{-3, -1, -.5, 0, .25, 1, 2}
	for _, dim := range []int{1, 2, 3} {
		for _, nu := range []float64{0, 3, 5} {
			var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: dim, Nu: nu, RGen: scripted()})
			var real = nu
			if real == 0 {
				real = 3
			}
			for _, t := range []int{1, 3, 100} {
				forAll(same(len(grid), 2*dim), func(ix []int) {
					var a, b = make([]float64, dim), make([]float64, dim)
					var shift = 0.
					for k := range a {
						a[k], b[k] = grid[ix[k]], grid[ix[dim+k]]
						shift += (a[k] - b[k]) * (a[k] - b[k])
					}
					var sa, sb = fmt.Sprint(a), fmt.Sprint(b)
					var d = m.Pdf(a, b, t)
					if r := m.Pdf(b, a, t); !near(d, r) {
						vsched.Fail("the density of %v given %v is %v, of %v given %v is %v", a, b, d, b, a, r)
					}
					if want := refLogT(dim, real, shift, t); !near(d, want) {
						vsched.Fail("the density of %v given %v at time %d is %v instead of %v", a, b, t, d, want)
					}
					if c := m.Pdf(b, b, t); shift > 0 && d >= c {
						vsched.Fail("the density of %v given %v is %v, more than %v at the center", a, b, d, c)
					}
					if fmt.Sprint(a) != sa || fmt.Sprint(b) != sb {
						vsched.Fail("%s or %s has been modified", sa, sb)
					}
				})
			}
		}
	}
	// the total on the line
	var m = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 5, RGen: scripted()})
	for _, t := range []int{1, 7} {
		var sum, step = 0., .001
		for x := -100.; x < 100; x += step {
			sum += math.Exp(m.Pdf(vec(x), vec(0), t)) * step
		}
		Eval(1)
		if !(math.Abs(sum-1) <= 1e-4) {
			vsched.Fail("the density at time %d sums to %v", t, sum)
		}
	}
	var p = mcmc.NewMultivT(mcmc.MultivTConf{Dim: 2, Nu: 5, RGen: scripted()})
	var sum, step = 0., .05
	for x := -20.; x < 20; x += step {
		for y := -20.; y < 20; y += step {
			sum += math.Exp(p.Pdf(vec(x, y), vec(0, 0), 2)) * step * step
		}
	}
	if Eval(1); !(math.Abs(sum-1) <= 1e-3) {
		vsched.Fail("the density of the plane sums to %v", sum)
	}
}

func init() {
	regC25()
	regC28()
	regC29()
}
