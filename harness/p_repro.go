package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C30: a run is determined by its data, its configuration and its seed --------------

// seededKind makes algorithms that draw their random numbers from a seed.
type seededKind struct {
	name string
	mk   func(ctrl core.CtrlConf, seed uint64, cpus int, data []core.Elemt) *core.Algo
	conf func(seed uint64) core.Conf // for the reference and for copies
	feed bool                        // elements pushed before the run are as good as given ones
}

func seededKinds() (out []seededKind) {
	var space = euclid.NewSpace()
	var source = func(seed uint64) *rand.Rand { return rand.New(rand.NewSource(seed)) }
	var inits = map[string]core.Initializer{"given": kmeans.GivenInitializer, "rand": kmeans.RandInitializer, "++": kmeans.PPInitializer}
	for _, name := range []string{"given", "rand", "++"} {
		var initializer = inits[name]
		for _, par := range []bool{false, true} {
			var par = par
			var kconf = func(ctrl core.CtrlConf, seed uint64, cpus int) kmeans.Conf {
				return kmeans.Conf{CtrlConf: ctrl, K: 3, Par: par, NumCPU: cpus, RGen: source(seed)}
			}
			out = append(out, seededKind{fmt.Sprintf("k-means %s parallel %v", name, par),
				func(ctrl core.CtrlConf, seed uint64, cpus int, data []core.Elemt) *core.Algo {
					return kmeans.NewAlgo(kconf(ctrl, seed, cpus), space, data, initializer)
				},
				func(seed uint64) core.Conf { var c = kconf(core.CtrlConf{}, seed, 2); return &c }, true})
			if name == "rand" {
				continue
			}
			for _, late := range []bool{false, true} {
				var late = late
				if late != par {
					continue
				}
				var mconf = func(ctrl core.CtrlConf, seed uint64, cpus int) mcmc.Conf {
					return mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 4, Amp: .5, B: 2, ProbaK: []float64{3, 1, 3}, Par: par, NumCPU: cpus, RGen: source(seed)}
				}
				var build = func(seed uint64) mcmc.Distrib {
					var r = source(seed + 1)
					var make = func() mcmc.Distrib { return mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 3, RGen: r}) }
					if late {
						return mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib { return make() })
					}
					return make()
				}
				out = append(out, seededKind{fmt.Sprintf("mcmc %s parallel %v", name, par),
					func(ctrl core.CtrlConf, seed uint64, cpus int, data []core.Elemt) *core.Algo {
						return mcmc.NewAlgo(mconf(ctrl, seed, cpus), space, data, initializer, build(seed))
					},
					func(seed uint64) core.Conf { var c = mconf(core.CtrlConf{}, seed, 2); return &c }, true})
			}
		}
	}
	var sconf = func(ctrl core.CtrlConf, seed uint64) streaming.Conf {
		return streaming.Conf{CtrlConf: ctrl, BufferSize: 20, Sigma: .3, RGen: source(seed)}
	}
	out = append(out, seededKind{"streaming",
		func(ctrl core.CtrlConf, seed uint64, cpus int, data []core.Elemt) *core.Algo {
			return streaming.NewAlgo(sconf(ctrl, seed), space, data)
		},
		func(seed uint64) core.Conf { var c = sconf(core.CtrlConf{}, seed); return &c }, true})
	return
}

func seededData() (out []core.Elemt) {
	for _, x := range []float64{0, 10.5, 1, 30, 12, 33, .25, 31} {
		out = append(out, vec(x))
	}
	return
}

const seededIters = 4

// result is what a run gives: the centroids and the figures of the implementation.
type result struct {
	clust [][]float64
	figs  map[string]float64
}

func resultOf(clust core.Clust, figs core.RuntimeFigures) result {
	var r = result{probe.Clust(clust), map[string]float64{}}
	for n, v := range probe.Figures(figs) {
		switch n {
		case core.Iterations, core.PushedData, core.Duration, core.LastDataTime:
		default:
			r.figs[n] = v
		}
	}
	return r
}

func (r result) String() string {
	var names []string
	for n := range r.figs {
		names = append(names, n)
	}
	sort.Strings(names)
	var l []string
	for _, n := range names {
		l = append(l, fmt.Sprint(n, "=", r.figs[n]))
	}
	return fmt.Sprint(r.clust, l)
}

func (r result) near(o result) bool {
	if len(r.clust) != len(o.clust) || len(r.figs) != len(o.figs) || !nearSeries(r.clust, o.clust) {
		return false
	}
	for n, v := range r.figs {
		if w, ok := o.figs[n]; !ok || !near(v, w) {
			return false
		}
	}
	return true
}

// byHand initializes and iterates an implementation, without a controller.
func byHand(k seededKind, seed uint64, lives int) (out result) {
	var data = seededData()
	var algo = k.mk(core.CtrlConf{}, seed, 1, data)
	var impl, conf, space = algo.Impl(), algo.Conf(), algo.Space()
	var figs core.RuntimeFigures
	for l := 0; l < lives; l++ {
		var clust, err = impl.Init(core.NewSimpleOCModel(conf, space, core.NewOCStatus(core.Created), core.RuntimeFigures{}, nil))
		for i := 0; i < seededIters && err == nil; i++ {
			clust, figs, err = impl.Iterate(core.NewSimpleOCModel(conf, space, core.NewOCStatus(core.Running), core.RuntimeFigures{}, clust))
		}
		if err != nil {
			vsched.Fail("%v", err)
		}
		out = resultOf(clust, figs)
	}
	return
}

// drive makes one run, in one of several ways.
func drive(algo *core.Algo, way string) (err error) {
	var must = func(e error) {
		if err == nil {
			err = e
		}
	}
	switch way {
	case "batch":
		must(algo.Batch())
	case "init":
		must(algo.Init())
		must(algo.Play())
		must(algo.Wait(nil, 0))
	case "play":
		must(algo.Play())
		must(algo.Wait(nil, 0))
	case "pauses":
		must(algo.Play())
		for i := 0; i < 3; i++ {
			vsched.Sleep(130 * time.Millisecond)
			if algo.Pause() == nil {
				vsched.Sleep(70 * time.Millisecond)
				must(algo.Play())
			}
		}
		if algo.Status().Value == core.Running {
			must(algo.Wait(nil, 0))
		}
	case "twice":
		must(algo.Play())
		must(algo.Wait(nil, 0))
		must(algo.Stop())
		must(algo.Play())
		must(algo.Wait(nil, 0))
	}
	return
}

func reproduced(k seededKind, way string, reads []string, cpus int, pushed int, freq float64, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s on %d processors, %s, %d elements pushed, frequency %v, aside %s", k.name, cpus, way, pushed, freq, strings.Join(reads, " ")),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 30000},
		Body: func() {
			var seed = uint64(1 + vsched.Choose(3, 0, "seed"))
			var lives = 1
			if way == "twice" {
				lives = 2
			}
			var want = byHand(k, seed, lives)
			vsched.Sleep(1234567891)
			var data = seededData()
			var n = len(data) - pushed
			var algo = k.mk(core.CtrlConf{Iter: seededIters, IterFreq: freq}, seed, cpus, data[:n:n])
			// another one at the same time
			var other = k.mk(core.CtrlConf{Iter: seededIters}, seed+5, cpus, data)
			for _, e := range data[n:] {
				if err := algo.Push(e); err != nil {
					vsched.Fail("%v", err)
				}
			}
			var t = vsched.GoNamed("aside", func() {
				for _, op := range reads {
					switch op {
					case "Predict":
						algo.Predict(vec(4))
					case "Figures":
						var f = algo.RuntimeFigures()
						for n := range f {
							f[n] = math.Pi
						}
					case "Centroids":
						probe.Clust(algo.Centroids())
					case "Copy":
						var c, err = algo.Copy(k.conf(seed+9), algo.Space())
						if err == nil {
							c.Predict(vec(3))
						}
					case "Other":
						other.Play()
					case "OtherBatch":
						other.Batch()
					}
				}
			})
			if err := drive(algo, way); err != nil {
				vsched.Fail("%v", err)
			}
			t.Join()
			var got = resultOf(algo.Centroids(), algo.RuntimeFigures())
			if !want.near(got) {
				vsched.Fail("seed %d: the result is %v instead of %v", seed, got, want)
			}
			algo.Stop()
			other.Stop()
			vsched.SetOutcome(fmt.Sprint(seed, got))
		},
	}
}

func regC30() {
	register(&Property{
		ID: "C30",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, largeSeeds(thorough)...)
			for _, k := range seededKinds() {
				for _, way := range []string{"batch", "init", "play", "pauses", "twice"} {
					if k.name == "streaming" && way == "twice" {
						continue // goes on with what it has
					}
					for _, aside := range [][]string{{}, {"Predict", "Figures"}, {"Centroids", "Predict"}, {"Copy"}, {"Other", "Predict"}, {"OtherBatch"}} {
						for _, cpus := range []int{1, 3} {
							if strings.Contains(k.name, "false") && cpus > 1 || k.name == "streaming" && cpus > 1 {
								continue
							}
							var freq = 0.
							if way == "pauses" {
								freq = 10
							}
							var m = [2]int{0, 1}
							if len(aside) == 2 && way != "twice" {
								m[0] = 1
							}
							out = append(out, reproduced(k, way, aside, cpus, len(aside)*2, freq, m))
						}
					}
				}
			}
			return
		},
		Rule:   "runs of every algorithm and initializer, for several seeds, ways to run (at once, with pauses, again), elements given or pushed before, degrees of parallelism, with other clients reading, copying, and running another algorithm: the centroids and the figures against those of an implementation initialized and iterated by hand with the same seed; 60 elements, 6 seeds, degrees up to 16",
		Assume: []string{"3 seeds, 4 iterations, 8 elements", "deviations are bounded per scenario"},
	})
}

func init() { regC30() }
