package main

import (
	"fmt"
	"math"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"golang.org/x/exp/rand"
	"verif/vsched"
)

// ---- C22: the chain of mcmc -----------------------------------------------------------

// constant is a source of random numbers that always answers the same number of [0,1).
type constant struct{ g float64 }

func (c *constant) Seed(uint64)    {}
func (c *constant) Uint64() uint64 { return uint64(c.g * (1 << 53)) }

// recorder is a distribution that shifts centers and writes down what it is asked.
type recorder struct {
	shift float64
	mus   [][]float64
	outs  [][]float64
	times []int
}

func (r *recorder) Sample(mu core.Elemt, time int) core.Elemt {
	var m = mu.([]float64)
	var out = append([]float64{}, m...)
	out[0] += r.shift * float64(1+len(r.mus)%2*-3)
	r.mus = append(r.mus, append([]float64{}, m...))
	r.outs = append(r.outs, append([]float64{}, out...))
	r.times = append(r.times, time)
	return out
}

func (r *recorder) Pdf(x, mu core.Elemt, time int) float64 { return refPdf(mu.([]float64), time) }

// any function of the centers will do
func refPdf(mu []float64, time int) float64 {
	return -math.Abs(mu[0]-2)/4 - .1*float64(time)
}

type chainConf struct {
	initK, maxK  int
	amp, b, norm float64
	par          bool
	points       [][]float64
	feed         [][]float64 // elements that may be pushed between iterations
	frame        int
	staged       bool // pushed while running
	burst        int  // elements pushed together
}

func (c chainConf) String() string {
	var elements = fmt.Sprint(c.points)
	if len(c.points) > 100 {
		elements = fmt.Sprintf("%v… (%d)", c.points[:3], len(c.points))
	}
	return fmt.Sprintf("init %d, max %d, amplitude %v, box %v, norm %v, parallel %v, elements %s", c.initK, c.maxK, c.amp, c.b, c.norm, c.par, elements) + c.fed()
}

func (c chainConf) fed() string {
	if c.feed == nil {
		return ""
	}
	return fmt.Sprintf(", then %v, frame %d, while running %v, by %d", c.feed, c.frame, c.staged, c.burst)
}

var chainDraws = []float64{0, .25, .6, nearOne}
var chainShifts = []float64{0, .5, -1.75}

// chains runs every sequence of proposals, shifts and draws.
func chains(cc chainConf, depth int) Scenario {
	return pure(fmt.Sprintf("%v, %d iterations", cc, depth), func() {
		forAll(same(3*len(chainDraws)*len(chainShifts)*(1+len(cc.feed)), depth), func(ix []int) { runChain(cc, ix) })
	})
}

func runChain(cc chainConf, ix []int) {
	var source = &constant{}
	var distrib = &recorder{}
	var space = euclid.NewSpace()
	var data []core.Elemt
	for _, p := range cc.points {
		data = append(data, append([]float64{}, p...))
	}
	var rows = raw(data)
	var all = rows
	var before = fmt.Sprint(rows)
	var dim, n = len(cc.points[0]), len(cc.points)
	var mk = func(proba []float64) *mcmc.Conf {
		return &mcmc.Conf{InitK: cc.initK, MaxK: cc.maxK, Amp: cc.amp, B: cc.b, Norm: cc.norm, Par: cc.par, NumCPU: 2, FrameSize: cc.frame,
			RGen: rand.New(source), ProbaK: proba}
	}
	var conf = mk([]float64{1, 8, 1})
	var impl mcmc.Impl
	if cc.par {
		impl = mcmc.NewParImpl(*conf, kmeans.GivenInitializer, data, distrib)
	} else {
		impl = mcmc.NewSeqImpl(*conf, kmeans.GivenInitializer, data, distrib)
	}
	var status = core.NewOCStatus(core.Running)
	var clust, err = impl.Init(core.NewSimpleOCModel(conf, space, status, core.RuntimeFigures{}, nil))
	if err != nil {
		vsched.Fail("%v: %v", cc, err)
		return
	}
	type state struct {
		centers   [][]float64
		loss, pdf float64
	}
	var pdf = func(c [][]float64) (p float64) {
		for _, x := range c {
			p += refPdf(x, n)
		}
		return
	}
	var cur = state{raw(data[:cc.initK]), refLoss(rows, raw(data[:cc.initK]), cc.norm), pdf(raw(data[:cc.initK]))}
	if !nearSeries(raw(clust), cur.centers) {
		vsched.Fail("%v: starts from %v", cc, raw(clust))
		return
	}
	var stored = map[int][][]float64{}
	var acc = 0
	var pending = len(rows)
	var story []string
	var kept []core.Clust
	var keptc []string
	var fail = func(f string, args ...interface{}) {
		vsched.Fail("%v: %v: %s", cc, story, fmt.Sprintf(f, args...))
	}
	for _, x := range ix {
		var dir = x%3 - 1
		x /= 3
		source.g = chainDraws[x%len(chainDraws)]
		x /= len(chainDraws)
		distrib.shift = chainShifts[x%len(chainShifts)]
		x /= len(chainShifts)
		distrib.mus, distrib.outs, distrib.times = nil, nil, nil
		story = append(story, fmt.Sprintf("%+d clusters, draw %v, shift %v;", dir, source.g, distrib.shift))
		if x > 0 {
			var st = core.NewOCStatus(core.Finished)
			if cc.staged {
				st = status
			}
			for i := 0; i < cc.burst; i++ {
				var e = append([]float64{}, cc.feed[x-1]...)
				e[0] += float64(3 * i)
				story = append(story, fmt.Sprintf("push %v;", e))
				if err := impl.Push(e, core.NewSimpleOCModel(conf, space, st, core.RuntimeFigures{}, clust)); err != nil {
					fail("%v", err)
					return
				}
				all = append(append([][]float64{}, all...), append([]float64{}, e...))
			}
		}
		var proba = []float64{0, 0, 0}
		proba[dir+1] = 1
		conf = mk(proba)
		kept = append(kept, clust)
		keptc = append(keptc, fmt.Sprint(raw(clust)))
		var next, figures, err = impl.Iterate(core.NewSimpleOCModel(conf, space, status, core.RuntimeFigures{}, clust))
		Eval(1)
		if err != nil {
			fail("%v", err)
			return
		}
		// the data of the iteration
		var used = all
		if cc.staged {
			// what is pushed may be used now or at the next iteration
			var t = int(figures[mcmc.Time])
			if t > len(all) || t < len(rows) {
				fail("%d elements are used", t)
				return
			}
			if x == 0 && t < pending {
				fail("elements pushed before the last iteration are not used")
			}
			used = all[:t]
			pending = len(all)
		} else if cc.frame > 0 && len(all) > cc.frame {
			used = all[len(all)-cc.frame:]
		}
		if fmt.Sprint(used) != fmt.Sprint(rows) {
			// both sides of the comparison are about the same data
			rows, n = used, len(used)
			if !clearCut(rows, cur.centers) {
				return
			}
			cur.loss, cur.pdf = refLoss(rows, cur.centers, cc.norm), pdf(cur.centers)
		}
		// the proposal
		var k = len(cur.centers) + dir
		if k < 1 {
			k = 1
		}
		if k > cc.maxK {
			k = cc.maxK
		}
		if k > n {
			k = n
		}
		var known, has = stored[k]
		if !has && k > len(cur.centers) && near(refLoss(rows, cur.centers, 1), 0) {
			k = len(cur.centers) // no element left to add
			known, has = stored[k]
		}
		if len(distrib.mus) != k {
			fail("%d clusters are proposed instead of %d", len(distrib.mus), k)
			return
		}
		for _, t := range distrib.times {
			if t != n {
				fail("the time is %d instead of %d", t, n)
			}
		}
		var origin = false
		switch {
		case has:
			origin = nearSeries(distrib.mus, known)
		case k == len(cur.centers):
			origin = nearSeries(distrib.mus, cur.centers)
		case k > len(cur.centers):
			for _, e := range rows {
				var _, d = refLabel(e, cur.centers)
				if d > 0 && nearSeries(distrib.mus, append(append([][]float64{}, cur.centers...), e)) {
					origin = true
				}
			}
		default:
			for i := range cur.centers {
				var less = append(append([][]float64{}, cur.centers[:i]...), cur.centers[i+1:]...)
				origin = origin || nearSeries(distrib.mus, less)
			}
		}
		if !origin {
			fail("the proposal starts from %v, the current centers are %v, the last ones with %d clusters %v", distrib.mus, cur.centers, k, known)
			return
		}
		if !clearCut(rows, distrib.outs) {
			return // rounding would decide
		}
		var prop = state{centers: lloyd(rows, distrib.outs)}
		if !clearCut(rows, prop.centers) {
			return
		}
		prop.loss, prop.pdf = refLoss(rows, prop.centers, cc.norm), pdf(prop.centers)
		// the decision
		var lambda = cc.amp * math.Sqrt(float64(dim+3)/float64(n))
		var gibbs = lambda * (cur.loss - prop.loss)
		var rho = math.Exp(gibbs + math.Log(2*cc.b)*float64(dim*(len(cur.centers)-k)) + cur.pdf - prop.pdf)
		for _, f := range []struct {
			name string
			want float64
		}{{mcmc.Lambda, lambda}, {mcmc.RGibbs, gibbs}, {mcmc.Rho, rho}, {mcmc.Time, float64(n)}} {
			if !near(figures[f.name], f.want) {
				fail("%s is %v instead of %v", f.name, figures[f.name], f.want)
				return
			}
		}
		if near(source.g, rho) && source.g != 0 {
			return
		}
		if source.g < rho {
			acc++
			cur = prop
			stored[k] = prop.centers
		}
		if figures[mcmc.Acceptations] != float64(acc) {
			fail("%v acceptations instead of %d", figures[mcmc.Acceptations], acc)
			return
		}
		if !nearSeries(raw(next), cur.centers) {
			fail("accepted %v: the centers are %v instead of %v", source.g < rho, raw(next), cur.centers)
			return
		}
		clust = next
	}
	for i, c := range kept {
		if fmt.Sprint(raw(c)) != keptc[i] {
			fail("the centers %s have been modified", keptc[i])
		}
	}
	if fmt.Sprint(raw(data)) != before {
		fail("the data have been modified")
	}
}

// fewerAndMore takes every number of clusters, and one less or one more for many draws:
// every cluster may be the one that is removed, every element that is not a center may be added.
func fewerAndMore(most int) Scenario {
	return pure(fmt.Sprintf("one cluster less or more, up to %d clusters", most), func() {
		var space = euclid.NewSpace()
		for k := 2; k <= most; k++ {
			var rows [][]float64
			for i := 0; i < 2*k; i++ {
				rows = append(rows, vec(float64(i*i+3*i), float64(i)))
			}
			var data = asElemts(rows)
			var removed, added = make([]int, k), make([]int, 2*k)
			for draw := 0; draw < 100*k; draw++ {
				Eval(2)
				var clust core.Clust
				for i := 0; i < k; i++ {
					clust = append(clust, append([]float64{}, rows[i]...))
				}
				var before = fmt.Sprint(raw(clust))
				var source = &script{n: 3 * draw}
				var store = mcmc.NewCenterStore(rand.New(source))
				var less, err = store.GetCenters(data, space, k-1, clust)
				if err != nil || len(less) != k-1 {
					vsched.Fail("one of %d clusters less: %v %v", k, raw(less), err)
					return
				}
				var kept = make(map[string]bool)
				for i := range less {
					kept[fmt.Sprint(less[i])] = true
				}
				var gone []int
				for i := range clust {
					if !kept[fmt.Sprint(clust[i])] {
						gone = append(gone, i)
					}
				}
				if len(gone) != 1 || len(kept) != k-1 {
					vsched.Fail("one of the clusters %v less: %v", raw(clust), raw(less))
					return
				}
				removed[gone[0]]++
				store = mcmc.NewCenterStore(rand.New(source))
				var more, err2 = store.GetCenters(data, space, k+1, clust)
				if err2 != nil || len(more) != k+1 || !nearSeries(raw(more[:k]), raw(clust)) {
					vsched.Fail("one cluster more than %v: %v %v", raw(clust), raw(more), err2)
					return
				}
				var found = false
				for i := k; i < len(rows); i++ {
					if fmt.Sprint(more[k]) == fmt.Sprint(rows[i]) {
						found = true
						added[i]++
					}
				}
				if !found {
					vsched.Fail("the cluster added to %v is %v", raw(clust), more[k])
					return
				}
				for _, c := range append(append([]core.Elemt{}, less...), more...) {
					c.([]float64)[0] += 1000
				}
				if fmt.Sprint(raw(clust)) != before {
					vsched.Fail("the centers %s are shared with those made from them", before)
					return
				}
				data = asElemts(rows)
			}
			for i, n := range removed {
				if n == 0 {
					vsched.Fail("cluster %d out of %d is never removed: %v", i, k, removed)
					return
				}
			}
			for i := k; i < len(rows); i++ {
				if added[i] == 0 && i > 2*k-3 { // far from the others
					vsched.Fail("element %d is never added: %v", i, added)
					return
				}
			}
		}
	})
}

func regC22() {
	register(&Property{
		ID: "C22",
		Scenarios: func(thorough bool) (out []Scenario) {
			var depth = 2
			if thorough {
				depth = 3
			}
			var sets = [][][]float64{points1(0, 1, 6, 7), points1(3, 0, 8), points1(5, 5), {{0, 1}, {4, 0}, {5, 5}}}
			for _, points := range sets {
				for initK := 1; initK <= 3 && initK <= len(points); initK++ {
					for maxK := initK; maxK <= 4; maxK++ {
						for i, a := range []float64{0, .4, 2} {
							for _, par := range []bool{false, true} {
								var norm = float64(1 + (i+maxK)%2)
								out = append(out, chains(chainConf{initK, maxK, a, []float64{.5, 1, 3}[i], norm, par, points, nil, 0, false, 0}, depth))
							}
						}
					}
				}
			}
			out = append(out, chains(chainConf{1, 3, .4, 1, 2, false, points1(0, 1, 6, 7), nil, 0, false, 0}, depth+1))
			for _, par := range []bool{false, true} {
				for _, c := range []chainConf{
					{1, 3, .4, 1, 2, par, points1(0, 1), points1(5, 9), 0, false, 1},
					{1, 3, 2, .5, 1, par, points1(0, 1, 4), points1(6), 3, false, 1},
					{2, 2, .1, 1, 2, par, points1(0, 4), points1(-3), 2, false, 1},
					{1, 3, .4, 1, 2, par, points1(0, 1), points1(5), 0, true, 1},
					{1, 3, .4, 1, 2, par, points1(0, 1), points1(4), 0, true, 3},
					{1, 3, .2, 1, 2, par, points1(1), points1(5), 0, false, 3},
					{1, 3, .3, 1, 1, par, points1(0, 1), points1(4), 2, false, 3},
				} {
					out = append(out, chains(c, depth))
				}
			}
			out = append(out, fewerAndMore(map[bool]int{false: 12, true: 30}[thorough]))
			out = append(out, zigzags(map[bool]int{false: 8, true: 14}[thorough], 3)...)
			out = append(out, longChains(map[bool]int{false: 25, true: 80}[thorough])...)
			if thorough {
				out = append(out, chains(chainConf{1, 2, .2, 1, 2, false, points1(0, 1), points1(5), 0, true, 1}, depth+1))
			}
			return
		},
		Rule:   "every sequence of 2 (3) iterations: number of clusters less, same, more; shift of the sampled centers; random number; an element pushed before it or not; for several data sets, initial and maximal numbers of clusters and parameters, sequential and parallel: the proposal, the acceptance ratio, the decision, the centers, the counters against their definition; former centers and data unchanged; long chains, cut where rounding could decide; up to 12 (30) clusters of which any may be removed; up to 8 (14) clusters and down again, three times",
		Assume: []string{"all random numbers of an iteration are the same, the direction of the change of the number of clusters is imposed by its probabilities"},
	})
}

func init() { regC22() }
