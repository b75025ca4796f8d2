package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C09: what clients read ---------------------------------------------------------

// publisher publishes at iteration n two centroids from which n can be told, in an order
// that depends on n: 10n+1 and -(10n+2).
type publisher struct {
	mock
	old []core.Clust
}

func (p *publisher) clust(n int) core.Clust {
	var c = core.Clust{vec(float64(10*n + 1)), vec(float64(-10*n - 2))}
	if n%2 == 1 {
		c[0], c[1] = c[1], c[0]
	}
	return c
}

func (p *publisher) Init(model core.OCModel) (core.Clust, error) {
	var c, err = p.mock.Init(model)
	if err == nil {
		c = p.clust(0)
	}
	return c, err
}

func (p *publisher) Iterate(model core.OCModel) (core.Clust, core.RuntimeFigures, error) {
	var c, f, err = p.mock.Iterate(model)
	if c != nil {
		c = p.clust(p.iters)
	}
	return c, f, err
}

// reader is a client that reads and checks what it reads.
type reader struct {
	r      *rig
	pub    *publisher
	last   int // the last iteration seen
	lives  bool
	kept   []core.Clust
	copies [][][]float64
	figs   []core.RuntimeFigures
	figsc  []map[string]float64
	seen   []string
}

func (rd *reader) order(n int, what string) {
	if !rd.lives && n < rd.last {
		vsched.Fail("%s shows iteration %d after iteration %d was seen", what, n, rd.last)
	}
	if n > rd.last {
		rd.last = n
	}
	rd.seen = append(rd.seen, fmt.Sprintf("%s%d", what[:1], n))
}

func (rd *reader) read(op string) {
	switch op {
	case "Push": // what follows is read by a client that pushes
		rd.r.algo.Push(vec(1))
	case "Centroids":
		var c = rd.r.algo.Centroids()
		if len(c) == 0 {
			return // not initialized yet
		}
		var l = probe.Clust(c)
		if len(l) != 2 {
			vsched.Fail("%d centroids are read", len(l))
			return
		}
		var n = int(math.Abs(l[0][0])) / 10
		var want = probe.Clust(rd.pub.clust(n))
		if l[0][0] != want[0][0] || l[1][0] != want[1][0] {
			vsched.Fail("the centroids %v are a mixture of iterations", l)
		}
		rd.kept = append(rd.kept, c)
		rd.copies = append(rd.copies, l)
		rd.order(n, "Centroids")
	case "Predict":
		var e, label, d = rd.r.algo.Predict(vec(0))
		if e == nil {
			if label != -1 {
				vsched.Fail("no centroid and the label %d", label)
			}
			return
		}
		var x = probe.Elemt(e)[0]
		var n = int(math.Abs(x)) / 10
		if x != float64(10*n+1) || label != n%2 || d != x {
			vsched.Fail("the prediction %v, label %d, distance %v belongs to no published model", x, label, d)
		}
		rd.order(n, "Predict")
	case "Figures":
		var f = rd.r.algo.RuntimeFigures()
		var l = probe.Figures(f)
		var n = int(l[core.Iterations])
		if int(l["mine"]) != n {
			vsched.Fail("the figures %v are a mixture of iterations", l)
		}
		rd.figs = append(rd.figs, f)
		rd.figsc = append(rd.figsc, l)
		rd.order(n, "Figures")
	}
}

// retained checks that what was read did not change since.
func (rd *reader) retained() {
	for i, c := range rd.kept {
		if fmt.Sprint(probe.Clust(c)) != fmt.Sprint(rd.copies[i]) {
			vsched.Fail("centroids that were read as %v are %v now", rd.copies[i], probe.Clust(c))
		}
	}
	for i, f := range rd.figs {
		if fmt.Sprint(probe.Figures(f)) != fmt.Sprint(rd.figsc[i]) {
			vsched.Fail("figures that were read as %v are %v now", rd.figsc[i], f)
		}
	}
}

func snapshots(setup, ctl, reads []string, lives bool, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("[%s] %s aside reads %s", strings.Join(setup, " "), strings.Join(ctl, " "), strings.Join(reads, " ")),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 8000},
		Body: func() {
			var p = &publisher{}
			var r = &rig{m: &p.mock, conf: &mockConf{CtrlConf: core.CtrlConf{Iter: 3}}}
			r.algo = core.NewAlgo(r.conf, p, line{})
			var rd = &reader{r: r, pub: p, lives: lives}
			for _, op := range setup {
				r.do(0, op)
			}
			var t = vsched.GoNamed("reader", func() {
				for _, op := range reads {
					rd.read(op)
				}
			})
			for _, op := range ctl {
				r.do(0, op)
			}
			t.Join()
			settle()
			rd.lives = true
			for _, op := range []string{"Centroids", "Predict", "Figures"} {
				rd.read(op)
			}
			rd.retained()
			r.do(0, "Stop")
			vsched.SetOutcome(strings.Join(rd.seen, " "))
		},
	}
}

// ---- real algorithms ----------------------------------------------------------------

// realKind is a real algorithm over one-dimensional data.
type realKind struct {
	name string
	mk   func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf)
}

func realKinds() []realKind {
	var source = func() *rand.Rand { return rand.New(rand.NewSource(7)) }
	var space = euclid.NewSpace()
	var km = func(par bool, frame int) func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf) {
		return func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf) {
			var conf = kmeans.Conf{CtrlConf: ctrl, K: 2, Par: par, NumCPU: 2, FrameSize: frame, RGen: source()}
			return kmeans.NewAlgo(conf, space, data, kmeans.GivenInitializer), func() core.Conf {
				return &kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 2}, K: 2, Par: par, NumCPU: 2, RGen: source()}
			}
		}
	}
	var mc = func(par bool) func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf) {
		return func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf) {
			var conf = mcmc.Conf{CtrlConf: ctrl, InitK: 2, MaxK: 3, Amp: 1, B: 1, Par: par, NumCPU: 2, RGen: source()}
			var d = mcmc.NewLateDistrib(func(core.Elemt) mcmc.Distrib {
				return mcmc.NewMultivT(mcmc.MultivTConf{Dim: 1, Nu: 3, RGen: source()})
			})
			return mcmc.NewAlgo(conf, space, data, kmeans.GivenInitializer, d), func() core.Conf {
				return &mcmc.Conf{CtrlConf: core.CtrlConf{Iter: 2}, InitK: 2, MaxK: 3, Amp: 1, B: 1, Par: par, NumCPU: 2, RGen: source()}
			}
		}
	}
	return []realKind{
		{"k-means", km(false, 0)},
		{"k-means with a frame", km(false, 5)},
		{"parallel k-means", km(true, 0)},
		{"mcmc", mc(false)},
		{"parallel mcmc", mc(true)},
		{"streaming", func(ctrl core.CtrlConf, data []core.Elemt) (*core.Algo, func() core.Conf) {
			var conf = streaming.Conf{CtrlConf: ctrl, BufferSize: 20, RGen: source()}
			return streaming.NewAlgo(conf, space, data), func() core.Conf {
				return &streaming.Conf{CtrlConf: core.CtrlConf{Iter: 2, IterFreq: 5}, BufferSize: 20, RGen: source()}
			}
		}},
	}
}

func realData() []core.Elemt { return []core.Elemt{vec(0), vec(10), vec(1), vec(12)} }

// realSnapshots reads a real algorithm while it runs and is fed.
func realSnapshots(k realKind, reads, ctl []string, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, %s aside reads %s", k.name, strings.Join(ctl, " "), strings.Join(reads, " ")),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 20000},
		Body: func() {
			var data = realData()
			var before = fmt.Sprint(data)
			var algo, _ = k.mk(core.CtrlConf{Iter: 3}, data)
			var r = &rig{m: &mock{}, algo: algo}
			var iters = 0
			var kept []core.Clust
			var copies []string
			var figs []core.RuntimeFigures
			var figsc []string
			var read = func(ops []string) {
				for _, op := range ops {
					switch op {
					case "Centroids":
						var c = algo.Centroids()
						kept = append(kept, c)
						copies = append(copies, fmt.Sprint(probe.Clust(c)))
					case "Figures":
						var f = algo.RuntimeFigures()
						figs = append(figs, f)
						figsc = append(figsc, fmt.Sprint(probe.Figures(f)))
						var n = probe.Iterations(f)
						if n < iters {
							vsched.Fail("%d iterations are counted after %d", n, iters)
						}
						iters = n
					case "Predict":
						var x = 4.
						var e, label, d = algo.Predict(vec(x))
						if e == nil {
							if label != -1 {
								vsched.Fail("no centroid and the label %d", label)
							}
							continue
						}
						var v = probe.Elemt(e)
						if label < 0 || !(math.Abs(math.Abs(v[0]-x)-d) <= 1e-9) {
							vsched.Fail("the prediction %v, label %d, distance %v belongs to no model", v, label, d)
						}
						kept = append(kept, core.Clust{e})
						copies = append(copies, fmt.Sprint(probe.Clust(core.Clust{e})))
					}
				}
			}
			r.do(0, "Init")
			read([]string{"Centroids", "Figures"})
			var t = vsched.GoNamed("reader", func() { read(reads) })
			for _, op := range ctl {
				r.do(0, op)
			}
			t.Join()
			settle()
			read([]string{"Figures", "Centroids", "Predict"})
			r.do(0, "Stop")
			for i, c := range kept {
				if s := fmt.Sprint(probe.Clust(c)); s != copies[i] {
					vsched.Fail("centroids that were read as %s are %s now", copies[i], s)
				}
			}
			for i, f := range figs {
				if s := fmt.Sprint(probe.Figures(f)); s != figsc[i] {
					vsched.Fail("figures that were read as %s are %s now", figsc[i], s)
				}
			}
			if s := fmt.Sprint(data); s != before {
				vsched.Fail("the data of the client were modified: %s, now %s", before, s)
			}
			vsched.SetOutcome(strings.Join(copies, " "))
		},
	}
}

func regC09() {
	register(&Property{
		ID: "C09",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Centroids", "Predict", "Figures"}
			var reads [][]string
			for _, a := range ops {
				for _, b := range ops {
					reads = append(reads, []string{a, b})
					for _, c := range ops {
						if thorough {
							reads = append(reads, []string{a, b, c})
						}
					}
				}
			}
			out = append(out, crowds([]int{1, 2, 3, 7, 8, 9, 16, 17, 33, 64, 65, 100}, 60))
			out = append(out, realHistories(60)...)
			for _, s := range [][]string{{}, {"Init"}, {"Play"}} {
				for _, op := range ops {
					out = append(out, snapshots(s, []string{"Play", "Pause", "Play"}, []string{"Push", op}, false, [2]int{2, 3}))
				}
			}
			for _, rd := range reads {
				for _, s := range [][]string{{}, {"Init"}, {"Play"}} {
					out = append(out, snapshots(s, []string{"Play", "Push", "Pause", "Play"}, rd, false, [2]int{2, 3}))
					out = append(out, snapshots(s, []string{"Play", "Stop", "Init", "Play"}, rd, true, [2]int{2, 2}))
				}
				for _, k := range realKinds() {
					out = append(out, realSnapshots(k, rd, []string{"Push", "Play", "Push", "Pause", "Push", "Play"}, [2]int{1, 1}))
				}
			}
			return
		},
		Rule:   "clients read centroids, predictions and figures while the algorithm is driven, fed and iterates; a mock publishes models from which the iteration can be told, so that a mixture, a step backwards or a later change of what was read is seen; the same with the real algorithms, for what was read before; up to 100 centroids, 60 iterations",
		Assume: []string{"preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})
}

// ---- C10: data races ------------------------------------------------------------------

// client operations of the whole interface on any algorithm
func (r *rig) use(k *realKind, conf func() core.Conf, thread int, op string) {
	switch op {
	case "Conf":
		_ = r.algo.Conf().Ctrl().Iter
		_ = r.algo.Space()
		_ = r.algo.Impl()
	case "Copy":
		var c, err = r.algo.Copy(conf(), r.algo.Space())
		if err == nil {
			// both go on
			c.Init()
			probe.Clust(c.Centroids())
		}
	case "CopyRun": // the copy runs while the original does
		var c, err = r.algo.Copy(conf(), r.algo.Space())
		if err == nil {
			c.Play()
			c.Push(vec(3))
			c.Wait(nil, time.Second)
			c.Play()
			probe.Clust(c.Centroids())
			c.Stop()
		}
	default:
		r.do(thread, op)
	}
}

func races(k *realKind, setup []string, progs [][]string, max [2]int) Scenario {
	var name = "mock"
	if k != nil {
		name = k.name
	}
	return Scenario{
		Name: fmt.Sprintf("%s, [%s] %s", name, strings.Join(setup, " "), progNames(progs)),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 4000},
		Body: func() {
			var r *rig
			var conf = func() core.Conf { return &mockConf{} }
			if k == nil {
				r = newRig(core.CtrlConf{Iter: 2, DataPerIter: 1}, &mock{noYield: true})
			} else {
				r = &rig{m: &mock{}}
				var ctrl = core.CtrlConf{Iter: 2, DataPerIter: 1}
				if k.name == "streaming" { // waits for data, which may never come
					ctrl.IterFreq, ctrl.Timeout = 5, time.Second
				}
				r.algo, conf = k.mk(ctrl, realData())
			}
			for _, op := range setup {
				r.use(k, conf, 0, op)
			}
			var ts []vsched.Thread
			for i, p := range progs {
				var i, p = i, p
				ts = append(ts, vsched.GoNamed(fmt.Sprintf("client%d", i+1), func() {
					for _, op := range p {
						r.use(k, conf, i+1, op)
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			vsched.Sleep(time.Second)
			r.do(0, "Stop")
			vsched.SetOutcome(r.history())
		},
	}
}

func regC10() {
	register(&Property{
		ID:   "C10",
		Race: true,
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Push", "Predict", "Centroids", "Figures", "Status", "Conf", "Copy", "Play", "Pause", "Stop", "Init", "Batch"}
			var kinds = []*realKind{nil}
			for _, k := range realKinds() {
				var k = k
				kinds = append(kinds, &k)
			}
			for _, k := range kinds {
				for _, s := range [][]string{{"Init"}, {"Play"}, {"Push", "Play", "Pause"}, {"Play", "Stop"}} {
					for _, p := range multisets(ops, 2) {
						var q = 1
						if len(s) == 3 || k != nil && k.name == "k-means with a frame" {
							q = 0
						}
						out = append(out, races(k, s, threads(p), [2]int{q, 2}))
					}
				}
				// an original and its copies run together
				if k != nil {
					for _, s := range [][]string{{}, {"Init"}, {"Play"}} {
						out = append(out, races(k, s, [][]string{{"CopyRun"}, {"Play", "Push", "Play"}}, [2]int{1, 2}), races(k, s, [][]string{{"CopyRun"}, {"CopyRun"}}, [2]int{0, 1}))
					}
				}
				// through the end of a run
				for _, a := range []string{"Push", "Predict", "Centroids", "Figures", "Copy", "Conf", "Status"} {
					for _, s := range [][]string{{"Play"}, {"Push", "Play"}, {"Batch"}} {
						out = append(out, races(k, s, [][]string{{"Sleep", a, "Sleep", a}}, [2]int{1, 2}), races(k, s, [][]string{{"Sleep", a, "Sleep", a}, {a, "Sleep", "Figures"}}, [2]int{0, 1}))
					}
				}
				for _, a := range []string{"Push", "Predict", "Centroids", "Figures", "Copy"} {
					for _, b := range []string{"Push", "Predict", "Centroids", "Figures", "Copy"} {
						out = append(out, races(k, []string{"Init"}, [][]string{{a, b}, {"Push", "Play", "Push"}}, [2]int{1, 2}))
					}
				}
			}
			return
		},
		Rule:   "pairs of clients of the mock, k-means, mcmc and streaming algorithms, sequential and parallel, with every operation of the interface, from every state, through the end of a run, an original and copies that run together; every schedule is executed under the race detector, to which only the synchronization of the program is announced, so that accesses not ordered by it are reported whatever the order they happen in",
		Assume: []string{"the race detector keeps a bounded history of accesses", "preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})
}

func init() {
	regC09()
	regC10()
}
