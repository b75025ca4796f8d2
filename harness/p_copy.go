package main

import (
	"errors"
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C27: copies ----------------------------------------------------------------------

// drift is a distribution without any state.
type drift struct{}

func (drift) Sample(mu core.Elemt, time int) core.Elemt {
	var sample []float64
	for i, x := range mu.([]float64) {
		sample = append(sample, x+math.Sin(5*x+float64(time)+float64(i)))
	}
	return sample
}

func (drift) Pdf(x, mu core.Elemt, time int) float64 { return -math.Abs(mu.([]float64)[0]) / 9 }

// scaled is a space that counts what it is asked; its distances are scaled.
type scaled struct {
	euclid.Space
	scale float64
	calls int
}

func (s *scaled) Dist(a, b core.Elemt) float64 { s.calls++; return s.scale * s.Space.Dist(a, b) }
func (s *scaled) Combine(a core.Elemt, wa int, b core.Elemt, wb int) core.Elemt {
	s.calls++
	return s.Space.Combine(a, wa, b, wb)
}

// copied makes algorithms of a kind.
type copied struct {
	name  string
	frame int // of the original
	conf  func(copy bool) core.Conf
	mk    func(conf core.Conf, space core.Space, data []core.Elemt) *core.Algo
	// what the copy starts from, given the elements and the centroids of the original
	from func(held []core.Elemt, clust core.Clust) []core.Elemt
}

func copiedKinds() (out []copied) {
	var held = func(h []core.Elemt, c core.Clust) []core.Elemt { return h }
	for _, frames := range [][2]int{{0, 0}, {3, 3}, {4, 2}, {3, 0}, {0, 3}, {2, 5}} {
		for _, par := range []bool{false, true} {
			var frames, par = frames, par
			var of = func(copy bool) int {
				if copy {
					return frames[1]
				}
				return frames[0]
			}
			out = append(out, copied{fmt.Sprintf("k-means, frames %v, parallel %v", frames, par), frames[0], func(copy bool) core.Conf {
				var k = 2
				if copy {
					k = 1
				}
				return &kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 2}, K: k, Par: par, NumCPU: 2, FrameSize: of(copy), RGen: scripted()}
			}, func(conf core.Conf, space core.Space, data []core.Elemt) *core.Algo {
				return kmeans.NewAlgo(*conf.(*kmeans.Conf), space, data, kmeans.GivenInitializer)
			}, held})
			out = append(out, copied{fmt.Sprintf("mcmc, frames %v, parallel %v", frames, par), frames[0], func(copy bool) core.Conf {
				var k = 1
				if copy {
					k = 2
				}
				return &mcmc.Conf{CtrlConf: core.CtrlConf{Iter: 3}, InitK: k, MaxK: 3, Amp: 1, Par: par, NumCPU: 2, FrameSize: of(copy), RGen: scripted()}
			}, func(conf core.Conf, space core.Space, data []core.Elemt) *core.Algo {
				return mcmc.NewAlgo(*conf.(*mcmc.Conf), space, data, kmeans.GivenInitializer, drift{})
			}, held})
		}
	}
	// many moves, with generators of their own
	for _, par := range []bool{false, true} {
		var par = par
		out = append(out, copied{fmt.Sprintf("long mcmc, parallel %v", par), 0, func(copy bool) core.Conf {
			var k, gen = 2, scripted(3, 1<<62, 1<<40, 7<<60, 9)
			if copy {
				k, gen = 3, scripted(5<<61, 1<<20)
			}
			return &mcmc.Conf{CtrlConf: core.CtrlConf{Iter: 30}, InitK: k, MaxK: 6, Amp: .01, ProbaK: []float64{2, 1, 2}, Par: par, NumCPU: 2, RGen: gen}
		}, func(conf core.Conf, space core.Space, data []core.Elemt) *core.Algo {
			return mcmc.NewAlgo(*conf.(*mcmc.Conf), space, append([]core.Elemt{}, data...), kmeans.GivenInitializer, drift{})
		}, held})
	}
	out = append(out, copied{"streaming", 0, func(copy bool) core.Conf {
		var c = &streaming.Conf{CtrlConf: core.CtrlConf{Iter: 3, Finishing: betweenIterations{func() { vsched.Sleep(20 * time.Millisecond) }}}, BufferSize: 12, Mu: .5, Sigma: .1, RGen: scripted()}
		if copy {
			c.Mu, c.BufferSize = 2, 9
		}
		return c
	}, func(conf core.Conf, space core.Space, data []core.Elemt) *core.Algo {
		return streaming.NewAlgo(*conf.(*streaming.Conf), space, data)
	}, func(h []core.Elemt, c core.Clust) []core.Elemt { return c }})
	return
}

// picture is what a client sees of an algorithm.
func picture(algo core.OnlineClust) string {
	var f = probe.Figures(algo.RuntimeFigures())
	var l []string
	for _, name := range []string{core.Iterations, core.PushedData, mcmc.Acceptations, mcmc.RGibbs, mcmc.Rho, mcmc.Time, mcmc.Lambda, streaming.MaxDistance} {
		l = append(l, fmt.Sprintf("%s %v", name, f[name]))
	}
	return fmt.Sprintf("%s %v %s", statusName(algo.Status()), probe.Clust(algo.Centroids()), strings.Join(l, ", "))
}

// apply runs an operation and lets it come to its end.
func applyOp(algo core.OnlineClust, op string, x *float64) error {
	defer settle()
	switch op {
	case "Push":
		*x += 7
		return algo.Push(vec(math.Mod(*x, 23)))
	case "Play":
		return algo.Play()
	case "Stop":
		return algo.Stop()
	case "Init":
		return algo.Init()
	}
	panic(op)
}

func copies(k copied, before []string, ops []string, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, copied after [%s], then %d operations", k.name, strings.Join(before, " "), depth),
		Opt:  vsched.Options{MaxSteps: 60000},
		Body: func() {
			var s1, s2, s3 = &scaled{scale: 1}, &scaled{scale: 3}, &scaled{scale: 3}
			var data = []core.Elemt{vec(1), vec(12), vec(4)}
			var all = append([]core.Elemt{}, data...)
			var orig = k.mk(k.conf(false), s1, data)
			var x, y, z = 100., 200., 200.
			var story []string
			var hold = func() {
				x -= 7 // the element pushed last
				all = append(all, vec(math.Mod(x+7, 23)))
				x += 7
			}
			for _, op := range before {
				story = append(story, op)
				if err := applyOp(orig, op, &x); err == nil && op == "Push" {
					hold()
				}
			}
			var fail = func(f string, args ...interface{}) {
				vsched.Fail("%s: %s: %s", k.name, strings.Join(story, " "), fmt.Sprintf(f, args...))
			}
			var seen = picture(orig)
			var conf = k.conf(true)
			var cp, err = orig.Copy(conf, s2)
			story = append(story, "Copy")
			if err != nil {
				fail("%v", err)
				return
			}
			if cp.Conf() != conf || cp.Space() != core.Space(s2) {
				fail("the copy has another configuration or space than the given ones")
			}
			if cp.Impl() == orig.Impl() {
				fail("the copy shares the implementation of its original")
			}
			var fresh = "Created [] "
			if got := picture(cp); !strings.HasPrefix(got, fresh) || probe.Iterations(cp.RuntimeFigures()) != 0 || probe.Figures(cp.RuntimeFigures())[core.PushedData] != 0 {
				fail("a new copy is %s", got)
			}
			if now := picture(orig); now != seen {
				fail("a copy changes its original from %s into %s", seen, now)
			}
			// an algorithm made by hand
			var window = all
			if k.frame > 0 && len(all) > k.frame {
				window = all[len(all)-k.frame:]
			}
			var start []core.Elemt
			for _, e := range k.from(window, orig.Centroids()) {
				start = append(start, vec(probe.Elemt(e)...))
			}
			var twin = k.mk(k.conf(true), s3, start)
			var from = fmt.Sprint(probe.Clust(start))
			for i := 0; i < depth && !vsched.Failed(); i++ {
				var op = ops[vsched.Choose(len(ops), 0, "op")]
				story = append(story, op)
				var before1, before2 = picture(orig), picture(cp)
				if strings.HasPrefix(op, "copy.") {
					op = op[5:]
					var n = s1.calls
					var e1, e2 = applyOp(cp, op, &y), applyOp(twin, op, &z)
					if !sameErr(e1, e2) {
						fail("the copy answers %v, an algorithm made of %s answers %v", e1, from, e2)
					}
					if after := picture(orig); after != before1 || s1.calls != n {
						fail("the original changes from %s into %s, %d calls of its space", before1, after, s1.calls-n)
					}
				} else {
					var n = s2.calls
					applyOp(orig, op, &x)
					if after := picture(cp); after != before2 || s2.calls != n {
						fail("the copy changes from %s into %s, %d calls of its space", before2, after, s2.calls-n)
					}
				}
				if a, b := picture(cp), picture(twin); a != b {
					fail("the copy is %s, an algorithm made of %s is %s", a, from, b)
				}
			}
			for _, a := range []core.OnlineClust{orig, cp, twin} {
				a.Stop()
			}
			vsched.SetOutcome(strings.Join(story, " "))
		},
	}
}

// copyMeanwhile copies an algorithm that runs and is fed.
func copyMeanwhile(kind string, frame int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, frame of %d, copied while it runs and is fed", kind, frame),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 30000},
		Body: func() {
			var space = euclid.NewSpace()
			var used []int // elements the copy starts from
			var all = 3
			var elemt = func(i int) core.Elemt { return vec(float64(i)) }
			var data = []core.Elemt{elemt(0), elemt(1), elemt(2)}
			var initial = func(k int, elemts []core.Elemt, s core.Space, src *randRand) (core.Clust, error) {
				used = idsOf(elemts)
				return kmeans.GivenInitializer(k, elemts, s, src)
			}
			var orig *core.Algo
			var mkConf func() core.Conf
			if kind == "k-means" {
				mkConf = func() core.Conf { return &kmeans.Conf{K: 1, FrameSize: frame, RGen: scripted()} }
				orig = kmeans.NewAlgo(*mkConf().(*kmeans.Conf), space, data, initial)
			} else {
				mkConf = func() core.Conf { return &mcmc.Conf{InitK: 1, MaxK: 2, Amp: 1, FrameSize: frame, RGen: scripted()} }
				orig = mcmc.NewAlgo(*mkConf().(*mcmc.Conf), space, data, initial, drift{})
			}
			orig.Conf().Ctrl().IterFreq = 50
			orig.Play()
			var t = vsched.GoNamed("pusher", func() {
				for i := 0; i < 3; i++ {
					if err := orig.Push(elemt(3 + i)); err != nil {
						vsched.Fail("push answers %v", err)
					}
					all++
				}
			})
			vsched.Sleep(30 * 1e6)
			var least = all // pushes answered
			var cp, err = orig.Copy(mkConf(), space)
			var most = all + 1
			if err != nil {
				vsched.Fail("copy answers %v", err)
				return
			}
			t.Join()
			if err := cp.Init(); err != nil {
				vsched.Fail("the initialization of a copy answers %v", err)
			}
			var ok = false
			for n := least; n <= most && n <= 6; n++ {
				var l []int
				for i := 0; i < n; i++ {
					l = append(l, i)
				}
				ok = ok || sameData(used, lastOf(l, frame), 0)
			}
			if !ok {
				vsched.Fail("a copy made after %d to %d elements with a frame of %d starts from %v", least, most, frame, used)
			}
			orig.Stop()
			vsched.SetOutcome(fmt.Sprint(used))
		},
	}
}

// idleCopies copies an endless algorithm that is paused and resumed, and fed meanwhile.
func idleCopies(k copied, ops []string, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, endless, copied after %d operations of %s", k.name, depth, strings.Join(ops, " ")),
		Opt:  vsched.Options{MaxSteps: 60000},
		Body: func() {
			var data = []core.Elemt{vec(1), vec(12), vec(4)}
			var all = append([]core.Elemt{}, data...)
			var conf = k.conf(false)
			var endless = func(c *core.CtrlConf) {
				c.Iter, c.Finishing = 0, betweenIterations{func() { vsched.Sleep(700 * time.Millisecond) }}
			}
			switch c := conf.(type) {
			case *kmeans.Conf:
				endless(&c.CtrlConf)
			case *mcmc.Conf:
				endless(&c.CtrlConf)
			case *streaming.Conf:
				endless(&c.CtrlConf)
			}
			var orig = k.mk(conf, &scaled{scale: 1}, data)
			var x = 100.
			var story []string
			orig.Play()
			settle()
			for i := 0; i < depth; i++ {
				var op = ops[vsched.Choose(len(ops), 0, "op")]
				story = append(story, op)
				if op == "Pause" {
					orig.Pause()
					settle()
				} else if err := applyOp(orig, op, &x); err == nil && op == "Push" {
					all = append(all, vec(math.Mod(x, 23)))
				}
			}
			if k.name == "streaming" && orig.Status().Value == core.Running {
				orig.Pause() // its clusters do not move
				settle()
			}
			var cp, err = orig.Copy(k.conf(true), &scaled{scale: 3})
			if err != nil {
				vsched.Fail("%s: %v: %v", k.name, story, err)
				return
			}
			var window = all
			if k.frame > 0 && len(all) > k.frame {
				window = all[len(all)-k.frame:]
			}
			var start []core.Elemt
			for _, e := range k.from(window, orig.Centroids()) {
				start = append(start, vec(probe.Elemt(e)...))
			}
			var from = fmt.Sprint(probe.Clust(start))
			orig.Stop()
			var twin = k.mk(k.conf(true), &scaled{scale: 3}, start)
			var y, z = 200., 200.
			for _, op := range []string{"Play", "Push", "Play"} {
				applyOp(cp, op, &y)
				applyOp(twin, op, &z)
				if a, b := picture(cp), picture(twin); a != b {
					vsched.Fail("%s: %v: the copy is %s, an algorithm made of %s is %s", k.name, story, a, from, b)
					return
				}
			}
			cp.Stop()
			twin.Stop()
			vsched.SetOutcome(strings.Join(story, " "))
		},
	}
}

// largeStreamCopies copies an algorithm with many clusters.
func largeStreamCopies(most int) Scenario {
	return long(fmt.Sprintf("streaming, copied with up to %d clusters", most), func() {
		for n := 1; n <= most && !expired() && !vsched.Failed(); n += 1 + n/5 {
			Eval(1)
			var conf = func(mu float64) streaming.Conf {
				return streaming.Conf{CtrlConf: core.CtrlConf{Iter: n, Finishing: betweenIterations{func() { vsched.Sleep(5 * time.Millisecond) }}}, BufferSize: 2 * most, Mu: mu, Sigma: 1e-12, RGen: scripted()}
			}
			var mk = func(mu float64, data []core.Elemt) *core.Algo {
				return streaming.NewAlgo(conf(mu), &scaled{scale: 3}, data)
			}
			var data []core.Elemt
			for i := 0; i < n; i++ {
				data = append(data, vec(pattern(1, i)))
			}
			var orig = mk(-10, data) // every element makes a cluster
			orig.Play()
			settle()
			orig.Stop()
			if got := len(orig.Centroids()); got != n {
				vsched.Fail("%d clusters out of %d elements", got, n)
				return
			}
			var c = conf(.3)
			var cp, err = orig.Copy(&c, &scaled{scale: 3})
			if err != nil {
				vsched.Fail("%v", err)
				return
			}
			var twin = mk(.3, append([]core.Elemt{}, orig.Centroids()...))
			var x, y = 1., 1.
			for _, op := range []string{"Play", "Push", "Push", "Play", "Stop", "Push", "Play"} {
				applyOp(cp, op, &x)
				applyOp(twin, op, &y)
				if a, b := picture(cp), picture(twin); a != b {
					vsched.Fail("a copy of %d clusters is %s, an algorithm made by hand is %s", n, a, b)
					return
				}
			}
			for _, a := range []core.OnlineClust{orig, cp, twin} {
				a.Stop()
			}
		}
	})
}

// anyState copies an algorithm in any state, failed ones included.
func anyState(v variant, ops []string, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("copies in any state, %s, %d operations", v.name, depth),
		Opt:  vsched.Options{MaxSteps: 20000},
		Body: func() {
			var given core.OCModel
			var m = v.mk()
			m.onCopy = func(model core.OCModel) { given = model }
			var r = newRig(v.ctrl, m)
			for i := 0; i < depth && !vsched.Failed(); i++ {
				r.do(0, ops[vsched.Choose(len(ops), 0, "op")])
				settle()
				var fail = func(f string, args ...interface{}) {
					vsched.Fail("%s: %s", r.historyOps(), fmt.Sprintf(f, args...))
				}
				var before, told = picture(r.algo), len(r.notif)
				var conf, space = &mockConf{core.CtrlConf{Iter: 3}}, &scaled{scale: 1}
				var notif []string
				var cp core.OnlineClust
				conf.StatusNotifier = func(oc core.OnlineClust, s core.OCStatus) {
					if oc != cp {
						fail("the notifier of the copy is told about another algorithm")
					}
					notif = append(notif, s.Value.String())
				}
				given = nil
				var err error
				cp, err = r.algo.Copy(conf, space)
				if err != nil || cp == nil {
					fail("a copy answers %v", err)
					return
				}
				if given == nil || given.Conf() != core.Conf(conf) || given.Space() != core.Space(space) ||
					fmt.Sprint(probe.Clust(given.Centroids())) != fmt.Sprint(probe.Clust(r.algo.Centroids())) ||
					probe.Iterations(given.RuntimeFigures()) != probe.Iterations(r.algo.RuntimeFigures()) {
					fail("the implementation is not copied with the new configuration and space and the current model")
					return
				}
				if got := picture(cp); !strings.HasPrefix(got, "Created [] ") {
					fail("a new copy is %s", got)
				}
				if err := cp.Batch(); err != nil {
					fail("the copy answers %v", err)
				}
				settle()
				if st, n := cp.Status(), probe.Iterations(cp.RuntimeFigures()); st.Value != core.Finished || st.Error != nil || n != 3 {
					fail("the copy ends %s after %d iterations out of 3", statusName(st), n)
				}
				if l := fmt.Sprint(notif); l != "[Initializing Ready Running Ready Finished]" {
					fail("the notifier of the copy is told %s", l)
				}
				if after := picture(r.algo); len(r.notif) != told || after != before && r.algo.Status().Value != core.Running {
					fail("a copy changes its original from %s into %s (%s)", before, after, r.notifications())
				}
			}
			r.algo.Stop()
		},
	}
}

// refusing is an implementation that cannot be copied.
type refusing struct{ mock }

var errCopy = errors.New("cannot be copied")

func (r *refusing) Copy(core.OCModel) (core.Impl, error) { return nil, errCopy }

func refusedCopies(ops []string, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("copies that fail, %d operations", depth),
		Opt:  vsched.Options{MaxSteps: 6000},
		Body: func() {
			var r = &rig{m: &mock{}}
			r.algo = core.NewAlgo(&mockConf{core.CtrlConf{Iter: 2}}, &refusing{}, line{})
			for i := 0; i < depth; i++ {
				r.do(0, ops[vsched.Choose(len(ops), 0, "op")])
				settle()
				var before = picture(r.algo)
				var cp, err = r.algo.Copy(&mockConf{}, line{})
				if err != errCopy || cp != nil {
					vsched.Fail("%s: a copy that fails answers %v, %v", r.historyOps(), cp, err)
				}
				if after := picture(r.algo); after != before {
					vsched.Fail("%s: a copy that fails changes %s into %s", r.historyOps(), before, after)
				}
			}
			r.algo.Stop()
		},
	}
}

func regC27() {
	register(&Property{
		ID: "C27",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Push", "Play", "copy.Push", "copy.Play", "Stop", "copy.Stop", "copy.Init"}
			var befores = [][]string{{}, {"Push"}, {"Push", "Push", "Push", "Push"}, {"Play"}, {"Init", "Push"}, {"Play", "Push"}, {"Push", "Play", "Push", "Push"}, {"Play", "Stop"}}
			out = append(out, largeCopies(map[bool]int{false: 30, true: 80}[thorough])...)
			out = append(out, giantCopies()...)
			out = append(out, tightCopies())
			out = append(out, largeStreamCopies(map[bool]int{false: 120, true: 400}[thorough]))
			for _, k := range copiedKinds() {
				out = append(out, idleCopies(k, []string{"Push", "Pause", "Play"}, map[bool]int{false: 3, true: 6}[thorough]))
				for _, b := range befores {
					var depth = 2
					if thorough {
						depth = 4
					}
					if strings.HasPrefix(k.name, "long") {
						if len(b) > 2 {
							continue
						}
					}
					if strings.HasSuffix(k.name, "[0 0], parallel false") || k.name == "streaming" {
						depth++
					}
					out = append(out, copies(k, b, ops, depth))
				}
			}
			for _, kind := range []string{"k-means", "mcmc"} {
				for _, frame := range []int{0, 3} {
					out = append(out, copyMeanwhile(kind, frame, [2]int{1, 2}))
				}
			}
			for _, v := range variants() {
				out = append(out, anyState(v, []string{"Init", "Play", "Pause", "Stop", "Push"}, 3))
			}
			out = append(out, refusedCopies([]string{"Init", "Play", "Pause", "Stop", "Push"}, 3))
			return
		},
		Rule:   "every sequence of operations on an original and on its copy, for every algorithm, several frames and moments of the copy: the copy behaves as an algorithm made by hand with the given configuration and space and all that the original holds (for streaming, its clusters), and neither sees what happens to the other; copies of algorithms that run and are fed, of algorithms in any state, of endless ones that are paused, resumed and fed; copies that fail; up to 30 (80) elements, 120 (400) clusters; chains of 30 iterations",
		Assume: []string{"the proposal distribution of mcmc is given by the caller and shared by the copies: it has no state in the scenarios, see C10 for the others", "operations come to their end before the next one, except in the scenarios that copy a running algorithm"},
	})
}

func init() { regC27() }
