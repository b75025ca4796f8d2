package main

import (
	"fmt"
	"math"
	"regexp"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/harness/probe"
	"verif/vsched"
)

// ---- C31: a new initialization is a fresh start -------------------------------------------

// livesKind makes algorithms whose generator can be made again in the state it is in.
type livesKind struct {
	name  string
	frame int
	mk    func(src *script, data []core.Elemt) *core.Algo
	queue bool // elements are used once
}

func livesKinds() (out []livesKind) { return longLivesKinds(1, 12) }

// longLivesKinds are those whose runs are several times longer.
func longLivesKinds(times, room int) (out []livesKind) {
	var space = euclid.NewSpace()
	var inits = map[string]core.Initializer{"given": kmeans.GivenInitializer, "rand": kmeans.RandInitializer, "++": kmeans.PPInitializer}
	for _, frame := range []int{0, 3} {
		for _, par := range []bool{false, true} {
			for _, name := range []string{"given", "rand", "++"} {
				if par && name == "rand" {
					continue
				}
				var frame, par, initializer = frame, par, inits[name]
				out = append(out, livesKind{fmt.Sprintf("k-means %s, frame %d, parallel %v", name, frame, par), frame, func(src *script, data []core.Elemt) *core.Algo {
					return kmeans.NewAlgo(kmeans.Conf{CtrlConf: core.CtrlConf{Iter: 2 * times}, K: 2, Par: par, NumCPU: 2, FrameSize: frame, RGen: rand.New(src)}, space, data, initializer)
				}, false})
				if name == "rand" {
					continue
				}
				out = append(out, livesKind{fmt.Sprintf("mcmc %s, frame %d, parallel %v", name, frame, par), frame, func(src *script, data []core.Elemt) *core.Algo {
					return mcmc.NewAlgo(mcmc.Conf{CtrlConf: core.CtrlConf{Iter: 4 * times}, InitK: 2, MaxK: 4, Amp: .01, ProbaK: []float64{2, 1, 2}, Par: par, NumCPU: 2, FrameSize: frame, RGen: rand.New(src)}, space, data, initializer, drift{})
				}, false})
			}
		}
	}
	out = append(out, livesKind{"streaming", 0, func(src *script, data []core.Elemt) *core.Algo {
		return streaming.NewAlgo(streaming.Conf{CtrlConf: core.CtrlConf{Iter: 2 * times, Finishing: betweenIterations{func() { vsched.Sleep(20 * time.Millisecond) }}}, BufferSize: room, Mu: .5, Sigma: .2, OutAfter: 3, RGen: rand.New(src)}, space, data)
	}, true})
	return
}

// freshStarts compares an algorithm that is initialized again with one made by hand.
func freshStarts(k livesKind, former, depth int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("%s, %d operations, then a new life of %d", k.name, former, depth),
		Opt:  vsched.Options{MaxSteps: 100000},
		Body: func() {
			var src = &script{}
			var all = []core.Elemt{vec(1), vec(12), vec(4)}
			var algo = k.mk(src, append([]core.Elemt{}, all...))
			var x, y float64
			var story []string
			var spent, iters int // elements a queue gave in former lives, and in this one
			var failing = false
			var fails = func(a *core.Algo, mine bool) {
				var ctrl = a.Conf().Ctrl()
				var usual = ctrl.Finishing
				ctrl.Finishing = betweenIterations{func() {
					if mine && failing {
						panic("failed")
					}
					if usual != nil {
						usual.IsFinished(a)
					}
				}}
			}
			fails(algo, true)
			var value = func(x float64) core.Elemt { return vec(math.Mod(7*x+3, 23)) }
			var do = func(a *core.Algo, op string, x *float64) error {
				defer settle()
				switch op {
				case "Push":
					*x++
					return a.Push(value(*x))
				case "Play":
					return a.Play()
				case "Fail": // a run that fails
					failing = true
					defer func() { settle(); failing = false }()
					return a.Play()
				case "Stop":
					return a.Stop()
				}
				return a.Init()
			}
			var live = func(op string) {
				story = append(story, op)
				var was = algo.Status().Value
				var err = do(algo, op, &x)
				if (op == "Init" || op == "Play" || op == "Fail") && (was == core.Created || was == core.Finished) {
					spent += iters
					if err == nil {
						spent++
					}
				}
				if op == "Push" && err == nil {
					all = append(all, value(x))
				}
				iters = probe.Iterations(algo.RuntimeFigures())
			}
			var ops = []string{"Push", "Play", "Stop", "Init"}
			var formerOps = []string{"Push", "Play", "Stop", "Init", "Fail"}
			for i := 0; i < former; i++ {
				live(formerOps[vsched.Choose(len(formerOps), 0, "op")])
			}
			if algo.Status().Value == core.Created {
				live("Init")
			}
			if algo.Status().Value != core.Finished {
				live("Stop")
			}
			// an algorithm made by hand
			var held = all
			if k.queue {
				held = all[spent+iters:]
			} else if k.frame > 0 && len(all) > k.frame {
				held = all[len(all)-k.frame:]
			}
			var data []core.Elemt
			for _, e := range held {
				data = append(data, vec(probe.Elemt(e)...))
			}
			var from = fmt.Sprint(probe.Clust(data))
			var twin = k.mk(&script{n: src.n}, data)
			fails(twin, false)
			y = x
			story = append(story, "|")
			for i := 0; i < depth && !vsched.Failed(); i++ {
				var op string
				if i == 0 {
					op = []string{"Init", "Play"}[vsched.Choose(2, 0, "beginning")]
				} else {
					op = ops[vsched.Choose(len(ops), 0, "op")]
				}
				story = append(story, op)
				var e1, e2 = do(algo, op, &x), do(twin, op, &y)
				if !sameErr(e1, e2) {
					vsched.Fail("%s: %s: an algorithm initialized again answers %v, one made of %s answers %v", k.name, strings.Join(story, " "), e1, from, e2)
				}
				if a, b := picture(algo), picture(twin); a != b {
					vsched.Fail("%s: %s: an algorithm initialized again is %s, one made of %s is %s", k.name, strings.Join(story, " "), a, from, b)
				}
			}
			algo.Stop()
			twin.Stop()
			vsched.SetOutcome(strings.Join(story, " ") + picture(algo))
		},
	}
}

// otherDimensions starts a new life with elements that have another dimension.
func otherDimensions(k livesKind, depth int) Scenario {
	return Scenario{Name: k.name + ", a new life in another dimension", Opt: vsched.Options{MaxSteps: 100000}, Body: func() {
		var elemt = func(dim, i int) core.Elemt {
			var v = make([]float64, dim)
			for d := range v {
				v[d] = math.Mod(float64(7*i+3+5*d*i), 23)
			}
			return v
		}
		var dims = []int{1, 2, 3, 9}
		var ix []int
		for _, n := range []int{len(dims), len(dims), len(dims), 2, depth} {
			ix = append(ix, vsched.Choose(n, 0, "variant"))
		}
		var lives = []int{dims[ix[0]], dims[ix[1]], dims[ix[2]]}
		var src = &script{}
		var n = k.frame
		var some = func(dim int) (l []core.Elemt) {
			for ; len(l) < k.frame; n++ {
				l = append(l, elemt(dim, n))
			}
			return
		}
		var algo = k.mk(src, some(lives[0]))
		for life, dim := range lives {
			var held []core.Elemt
			if life > 0 {
				algo.Stop()
				for _, e := range some(dim) {
					if err := algo.Push(e); err != nil {
						vsched.Fail("push answers %v", err)
					}
					held = append(held, vec(probe.Elemt(e)...))
				}
			} else {
				n = k.frame
				held = some(dim)
			}
			Eval(1)
			var twin = k.mk(&script{n: src.n}, held)
			for i := 0; i <= ix[4]; i++ {
				for _, a := range []*core.Algo{algo, twin} {
					if ix[3] == 1 && i == 0 {
						a.Init()
					}
					a.Play()
					settle()
				}
				var f, g = picture(algo), picture(twin)
				if life > 0 { // one was pushed its elements, the other was given them
					f, g = noPushed(f), noPushed(g)
				}
				if f != g {
					vsched.Fail("%s: lives of dimensions %v: an algorithm initialized again is %s, a new one is %s", k.name, lives[:life+1], f, g)
					return
				}
			}
			twin.Stop()
		}
		algo.Stop()
	}}
}

var pushedFigure = regexp.MustCompile(core.PushedData + " [^,]*")

func noPushed(s string) string { return pushedFigure.ReplaceAllString(s, "") }

func regC31() {
	register(&Property{
		ID: "C31",
		Scenarios: func(thorough bool) (out []Scenario) {
			var former, depth = 3, 3
			if thorough {
				former, depth = 4, 4
			}
			out = append(out, largeLives(map[bool]int{false: 130, true: 300}[thorough])...)
			out = append(out, longLives(map[bool][]int{false: {8, 40, 130}, true: {8, 20, 40, 70, 130, 300}}[thorough])...)
			for _, k := range livesKinds() {
				out = append(out, freshStarts(k, former, depth))
				if k.frame > 0 {
					out = append(out, otherDimensions(k, 2))
				}
			}
			return
		},
		Rule: "every sequence of operations of a former life and of the new one, against an algorithm made by hand from the elements held; lives in other dimensions; lives of up to 130 (300) elements and of up to 520 (1200) iterations by run",
	})
}
func init() { regC31() }
