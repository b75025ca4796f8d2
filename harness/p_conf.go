package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"github.com/wearelumenai/distclus/euclid"
	"github.com/wearelumenai/distclus/kmeans"
	"github.com/wearelumenai/distclus/mcmc"
	"github.com/wearelumenai/distclus/streaming"
	"golang.org/x/exp/rand"
	"verif/vsched"
)

// ---- C26: configurations --------------------------------------------------------------

// ctrls is every configuration of the control, with its validity.
func ctrls(f func(c core.CtrlConf, valid bool)) {
	var ints = []int{-1, 0, 3}
	var freqs = []float64{-.5, 0, 2.5}
	forAll([]int{3, 3, 3, 3, 3}, func(ix []int) {
		var c = core.CtrlConf{Iter: ints[ix[0]], IterPerData: ints[ix[1]], DataPerIter: ints[ix[2]],
			IterFreq: freqs[ix[3]], Timeout: time.Duration(ints[ix[4]])}
		var valid = true
		for _, i := range ix {
			valid = valid && i > 0
		}
		f(c, valid)
	})
}

func sameCtrl(a, b core.CtrlConf) bool {
	return a.Iter == b.Iter && a.IterPerData == b.IterPerData && a.DataPerIter == b.DataPerIter && a.IterFreq == b.IterFreq && a.Timeout == b.Timeout
}

// ownConf has a parameter of its own, verified apart from its default value.
type ownConf struct {
	core.CtrlConf
	Own int
}

func (c *ownConf) SetDefaultValues() {
	if c.Own == 0 {
		c.Own = 7
	}
}

func (c *ownConf) Verify() error {
	if c.Own < 1 || c.Own > 9 {
		return fmt.Errorf("own parameter %d", c.Own)
	}
	return nil
}

// accepted tells if a configuration is accepted, which must not depend on the way in.
func accepted(what string, valid bool, ways map[string]func() bool) {
	for name, f := range ways {
		if got := f(); got != valid {
			vsched.Fail("%s by %s: accepted %v", what, name, got)
		}
	}
}

func built(f func()) func() bool { return func() bool { return panics(f) == "" } }

func confScenarios(thorough bool) (out []Scenario) {
	var data = func() []core.Elemt { return []core.Elemt{vec(0), vec(1), vec(5)} }
	var space = euclid.NewSpace()
	var gen = rand.New(rand.NewSource(3))
	out = append(out, pure("control", func() {
		ctrls(func(c core.CtrlConf, valid bool) {
			var what = fmt.Sprintf("%+v", c)
			accepted(what, valid, map[string]func() bool{
				"Verify":      func() bool { var d = c; return d.Verify() == nil },
				"PrepareConf": func() bool { return core.PrepareConf(&mockConf{CtrlConf: c}) == nil },
				"NewAlgo":     built(func() { core.NewAlgo(&mockConf{CtrlConf: c}, &mock{}, line{}) }),
				"Copy": func() bool {
					var r = newRig(core.CtrlConf{}, &mock{})
					var cp, err = r.algo.Copy(&mockConf{CtrlConf: c}, line{})
					if err != nil && cp != nil {
						vsched.Fail("%s: a copy and an error", what)
					}
					return err == nil
				},
				"k-means": built(func() { kmeans.NewAlgo(kmeans.Conf{CtrlConf: c, K: 2}, space, data(), kmeans.GivenInitializer) }),
				"mcmc": built(func() {
					mcmc.NewAlgo(mcmc.Conf{CtrlConf: c, InitK: 2}, space, data(), kmeans.GivenInitializer, mcmc.NewDirac())
				}),
				"streaming": built(func() { streaming.NewAlgo(streaming.Conf{CtrlConf: c}, space, data()) }),
			})
			var d = &mockConf{CtrlConf: c}
			core.PrepareConf(d)
			if !sameCtrl(d.CtrlConf, c) || !sameCtrl(*d.Ctrl(), c) {
				vsched.Fail("%s is changed into %+v", what, d.CtrlConf)
			}
		})
	}))
	out = append(out, pure("k-means", func() {
		forAll([]int{6, 2, 4, 2, 3, 3}, func(ix []int) {
			var c = kmeans.Conf{K: ix[0] - 2, Par: ix[1] == 1, NumCPU: []int{0, 1, 5, -2}[ix[2]], FrameSize: []int{0, 2, 7}[ix[5]]}
			if ix[3] == 1 {
				c.RGen = gen
			}
			c.Iter = ix[4] - 1
			var what = fmt.Sprintf("%+v", c)
			var valid = c.K >= 1 && c.Iter >= 0 && c.NumCPU >= 0
			var algo *core.Algo
			accepted(what, valid, map[string]func() bool{
				"PrepareConf": func() bool { var d = c; return core.PrepareConf(&d) == nil },
				"NewAlgo":     built(func() { algo = kmeans.NewAlgo(c, space, data(), kmeans.GivenInitializer) }),
				"Copy": func() bool {
					var a = kmeans.NewAlgo(kmeans.Conf{K: 1}, space, data(), kmeans.GivenInitializer)
					var d = c
					var cp, err = a.Copy(&d, space)
					if err != nil && cp != nil {
						vsched.Fail("%s: a copy and an error", what)
					}
					return err == nil
				},
			})
			if !valid {
				return
			}
			var d, ok = algo.Conf().(*kmeans.Conf)
			if !ok || d.K != c.K || d.Par != c.Par || d.FrameSize != c.FrameSize || !sameCtrl(d.CtrlConf, c.CtrlConf) {
				vsched.Fail("%s is changed into %+v", what, d)
				return
			}
			if d.NumCPU < 1 || c.NumCPU != 0 && d.NumCPU != c.NumCPU || d.RGen == nil || c.RGen != nil && d.RGen != c.RGen {
				vsched.Fail("%s is completed into %+v", what, d)
			}
		})
	}))
	out = append(out, pure("mcmc", func() {
		forAll([]int{5, 5, 4, 3, 4, 2, 4, 2, 2}, func(ix []int) {
			var c = mcmc.Conf{InitK: ix[0] - 1, MaxK: []int{0, 1, 2, 3, 20}[ix[1]], Norm: []float64{0, 1, 2.5, .3}[ix[2]], B: []float64{0, .25, 4}[ix[3]],
				NumCPU: []int{0, 1, 5, -1}[ix[4]], Par: ix[5] == 1, ProbaK: [][]float64{nil, {}, {0, 1, 3}, {1, 2, 1, 2}}[ix[6]], Amp: float64(ix[7]) * 2.5}
			if ix[8] == 1 {
				c.RGen = gen
			}
			var what = fmt.Sprintf("%+v", c)
			var valid = c.InitK >= 1 && (c.MaxK == 0 || c.InitK <= c.MaxK) && c.NumCPU >= 0 && len(c.ProbaK) <= 3
			var algo *core.Algo
			accepted(what, valid, map[string]func() bool{
				"PrepareConf": func() bool { var d = c; return core.PrepareConf(&d) == nil },
				"NewAlgo":     built(func() { algo = mcmc.NewAlgo(c, space, data(), kmeans.GivenInitializer, mcmc.NewDirac()) }),
			})
			if !valid {
				return
			}
			var d, ok = algo.Conf().(*mcmc.Conf)
			if !ok || d.InitK != c.InitK || d.Par != c.Par || d.Amp != c.Amp ||
				c.MaxK != 0 && d.MaxK != c.MaxK || c.Norm != 0 && d.Norm != c.Norm || c.B != 0 && d.B != c.B || c.NumCPU != 0 && d.NumCPU != c.NumCPU ||
				len(c.ProbaK) != 0 && fmt.Sprint(d.ProbaK) != fmt.Sprint(c.ProbaK) || c.RGen != nil && d.RGen != c.RGen {
				vsched.Fail("%s is changed into %+v", what, d)
				return
			}
			if c.MaxK == 0 && d.MaxK != 16 || c.Norm == 0 && d.Norm != 2 || c.B == 0 && d.B != 1 || d.NumCPU < 1 || d.RGen == nil ||
				len(c.ProbaK) == 0 && fmt.Sprint(d.ProbaK) != "[1 8 1]" {
				vsched.Fail("%s is completed into %+v", what, d)
			}
		})
	}))
	out = append(out, largeConfs(), fractions())
	out = append(out, pure("mcmc beyond the default", func() {
		for k := 14; k <= 19; k++ {
			var valid = k <= 16
			var c = mcmc.Conf{InitK: k}
			accepted(fmt.Sprintf("%d initial clusters", k), valid, map[string]func() bool{
				"PrepareConf": func() bool { var d = c; return core.PrepareConf(&d) == nil },
				"NewAlgo":     built(func() { mcmc.NewAlgo(c, space, data(), kmeans.GivenInitializer, mcmc.NewDirac()) }),
			})
		}
	}))
	out = append(out, pure("streaming", func() {
		forAll([]int{5, 3, 3, 3, 6, 2, 4}, func(ix []int) {
			var c = streaming.Conf{BufferSize: []int{0, 1, 3, 7, -1}[ix[0]], Mu: []float64{0, -1, .7}[ix[1]], Sigma: []float64{0, .3, 2}[ix[2]],
				OutRatio: []float64{0, .4, 3}[ix[3]], OutAfter: ix[4] - 1}
			if ix[5] == 1 {
				c.RGen = gen
			}
			var elemts []core.Elemt
			for i := 0; i < []int{0, 1, 3, 4}[ix[6]]; i++ {
				elemts = append(elemts, vec(float64(i)))
			}
			var what = fmt.Sprintf("%+v", c)
			var valid = (c.OutAfter == 0 || c.OutAfter >= 2) && c.BufferSize >= 0
			var room = c.BufferSize == 0 || c.BufferSize >= len(elemts)
			accepted(what, valid, map[string]func() bool{
				"PrepareConf": func() bool { var d = c; return core.PrepareConf(&d) == nil },
			})
			var algo *core.Algo
			accepted(fmt.Sprintf("%s, %d elements", what, len(elemts)), valid && room, map[string]func() bool{
				"NewAlgo": built(func() { algo = streaming.NewAlgo(c, space, elemts) }),
			})
			if !valid || !room {
				return
			}
			var d, ok = algo.Conf().(*streaming.Conf)
			var is = func(got, given, missing float64) bool {
				if given == 0 {
					given = missing
				}
				return math.Abs(got-given) < 1e-15
			}
			if !ok || !is(float64(d.BufferSize), float64(c.BufferSize), 100) || !is(d.Mu, c.Mu, .5) || !is(d.Sigma, c.Sigma, .1) ||
				!is(d.OutRatio, c.OutRatio, 2) || !is(float64(d.OutAfter), float64(c.OutAfter), 5) || d.RGen == nil || c.RGen != nil && d.RGen != c.RGen {
				vsched.Fail("%s is completed into %+v", what, d)
			}
			// the size it is said to have is the size it has
			var n = len(elemts)
			for ; n < d.BufferSize; n++ {
				if err := algo.Push(vec(1)); err != nil {
					vsched.Fail("%s: push %d of %d answers %v", what, n+1, d.BufferSize, err)
					return
				}
			}
			if algo.Push(vec(1)) == nil {
				vsched.Fail("%s: more than %d elements wait", what, d.BufferSize)
			}
		})
	}))
	out = append(out, pure("another implementation", func() {
		for own := -1; own <= 10; own++ {
			ctrls(func(c core.CtrlConf, valid bool) {
				Eval(1)
				var what = fmt.Sprintf("%+v with %d", c, own)
				valid = valid && own >= 0 && own <= 9
				var confs []*ownConf
				var mk = func() *ownConf {
					confs = append(confs, &ownConf{c, own})
					return confs[len(confs)-1]
				}
				accepted(what, valid, map[string]func() bool{
					"PrepareConf": func() bool { return core.PrepareConf(mk()) == nil },
					"NewAlgo":     built(func() { core.NewAlgo(mk(), &mock{}, line{}) }),
					"Copy": func() bool {
						var cp, err = newRig(core.CtrlConf{}, &mock{}).algo.Copy(mk(), line{})
						if (err == nil) != (cp != nil) {
							vsched.Fail("%s: a copy %v with the error %v", what, cp != nil, err)
						}
						return err == nil
					},
				})
				for _, conf := range confs {
					var want = own
					if own == 0 {
						want = 7
					}
					if valid && (conf.Own != want || !sameCtrl(conf.CtrlConf, c)) {
						vsched.Fail("%s becomes %+v", what, *conf)
					}
				}
			})
		}
	}))
	out = append(out, pure("refused", func() {
		// a refused copy leaves its original as it was
		for _, k := range realKinds() {
			for _, st := range []string{"", "Init", "Play", "Play Pause", "Play Stop"} {
				Eval(1)
				var algo, conf = k.mk(core.CtrlConf{}, realData())
				var r = &rig{m: &mock{}, algo: algo}
				for _, op := range strings.Fields(st) {
					r.do(0, op)
				}
				var before, own = algo.Status(), algo.Conf()
				var c = conf()
				c.Ctrl().Iter = -1
				if cp, err := algo.Copy(c, space); err == nil || cp != nil {
					vsched.Fail("%s, %s: copied with a negative limit", k.name, st)
				}
				if after := algo.Status(); statusName(after) != statusName(before) || algo.Conf() != own {
					vsched.Fail("%s: a refused copy changes %s into %s", k.name, statusName(before), statusName(after))
				}
				algo.Stop()
			}
		}
	}))
	return
}

func regC26() {
	register(&Property{
		ID:        "C26",
		Scenarios: confScenarios,
		Rule:      "every combination of missing, valid, boundary and invalid values of the parameters of the control, of k-means, of mcmc and of streaming, by every way a configuration comes in (verification, construction, copy): accepted if and only if each parameter is in its range; a given value is kept, a missing one is replaced by its default; a refused copy leaves its original as it was; large values",
		Assume:    []string{"a nil generator and a missing number of processors may be replaced by any value"},
	})
}

func init() { regC26() }
