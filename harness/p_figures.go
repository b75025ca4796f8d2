package main

import (
	"fmt"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/harness/probe"
	"verif/vsched"
)

// span is what is known of a moment, or of a duration.
type span struct{ lo, hi time.Duration }

func (s span) has(f float64) bool { return f >= float64(s.lo) && f <= float64(s.hi) }

func (s span) plus(o span) span { return span{s.lo + o.lo, s.hi + o.hi} }

// to is the duration from s to o.
func (s span) to(o span) span { return span{o.lo - s.hi, o.hi - s.lo} }

const endSlack = 100 * time.Millisecond // a run may count the time it takes to end

// story is the reference of the figures: what the client did and what the implementation
// did since the last initialization.
type story struct {
	r      *rig
	iter   time.Duration
	ends   []time.Duration // of the iterations that gave centroids
	life   int             // initializations when they were
	last   time.Duration   // end of the last call of the implementation
	prior  span            // total of the runs that ended
	run    bool            // a run is in progress as far as the client knows
	first  int             // iterations before it
	start  span            // of the run
	pushed int
	when   [2]int64 // last push, in seconds
}

func (s *story) reset() {
	s.prior, s.run, s.pushed, s.when = span{}, false, 0, [2]int64{}
}

// do runs an operation and keeps the story.
func (s *story) do(op string) {
	var inits, was = s.r.m.inits, s.r.algo.Status().Value
	s.over(was)
	var done, last = s.known(), s.last
	if s.start.lo > last {
		last = s.start.lo
	}
	var u0 = vsched.Now().Unix()
	var k = s.r.do(0, op)
	if s.r.m.inits > inits && inits > 0 {
		s.reset()
	}
	switch {
	case op == "Play" && k.err == nil && (was != core.Idle || s.r.m.inits > inits):
		if s.run { // it was over
			s.end(span{last, k.start + endSlack})
		}
		s.run, s.start, s.first = true, span{k.start, k.end}, 0
		if was == core.Ready {
			s.first = done
		}
	case op == "Push" && k.err == nil:
		s.pushed++
		s.when = [2]int64{u0, vsched.Now().Unix()}
	case op == "Stop" && k.err == nil && s.run:
		var e = span{s.last, k.end}
		if was == core.Idle {
			e.lo = k.start
		}
		s.end(e)
	}
}

func (s *story) end(at span) {
	s.prior = s.prior.plus(s.start.to(at))
	s.run = false
}

// over takes note of a run that ended by itself.
func (s *story) over(now core.ClustStatus) {
	if s.run && (now == core.Ready || now == core.Finished) {
		var from = s.start
		if s.last > from.hi {
			from = span{s.last, s.last}
		}
		if s.r.algo.Status().Error == core.ErrTimeout {
			from = span{s.start.lo + s.r.conf.Timeout, s.start.hi + s.r.conf.Timeout + 2*s.iter}
		}
		s.end(span{from.lo, from.hi + endSlack})
	}
}

// known is the number of iterations.
func (s *story) known() int { return s.r.m.iters }

// check compares the figures with the story.
func (s *story) check() {
	var was = s.r.algo.Status().Value
	s.over(was)
	var idle = was != core.Running
	var before = s.known()
	var f = probe.Figures(s.r.algo.RuntimeFigures())
	var n = int(f[core.Iterations])
	var h = s.r.historyOps()
	if n > s.known() || n < before-1 || idle && n != before {
		vsched.Fail("%d iterations are counted and %d were done (%s)", n, s.known(), h)
		return
	}
	if int(f[core.PushedData]) != s.pushed {
		vsched.Fail("%v pushed data are counted and %d were pushed (%s)", f[core.PushedData], s.pushed, h)
	}
	if t := int64(f[core.LastDataTime]); t < s.when[0] || t > s.when[1] {
		vsched.Fail("the last element was pushed at %v and the figure is %d (%s)", s.when, t, h)
	}
	// the figures of the implementation are those of the last iteration
	var want = map[string]float64{}
	if n > 0 {
		want = figuresOf(n)
	}
	for name, v := range f {
		switch name {
		case core.Iterations, core.PushedData, core.LastDataTime, core.Duration:
		default:
			if w, ok := want[name]; !ok || w != v {
				vsched.Fail("after iteration %d, %s is %v and the iteration gave %v (%s)", n, name, v, want, h)
			}
			delete(want, name)
		}
	}
	if len(want) > 0 {
		vsched.Fail("after iteration %d, the figures %v are missing (%s)", n, want, h)
	}
	// the duration
	var d = f[core.Duration]
	var allowed = []span{s.prior}
	if s.run {
		if i := n - 1; i >= s.first && i >= 0 {
			allowed = []span{s.prior.plus(s.start.to(span{s.ends[i], s.ends[i]}))}
		}
		if was == core.Running { // and it may be over now
			allowed = append(allowed, s.prior.plus(s.start.to(span{s.last, vsched.Clock()})))
		}
	}
	for _, a := range allowed {
		if a.has(d) {
			return
		}
	}
	vsched.Fail("the duration is %v instead of %v (%s, %d iterations)", time.Duration(d), allowed, h, n)
}

// figuresOf is what iteration n gives: never twice the same names.
func figuresOf(n int) map[string]float64 {
	switch n % 3 {
	case 0:
		return map[string]float64{}
	case 1:
		return map[string]float64{"mine": float64(n)}
	}
	return map[string]float64{"other": float64(n), "more": float64(2 * n)}
}

func figures(ctrl core.CtrlConf, mk func() *mock, name string, iterTime time.Duration, ops []string, depth, times int, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("figures, %s, iterations of %v, %d operations%s of %v", name, iterTime, depth, repeated(times), ops),
		Max:  max,
		Opt:  wordOptions(times, 8000),
		Body: func() {
			var m = mk()
			var r = newRig(ctrl, m)
			var s = &story{r: r, iter: iterTime}
			m.onIter = func(m *mock, model core.OCModel) { vsched.Sleep(iterTime) }
			m.figures = func(n int) core.RuntimeFigures {
				var f = figuresOf(n)
				if len(f) == 0 {
					return nil
				}
				return core.RuntimeFigures(f)
			}
			m.afterIter = func() {
				s.last = vsched.Clock()
				if s.life != m.inits {
					s.ends, s.life = nil, m.inits
				}
				for len(s.ends) < m.iters {
					s.ends = append(s.ends, s.last)
				}
			}
			var op = word(ops, depth)
			for i := 0; i < depth*times && !vsched.Failed(); i++ {
				s.do(op(i))
				s.check()
			}
			vsched.Sleep(500 * time.Millisecond)
			s.check()
			s.do("Stop")
			s.check()
			vsched.SetOutcome(fmt.Sprint(r.historyOps(), m.iters))
		},
	}
}

func regC29() {
	register(&Property{
		ID: "C29",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Play", "Push", "Pause", "Stop", "Init", "Sleep", "Settle"}
			var d = 4
			if thorough {
				d = 6
			}
			out = append(out, giantDurations())
			out = append(out, giantRun("figures")...)
			var plain = func() *mock { return &mock{} }
			for _, c := range []struct {
				name string
				ctrl core.CtrlConf
				mk   func() *mock
			}{
				{"endless", core.CtrlConf{}, plain},
				{"2 iterations", core.CtrlConf{Iter: 2}, plain},
				{"1 iteration per element", core.CtrlConf{IterPerData: 1}, plain},
				{"3 iterations per element", core.CtrlConf{IterPerData: 3}, plain},
				{"timeout", core.CtrlConf{Timeout: 330 * time.Millisecond}, plain},
				{"error", core.CtrlConf{}, func() *mock { return &mock{failAt: 3} }},
				{"panic", core.CtrlConf{}, func() *mock { return &mock{panicAt: 2} }},
				{"init fails", core.CtrlConf{Iter: 2}, func() *mock { return &mock{initErr: 1} }},
				{"skips", core.CtrlConf{Iter: 2}, func() *mock { return &mock{nilEvery: 2} }},
			} {
				out = append(out, figures(c.ctrl, c.mk, c.name, 70*time.Millisecond, ops, d, 1, [2]int{0, 0}))
				out = append(out, figures(c.ctrl, c.mk, c.name, 70*time.Millisecond, ops, 1, 40, [2]int{0, 0}), figures(c.ctrl, c.mk, c.name, 70*time.Millisecond, ops, 2, 15, [2]int{0, 0}))
				out = append(out, figures(c.ctrl, c.mk, c.name, 70*time.Millisecond, ops, 3, 1, [2]int{1, 1}))
				out = append(out, figures(c.ctrl, c.mk, c.name, 70*time.Millisecond, []string{"Push", "Play", "Sleep", "Settle"}, d+2, 1, [2]int{0, 0}))
				if thorough {
					out = append(out, figures(c.ctrl, c.mk, c.name, 0, ops, 3, 1, [2]int{1, 2}))
				}
			}
			return
		},
		Rule:   "every sequence of operations up to the stated depth for runs that end by their limits, their timeout, a failure or a stop: after each operation, the number of iterations, of pushed data, the date of the last one, the duration and the figures of the implementation are compared with what happened, on the virtual clock; words of 1 and 2 operations repeated 40 and 15 times, longer sequences of pushes, plays and waits",
		Assume: []string{"a run may count or not the tenth of a second it takes to end", "iterations of 70 ms"},
	})
}
