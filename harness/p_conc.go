package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/wearelumenai/distclus/core"
	"verif/vsched"
)

// Concurrent clients of one algorithm.

// settle lets time pass, in several steps so that every thread is served.
func settle() {
	for i := 0; i < 10; i++ {
		vsched.Sleep(300 * time.Millisecond)
	}
}

// setups bring an algorithm into every state of its life.
var setups = [][]string{{}, {"Init"}, {"Play"}, {"Play", "Pause"}, {"Play", "Stop"}}

type concurrent struct {
	name  string
	v     variant
	setup []string
	progs [][]string
	on    func(r *rig, oc core.OnlineClust, s core.OCStatus)
	check func(r *rig, init sst, last core.OCStatus)
	ctrl  func(c *core.CtrlConf)
	opt   vsched.Options
	max   [2]int
}

func progNames(progs [][]string) string {
	var l []string
	for _, p := range progs {
		l = append(l, strings.Join(p, " "))
	}
	return strings.Join(l, " || ")
}

func (c concurrent) scenario() Scenario {
	var name = fmt.Sprintf("[%s] %s, %s", strings.Join(c.setup, " "), progNames(c.progs), c.v.name)
	if c.name != "" {
		name = c.name + ": " + name
	}
	var opt = c.opt
	if opt.MaxSteps == 0 {
		opt.MaxSteps = 8000
	}
	return Scenario{
		Name: name, Max: c.max, Opt: opt,
		Body: func() {
			var ctrl = c.v.ctrl
			if c.ctrl != nil {
				c.ctrl(&ctrl)
			}
			var r = newRig(ctrl, c.v.mk())
			r.on = c.on
			for _, op := range c.setup {
				r.do(0, op)
			}
			var init = sst{v: core.Created, badInit: c.v.bad}
			var ts []vsched.Thread
			for i, p := range c.progs {
				var i, p = i, p
				ts = append(ts, vsched.GoNamed(fmt.Sprintf("client%d", i+1), func() {
					for _, op := range p {
						r.do(i+1, op)
					}
				}))
			}
			for _, t := range ts {
				t.Join()
			}
			settle()
			var last = r.do(0, "Status")
			if c.check != nil {
				c.check(r, init, last.st)
			}
			vsched.SetOutcome(r.history() + " / " + r.notifications())
		},
	}
}

// multisets lists the multisets of n elements of ops.
func multisets(ops []string, n int) (out [][]string) {
	if n == 0 {
		return [][]string{nil}
	}
	for i := range ops {
		for _, rest := range multisets(ops[i:], n-1) {
			out = append(out, append([]string{ops[i]}, rest...))
		}
	}
	return
}

// threads makes one single-operation program of every operation.
func threads(l []string) (out [][]string) {
	for _, x := range l {
		out = append(out, []string{x})
	}
	return
}

func linearizes(c specConf) func(r *rig, init sst, last core.OCStatus) {
	return func(r *rig, init sst, last core.OCStatus) {
		if !c.linearizable(r.hist, init) {
			vsched.Fail("no order of the calls explains the answers: %s", r.historyThreads())
		}
	}
}

func (r *rig) historyThreads() string {
	var l []string
	for _, c := range r.hist {
		l = append(l, fmt.Sprintf("%d.%s", c.thread, c))
	}
	return strings.Join(l, " ")
}

func pick(vs []variant, names ...string) (out []variant) {
	for _, v := range vs {
		for _, n := range names {
			if v.name == n {
				out = append(out, v)
			}
		}
	}
	return
}

func init() {
	register(&Property{
		ID: "C02",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Init", "Play", "Pause", "Stop"}
			for _, v := range pick(variants(), "endless", "two iterations", "fails", "init fails once") {
				for _, s := range setups {
					for _, p := range multisets(ops, 2) {
						out = append(out, concurrent{v: v, setup: s, progs: threads(p), check: linearizes(v.spec), max: [2]int{2, 3}}.scenario())
					}
					for _, p := range multisets(ops, 2) {
						for _, q := range ops {
							if q == "Init" {
								continue
							}
							var progs = [][]string{{p[0], p[1], "Status"}, {q, "Status"}}
							out = append(out, concurrent{v: v, setup: s, progs: progs, check: linearizes(v.spec), max: [2]int{1, 2}}.scenario())
						}
					}
					for _, p := range multisets(ops, 3) {
						out = append(out, concurrent{v: v, setup: s, progs: threads(p), check: linearizes(v.spec), max: [2]int{1, 2}}.scenario())
					}
				}
			}
			return
		},
		Rule:   "control commands issued at the same time by two or three clients from every state; the answers of every explored schedule must be explained by an order of the calls in the state machine of the life cycle (Wing-Gong search over sets of states, with the transitions the algorithm makes by itself)",
		Assume: []string{"preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})

	register(&Property{
		ID: "C03",
		Scenarios: func(thorough bool) (out []Scenario) {
			var ops = []string{"Init", "Play", "Pause", "Stop", "WaitT", "Push", "Status", "Predict", "Figures", "Batch", "Copy"}
			var check = func(r *rig, init sst, last core.OCStatus) {
				var was = last.Value
				var err = r.do(0, "Stop").err
				var now = r.algo.Status().Value
				if err == nil && (was == core.Created || was == core.Finished) || err != nil && now != core.Created && now != core.Finished {
					vsched.Fail("stopping from %s answers %v, and the status is %s", was, err, now)
				}
			}
			var data = func(c *core.CtrlConf) { c.DataPerIter = 1 }
			for _, v := range pick(variants(), "two iterations", "panics", "fails", "init fails once", "iteration frequency") {
				for _, s := range setups {
					for _, p := range multisets(ops, 2) {
						out = append(out, concurrent{v: v, setup: s, progs: threads(p), check: check, max: [2]int{1, 2}}.scenario())
					}
					for _, p := range multisets([]string{"Play", "Pause", "Stop", "Push", "WaitT"}, 2) {
						out = append(out, concurrent{name: "auto play", v: v, setup: s, progs: [][]string{{"Push", p[0]}, {"Push", p[1]}}, check: check, ctrl: data, max: [2]int{1, 2}}.scenario())
					}
				}
			}
			// commands from inside the notification callback
			for _, trigger := range []core.ClustStatus{core.Initializing, core.Ready, core.Running, core.Idle, core.Finished} {
				for _, op := range []string{"Play", "Pause", "Stop", "Init", "Status", "WaitT", "Push", "Batch"} {
					var trigger, op = trigger, op
					var on = func(r *rig, oc core.OnlineClust, s core.OCStatus) {
						var n = 0
						for _, x := range r.notif {
							if x.Value == trigger {
								n++
							}
						}
						if s.Value == trigger && n <= 2 {
							r.do(9, op)
						}
					}
					for _, v := range pick(variants(), "two iterations", "fails") {
						for _, p := range [][][]string{{{"Play", "Pause", "Stop"}}, {{"Play", "Stop"}, {"Pause"}}, {{"Batch"}}} {
							out = append(out, concurrent{name: fmt.Sprintf("%s in the callback of %s", op, trigger), v: v, progs: p, check: check, on: on, max: [2]int{1, 2}}.scenario())
						}
					}
				}
			}
			// a slow callback
			out = append(out, lateCallback("by many statuses", []int{60, 150, 300, 600, 1200, 2500}))
			var slow = func(r *rig, oc core.OnlineClust, s core.OCStatus) { vsched.Sleep(700 * time.Millisecond) }
			for _, v := range pick(variants(), "two iterations", "fails") {
				for _, p := range multisets([]string{"Play", "Pause", "Stop", "Push", "Init"}, 2) {
					out = append(out, concurrent{name: "slow callback", v: v, setup: []string{"Play", "Pause", "Play"}, progs: threads(p), on: slow, check: check, max: [2]int{1, 2}}.scenario())
				}
			}
			return
		},
		Rule:   "pairs of concurrent operations of the whole interface from every state, with automatic play, re-entrant and slow callbacks (by up to 2500 statuses); a call that cannot return (deadlock) or does not return within the horizon of the virtual clock is a failure",
		Assume: []string{"preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})

	register(&Property{
		ID: "C07",
		Scenarios: func(thorough bool) (out []Scenario) {
			var check = func(r *rig, init sst, last core.OCStatus) { r.checkNotifications(last) }
			var nested = func(sleep time.Duration) func(r *rig, oc core.OnlineClust, s core.OCStatus) {
				var inside = map[*rig]int{}
				return func(r *rig, oc core.OnlineClust, s core.OCStatus) {
					inside[r]++
					if inside[r] > 1 {
						vsched.Fail("two notifications at the same time")
					}
					if oc != core.OnlineClust(r.algo) {
						vsched.Fail("a notification is not about its algorithm")
					}
					if sleep > 0 {
						vsched.Sleep(sleep)
					} else {
						vsched.Gosched()
					}
					inside[r]--
				}
			}
			var ops = []string{"Init", "Play", "Pause", "Stop"}
			var all = []string{"Play", "Pause", "Stop", "Init", "WaitT", "Batch"}
			out = append(out, longStories(100)...)
			out = append(out, lateCallback("by many statuses", []int{150, 300, 600, 1200, 2500}))
			for _, v := range variants() {
				if v.name == "iteration frequency" {
					continue
				}
				for _, s := range setups {
					for _, p := range multisets(ops, 2) {
						out = append(out, concurrent{v: v, setup: s, progs: threads(p), check: check, on: nested(0), max: [2]int{1, 2}}.scenario())
					}
					if v.name == "endless" {
						continue
					}
					for _, p := range all {
						for _, q := range all {
							out = append(out, concurrent{name: "slow callback", v: v, setup: s, progs: [][]string{{p, q}}, check: check, on: nested(150 * time.Millisecond), max: [2]int{1, 2}}.scenario())
						}
					}
				}
			}
			return
		},
		Rule:   "the list of notified statuses must be a path of the life cycle from its beginning, end with the settled status, hold one notification per successful command, and no two callbacks may overlap; callbacks late by up to 100 statuses, then 2500",
		Assume: []string{"preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})

	register(&Property{
		ID: "C08",
		Scenarios: func(thorough bool) (out []Scenario) {
			out = append(out, manyStops(60))
			for _, v := range pick(variants(), "endless", "two iterations", "iteration frequency") {
				for _, cmd := range []string{"Pause", "Stop", "Wait", "WaitT"} {
					if v.name == "endless" && strings.HasPrefix(cmd, "Wait") {
						continue
					}
					for _, other := range [][]string{{"Push"}, {"Status", "Figures"}, {"WaitT"}, {"Predict"}, {"Pause"}, {"Stop"}} {
						for _, s := range [][]string{{"Play"}, {"Play", "Pause", "Play"}, {"Play", "Pause"}, {"Init"}, {"Play", "Stop", "Play"}} {
							var q = 2
							if len(s) != 1 && (v.name == "endless" || strings.HasPrefix(cmd, "Wait")) {
								q = 1
							}
							out = append(out, quiet(v, s, cmd, other, [2]int{q, 3}))
						}
					}
				}
			}
			return
		},
		Rule:   "once a pause, a stop or a wait succeeded no iteration is running or starts, and the model does not change, until the next play; up to 60 pauses",
		Assume: []string{"preemption and choice deviations are bounded per scenario (see bounds_completed)"},
	})
}

// quiet checks that a successful pause, stop or wait leaves the algorithm still.
func quiet(v variant, setup []string, cmd string, other []string, max [2]int) Scenario {
	return Scenario{
		Name: fmt.Sprintf("[%s] %s, aside %s, %s", strings.Join(setup, " "), cmd, strings.Join(other, " "), v.name),
		Max:  max,
		Opt:  vsched.Options{MaxSteps: 6000},
		Body: func() {
			var m = v.mk()
			var r = newRig(v.ctrl, m)
			var still = false
			m.onIter = func(m *mock, model core.OCModel) {
				if still {
					vsched.Fail("an iteration starts after the answer to %s (%s)", cmd, r.historyThreads())
				}
			}
			for _, op := range setup {
				r.do(0, op)
			}
			var t = vsched.GoNamed("aside", func() {
				for _, op := range other {
					r.do(1, op)
				}
			})
			var k = r.do(0, cmd)
			if k.err == nil {
				still = true
				if m.inside != 0 {
					vsched.Fail("an iteration is running when %s answers", cmd)
				}
				var calls, cent = m.calls, fmt.Sprint(r.algo.Centroids())
				var figures = r.algo.RuntimeFigures()
				vsched.Sleep(time.Second)
				t.Join()
				var want = core.Idle
				switch cmd {
				case "Stop":
					want = core.Finished
				case "Wait", "WaitT":
					want = core.Ready
				}
				var stopped, paused, pushed = false, false, false
				for _, c := range r.hist {
					if c.thread == 1 && c.err == nil {
						stopped = stopped || c.op == "Stop"
						paused = paused || c.op == "Pause"
						pushed = pushed || c.op == "Push"
					}
				}
				var now = r.algo.RuntimeFigures()
				for _, name := range []string{core.Iterations, "mine", core.Duration, core.PushedData, core.LastDataTime} {
					if name == core.Duration && stopped || (name == core.PushedData || name == core.LastDataTime) && pushed {
						continue
					}
					if figures[name] != now[name] {
						vsched.Fail("%s goes from %v to %v after the answer to %s (%s)", name, figures[name], now[name], cmd, r.historyThreads())
					}
				}
				if m.calls != calls || fmt.Sprint(r.algo.Centroids()) != cent {
					vsched.Fail("the model changes after the answer to %s (%s)", cmd, r.historyThreads())
				}
				if paused && want == core.Ready {
					want = core.Idle
				}
				if stopped {
					want = core.Finished
				}
				if st := r.algo.Status(); st.Value != want {
					vsched.Fail("status %s after %s (%s)", statusName(st), cmd, r.historyThreads())
				}
				still = false
				// and the next play goes on
				var play = r.do(0, "Play")
				if play.err != nil {
					vsched.Fail("%s then Play answers %v", cmd, play.err)
				}
			}
			t.Join()
			r.do(0, "Stop")
			vsched.SetOutcome(r.history())
		},
	}
}
